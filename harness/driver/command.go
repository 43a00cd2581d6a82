package main

import (
	"archive/zip"
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome-dict/uni"
	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() { modes["command"] = runCommand }

// outcome of a run of the executable
type outcome struct {
	out, err []byte
	exit     int
}

// execute runs the executable; in arrives in pieces, an empty piece is a pause.
func execute(bin string, args []string, in [][]byte, dir string) outcome {
	return executeTo(bin, args, in, dir, nil)
}

// executeTo is execute with a standard output of its own.
func executeTo(bin string, args []string, in [][]byte, dir string, out *os.File) outcome {
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if out != nil {
		cmd.Stdout = out
	}
	w, err := cmd.StdinPipe()
	if err != nil {
		fatalf("%v", err)
	}
	if err := cmd.Start(); err != nil {
		fatalf("%v", err)
	}
	go func() {
		for _, p := range in {
			if len(p) == 0 {
				time.Sleep(3 * time.Millisecond)
				continue
			}
			if _, err := w.Write(p); err != nil {
				break
			}
		}
		w.Close()
	}()
	timer := time.AfterFunc(callLimit, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	if !timer.Stop() {
		fmt.Printf("HANG %s\n", clean(fmt.Sprintf("kagome %.100q", args)))
		os.Exit(97)
	}
	var x *exec.ExitError
	if err != nil && !errors.As(err, &x) {
		var p *os.PathError
		if !errors.As(err, &p) && !errors.Is(err, io.ErrClosedPipe) && !strings.Contains(err.Error(), "pipe") {
			fatalf("%v", err)
		}
	}
	return outcome{o.Bytes(), e.Bytes(), cmd.ProcessState.ExitCode()}
}

// crashed tells whether the executable ended in a Go panic.
func (o outcome) crashed() string {
	if o.exit == 2 && bytes.Contains(o.err, []byte("goroutine ")) {
		return "crash: " + clean(string(o.err[:min(len(o.err), 200)]))
	}
	return ""
}

// chop cuts a text at random, with pauses.
func chop(r *rand.Rand, b []byte) [][]byte {
	var ret [][]byte
	switch r.Intn(3) {
	case 0:
		return [][]byte{b}
	case 1:
		for n := 1 + r.Intn(4); n > 0 && len(b) > 0; n-- {
			k := r.Intn(len(b) + 1)
			ret = append(ret, b[:k], nil)
			b = b[k:]
		}
		return append(ret, b)
	}
	for i := range b {
		if len(b) > 60 && i > 40 {
			return append(ret, b[i:])
		}
		ret = append(ret, b[i:i+1], nil)
	}
	return ret
}

type cTok struct {
	Sf Bytes   `json:"sf"`
	Cl int     `json:"cl"`
	Ft []Bytes `json:"ft"`
}
type cPiece struct {
	T    Bytes    `json:"t"`
	Toks []cTok   `json:"toks"`
	Data []string `json:"data"`
}
type recCommand struct {
	Cmd     string     `json:"cmd"`
	Name    string     `json:"name"`
	Args    []string   `json:"args"`
	Err     string     `json:"err"`
	In      Bytes      `json:"in"`
	Split   bool       `json:"split"`
	JSON    bool       `json:"json"`
	Fail    string     `json:"fail"`
	Exit    int        `json:"exit"`
	Said    bool       `json:"said"`
	Out     Bytes      `json:"out"`
	Outj    [][]string `json:"outj"`
	Longok  bool       `json:"longok"`
	Canon   []cPiece   `json:"canon"`
	G       string     `json:"g"`
	Cg      string     `json:"cg"`
	Extra   int        `json:"extra"`
	Verr    Bytes      `json:"verr"`
	Verbose bool       `json:"verbose"`
	Toks    []cTok     `json:"toks"`
}

func newRecCommand(cmd string) recCommand {
	return recCommand{Cmd: cmd, Args: []string{}, In: Bytes{}, Out: Bytes{}, Outj: [][]string{}, Canon: []cPiece{}, Verr: Bytes{}, Toks: []cTok{}}
}

func toCTok(t tokenizer.Token) cTok {
	c := cTok{Sf: Bytes(t.Surface), Cl: int(t.Class), Ft: []Bytes{}}
	for _, f := range t.Features() {
		c.Ft = append(c.Ft, Bytes(f))
	}
	return c
}

// normal is JSON text up to formatting.
func normalJSON(b []byte) (string, error) {
	var v interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		return "", err
	}
	x, err := json.Marshal(v)
	return string(x), err
}

func dataOf(t tokenizer.Token) string {
	b, err := json.Marshal(tokenizer.NewTokenData(t))
	if err != nil {
		fatalf("%v", err)
	}
	s, err := normalJSON(b)
	if err != nil {
		fatalf("%v", err)
	}
	return s
}

// scanJSON reads a stream of arrays.
func scanJSON(b []byte) ([][]string, error) {
	ret := [][]string{}
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		var v []json.RawMessage
		err := d.Decode(&v)
		if err == io.EOF {
			return ret, nil
		}
		if err != nil {
			return ret, err
		}
		l := []string{}
		for _, x := range v {
			s, err := normalJSON(x)
			if err != nil {
				return ret, err
			}
			l = append(l, s)
		}
		ret = append(ret, l)
	}
}

// analyses of all pieces a command may cut a text into
func canonOf(t *tokenizer.Tokenizer, mode tokenizer.TokenizeMode, text []byte) []cPiece {
	seen := map[string]bool{}
	ret := []cPiece{}
	add := func(s string) {
		if seen[s] {
			return
		}
		seen[s] = true
		p := cPiece{T: Bytes(s), Toks: []cTok{}, Data: []string{}}
		for _, x := range t.Analyze(s, mode) {
			if x.ID != tokenizer.BosEosID {
				p.Toks = append(p.Toks, toCTok(x))
				p.Data = append(p.Data, dataOf(x))
			}
		}
		ret = append(ret, p)
	}
	for _, l := range strings.Split(string(text), "\n") {
		add(strings.TrimSuffix(l, "\r"))
	}
	st := filter.SentenceSplitter{
		Delim: []rune{'。', '．', '！', '!', '？', '?'}, Follower: []rune{'.', '｣', '」', '』', ')', '）', '｝', '}', '〉', '》'},
		SkipWhiteSpace: true, DoubleLineFeedSplit: true, MaxRuneLen: 128,
	}
	for rest := text; len(rest) > 0; {
		adv, tok, err := st.ScanSentences(rest, true)
		if err != nil || adv <= 0 {
			break
		}
		add(string(tok))
		rest = rest[adv:]
	}
	return ret
}

// longSplit follows a text with a sentence longer than a scanner's buffer.
func longSplit(r *rand.Rand) (sep, long []byte) {
	long = []byte("a" + strings.Repeat([]string{" ", "\t", "\u3000"}[r.Intn(3)], 70000+r.Intn(50000)) + "b")
	if r.Intn(2) == 0 {
		long = append(long, "。c。\n\nd"...)
	}
	return []byte("\n\n"), long
}

// allHandled says whether the output is that for all pieces of a text.
func allHandled(rec recCommand, out, full []byte, canon []cPiece) bool {
	at := map[string]cPiece{}
	for _, p := range canon {
		at[string(p.T)] = p
	}
	sc := bufio.NewScanner(bytes.NewReader(full))
	sc.Buffer(nil, 4*len(full)+100)
	if rec.Split || rec.Cmd == "sentence" {
		sc.Split(filter.ScanSentences)
	}
	var b bytes.Buffer
	n := 0
	for ; sc.Scan(); n++ {
		p, ok := at[sc.Text()]
		switch {
		case rec.Cmd == "sentence":
			b.WriteString(sc.Text() + "\n")
		case !ok:
			return false
		case rec.JSON:
			if n >= len(rec.Outj) || strings.Join(rec.Outj[n], "\n") != strings.Join(p.Data, "\n") {
				return false
			}
		default:
			for _, x := range p.Toks {
				b.Write(x.Sf)
				if x.Cl != int(tokenizer.DUMMY) {
					l := []string{}
					for _, f := range x.Ft {
						l = append(l, string(f))
					}
					b.WriteString("\t" + strings.Join(l, ","))
				}
				b.WriteString("\n")
			}
			b.WriteString("EOS\n")
		}
	}
	if sc.Err() != nil {
		return false
	}
	if rec.JSON {
		return n == len(rec.Outj)
	}
	return bytes.Equal(out, b.Bytes())
}

// a dictionary the executable can be pointed to
type cmdDict struct {
	path, upath string
	d, shrink   *dict.Dict
	u           *dict.UserDict
	s           *synth
}

func saveDict(path string, d *dict.Dict) {
	f, err := os.Create(path)
	if err != nil {
		fatalf("%v", err)
	}
	zw := zip.NewWriter(f)
	if err := errors.Join(d.Save(zw), zw.Close(), f.Close()); err != nil {
		fatalf("save: %v", err)
	}
}

func writeFile(path string, b []byte) {
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatalf("%v", err)
	}
}

// newCmdDict writes a random dictionary and user dictionary.
func newCmdDict(r *rand.Rand, dir string, n int) *cmdDict {
	c := &cmdDict{path: filepath.Join(dir, fmt.Sprintf("d%d.zip", n)), upath: filepath.Join(dir, fmt.Sprintf("u%d.txt", n))}
	alpha := []rune("ab01あいんアン東京都人。「」!?ー 　\t")
	r.Shuffle(len(alpha), func(i, j int) { alpha[i], alpha[j] = alpha[j], alpha[i] })
	c.s = newSynth(r, synthOpt{alphabet: append(alpha[:4+r.Intn(6)], '。'), user: -1, long: n%2 == 0, words: 8})
	if c.s.d.Contents == nil {
		c.s.d.Contents = make(dict.Contents, len(c.s.d.Morphs))
		for i := range c.s.d.Contents {
			c.s.d.Contents[i] = []string{"k", fmt.Sprint(i)}
		}
	}
	for i := range c.s.d.Contents {
		if len(c.s.d.Contents[i]) == 0 {
			c.s.d.Contents[i] = []string{"e"}
		}
	}
	saveDict(c.path, c.s.d)
	var err error
	if c.d, err = dict.LoadDictFile(c.path); err != nil {
		fatalf("load: %v", err)
	}
	if c.shrink, err = dict.LoadShrink(c.path); err != nil {
		fatalf("load: %v", err)
	}
	var b strings.Builder
	b.WriteString("# user dictionary\n")
	seen := map[string]bool{}
	for i := 0; i < 3; i++ {
		w := strings.TrimSpace(strings.ReplaceAll(randWord(r, c.s.alphabet, 1+r.Intn(3)), ",", ""))
		if w == "" || seen[w] {
			continue
		}
		seen[w] = true
		c.s.uwords = append(c.s.uwords, w)
		fmt.Fprintf(&b, "%s,%s x,y%d z,品%d\n\n", w, strings.Join(strings.Fields(w), ""), i, i)
	}
	if len(seen) == 0 {
		b.WriteString("zq,zq,ZQ,品\n")
	}
	writeFile(c.upath, []byte(b.String()))
	if c.u, err = dict.NewUserDict(c.upath); err != nil {
		fatalf("user dict: %v", err)
	}
	return c
}

// cmdText makes an input of several lines.
func cmdText(r *rand.Rand, s *synth) []byte {
	var b bytes.Buffer
	if r.Intn(10) == 0 {
		b.WriteString(specials[r.Intn(len(specials))])
	}
	for n := r.Intn(9); n > 0; n-- {
		switch r.Intn(9) {
		case 0: // empty line
		case 1:
			b.WriteString(sentences[r.Intn(len(sentences))])
		case 2:
			b.WriteString(s.input(r, 2) + "。」" + s.input(r, 2) + "\n\n" + s.input(r, 1))
		case 3:
			b.WriteString("EOS")
		case 8:
			b.WriteString(specials[r.Intn(len(specials))] + s.input(r, 1) + specials[r.Intn(len(specials))])
		case 4:
			b.WriteString(" " + s.input(r, 2) + "\t \r")
		default:
			b.WriteString(s.input(r, 1+r.Intn(5)))
		}
		switch k := r.Intn(8); {
		case k == 0 && n == 1: // no line feed at the end
		case k < 3:
			b.WriteString("\r\n")
		default:
			b.WriteString("\n")
		}
	}
	return b.Bytes()
}

// longSentence is a sentence longer than the first buffer of a scanner,
// mostly of white space.
func longSentence(r *rand.Rand, s *synth, n int) []byte {
	x := []string{" ", "\t", "\u3000"}[r.Intn(3)]
	return []byte(s.input(r, 1) + "a" + strings.Repeat(x, n/len(x)) + s.input(r, 1))
}

var modeNames = []string{"", "normal", "search", "extended"}

// flagArg renders a flag in one of the ways the flag package allows.
func flagArg(r *rand.Rand, name, val string) []string {
	d := []string{"-", "--"}[r.Intn(2)]
	if r.Intn(2) == 0 {
		return []string{d + name + "=" + val}
	}
	return []string{d + name, val}
}

func flagBool(r *rand.Rand, name string, v bool) []string {
	if !v {
		if r.Intn(4) == 0 {
			return []string{"-" + name + "=" + []string{"false", "0", "F"}[r.Intn(3)]}
		}
		return nil
	}
	return []string{[]string{"-" + name, "--" + name, "-" + name + "=true", "-" + name + "=1"}[r.Intn(4)]}
}

func shuffleArgs(r *rand.Rand, parts [][]string) []string {
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	ret := []string{}
	for _, p := range parts {
		ret = append(ret, p...)
	}
	return ret
}

func runCommand(e env) {
	bin, what := e.args[0], e.args[1]
	r := rand.New(rand.NewSource(e.seed*29 + 13))
	dir := filepath.Join(e.out, "files")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(dir)
	var f struct {
		Recs []recCommand `json:"recs"`
	}
	var jobs []func() recCommand
	switch what {
	case "tokenize":
		jobs = tokenizeJobs(e, r, bin, dir)
	case "others":
		jobs = append(sentenceJobs(e, r, bin, dir), latticeJobs(e, r, bin, dir)...)
	}
	f.Recs = make([]recCommand, len(jobs))
	var mu sync.Mutex
	parallel(len(jobs), func(i int) {
		x := jobs[i]()
		mu.Lock()
		f.Recs[i] = x
		mu.Unlock()
	})
	writeJSON(e.out+"/trace.json", f)
	fmt.Printf("STATS runs=%d\n", len(f.Recs))
}

func tokenizeJobs(e env, r *rand.Rand, bin, dir string) []func() recCommand {
	var jobs []func() recCommand
	broken1, noDict := filepath.Join(dir, "broken.zip"), filepath.Join(dir, "none.zip")
	writeFile(broken1, []byte("PK\x03\x04 this is no dictionary"))
	brokenU, dupU := filepath.Join(dir, "broken.txt"), filepath.Join(dir, "dup.txt")
	writeFile(brokenU, []byte("one,two\n"))
	writeFile(dupU, []byte("猫,猫,ネコ,名\n猫,猫,ネコ,名\n"))
	var ds []*cmdDict
	for i := 0; i < e.pick(14, 60); i++ {
		ds = append(ds, newCmdDict(r, dir, i))
	}
	add := func(c *cmdDict, sys string, fail string) {
		seed := r.Int63()
		jobs = append(jobs, func() recCommand {
			r := rand.New(rand.NewSource(seed))
			rec := newRecCommand("tokenize")
			rec.Split, rec.JSON, rec.Fail = r.Intn(3) == 0, r.Intn(2) == 0, ""
			simple, user, mode, viaFile := r.Intn(4) == 0, r.Intn(2) == 0, r.Intn(4), r.Intn(2) == 0
			var parts [][]string
			var d *dict.Dict
			var u *dict.UserDict
			var s = c.s
			if sys == "" {
				rec.Name = "file"
				parts = append(parts, flagArg(r, "dict", c.path))
				d = c.d
				if simple {
					d = c.shrink
				}
				if r.Intn(5) == 0 { // ignored when a file is given
					parts = append(parts, flagArg(r, "sysdict", "uni"))
				}
			} else {
				rec.Name = sys
				if sys == "uni" || r.Intn(2) == 0 {
					parts = append(parts, flagArg(r, "sysdict", sys))
				}
				switch {
				case sys == "ipa" && simple:
					d = ipa.DictShrink()
				case sys == "ipa":
					d = ipa.Dict()
				case simple:
					d = uni.DictShrink()
				default:
					d = uni.Dict()
				}
			}
			if user {
				u = c.u
				parts = append(parts, flagArg(r, "udict", c.upath))
			}
			if mode > 0 || r.Intn(4) == 0 {
				parts = append(parts, flagArg(r, "mode", modeNames[mode]))
			}
			m := tokenizer.TokenizeMode(max(mode, 1))
			parts = append(parts, flagBool(r, "simple", simple), flagBool(r, "split", rec.Split), flagBool(r, "json", rec.JSON))
			text := cmdText(r, s)
			if rec.Split && fail == "" && sys == "" && r.Intn(12) == 0 {
				text = append(text, longSentence(r, s, 4100+r.Intn(9000))...)
			}
			long := []byte{}
			if fail == "long" {
				rec.Fail = "long"
				parts = [][]string{flagArg(r, "dict", c.path), flagArg(r, "mode", "normal"), flagBool(r, "split", rec.Split), flagBool(r, "json", rec.JSON)}
				d, u, m = c.d, nil, tokenizer.Normal
				text = append(bytes.TrimRight(text, "\n\r"), '\n')
				long = []byte(strings.Repeat("a", 70000+r.Intn(100000)))
				if r.Intn(2) == 0 {
					long = append(long, "\nx\n"...)
				}
				if rec.Split {
					var sep []byte
					sep, long = longSplit(r)
					text = append(text, sep...)
				}
			}
			full := append(append([]byte{}, text...), long...)
			in := [][]byte{}
			file := filepath.Join(dir, fmt.Sprintf("in%d.txt", seed))
			if viaFile {
				writeFile(file, full)
				defer os.Remove(file)
				parts = append(parts, flagArg(r, "file", file))
			} else {
				in = chop(r, full)
			}
			switch fail {
			case "file":
				parts = append(parts, flagArg(r, "file", []string{noDict, dir}[r.Intn(2)])) // or a directory
			case "dict":
				parts = append(parts, flagArg(r, "dict", []string{noDict, broken1}[r.Intn(2)]))
			case "user":
				parts = append(parts, flagArg(r, "udict", []string{noDict, brokenU, dupU}[r.Intn(3)]))
			}
			if fail != "" && fail != "long" {
				rec.Fail = "before"
				n := len(parts) - 1 // the last one wins
				rec.Args = append(shuffleArgs(r, parts[:n]), parts[n]...)
			} else {
				rec.Args = shuffleArgs(r, parts)
			}
			args := rec.Args
			if r.Intn(3) > 0 {
				args = append([]string{"tokenize"}, args...)
			}
			rec.In = Bytes(text)
			t := mustTokenizer(d, u)
			if msg := guard(fmt.Sprintf("Analyze with %s", rec.Name), func() { rec.Canon = canonOf(t, m, text) }); msg != "" {
				rec.Err = msg
				return rec
			}
			o := execute(bin, args, in, dir)
			rec.Exit, rec.Said, rec.Err = o.exit, len(o.err) > 0, o.crashed()
			if rec.JSON {
				var err error
				if rec.Outj, err = scanJSON(o.out); err != nil {
					rec.Err += "the output is no JSON: " + clean(err.Error())
				}
			} else {
				rec.Out = Bytes(o.out)
			}
			if fail == "long" && rec.Exit == 0 { // also fine if the line is handled
				rec.Longok = allHandled(rec, o.out, full, canonOf(t, m, full))
			}
			return rec
		})
	}
	for i := 0; i < e.pick(360, 4000); i++ {
		add(ds[i%len(ds)], "", "")
	}
	for i := 0; i < e.pick(16, 120); i++ {
		add(ds[i%len(ds)], "ipa", "")
	}
	for i := 0; i < e.pick(2, 30); i++ {
		add(ds[i%len(ds)], "uni", "")
	}
	for i := 0; i < e.pick(10, 40); i++ {
		for _, x := range []string{"file", "dict", "user", "long"} {
			add(ds[i%len(ds)], "", x)
		}
	}
	return jobs
}

func sentenceJobs(e env, r *rand.Rand, bin, dir string) []func() recCommand {
	var jobs []func() recCommand
	r0 := rand.New(rand.NewSource(e.seed))
	s := newSynth(r0, synthOpt{alphabet: []rune("ab 　\n。．！!？?」)』.\r\nあ東"), words: 9, user: -1})
	for i := 0; i < e.pick(400, 4000); i++ {
		seed := r.Int63()
		i := i
		jobs = append(jobs, func() recCommand {
			r := rand.New(rand.NewSource(seed))
			rec := newRecCommand("sentence")
			var text []byte
			k := r.Intn(4)
			if i%200 == 7 {
				k = 4
			}
			switch k {
			case 4: // nearly as long as a scanner allows
				text = append(longSentence(r, s, 60000+r.Intn(3500)), cmdText(r, s)...)
			case 0:
				text = cmdText(r, s)
				if i%40 < 4 {
					text = append(text, longSentence(r, s, 4100+r.Intn(9000))...)
				}
			case 1:
				text = []byte(randWord(r, s.alphabet, r.Intn(400)))
			default:
				for n := r.Intn(20); n > 0; n-- {
					text = append(text, s.input(r, 1)...)
				}
			}
			full := text
			if i%25 == 13 {
				rec.Fail = "long"
				sep, long := longSplit(r)
				text = append(text, sep...)
				full = append(append([]byte{}, text...), long...)
			}
			in := [][]byte{}
			if i%25 == 0 {
				rec.Fail = "before"
				rec.Args = flagArg(r, "file", []string{filepath.Join(dir, "nothing here"), dir}[i/25%2])
			} else if r.Intn(2) == 0 {
				file := filepath.Join(dir, fmt.Sprintf("in%d.txt", seed))
				writeFile(file, full)
				defer os.Remove(file)
				rec.Args = flagArg(r, "file", file)
			} else {
				in = chop(r, full)
			}
			rec.In = Bytes(text)
			o := execute(bin, append([]string{"sentence"}, rec.Args...), in, dir)
			rec.Exit, rec.Said, rec.Out, rec.Err = o.exit, len(o.err) > 0, Bytes(o.out), o.crashed()
			if rec.Fail == "long" && rec.Exit == 0 {
				rec.Longok = allHandled(rec, o.out, full, nil)
			}
			return rec
		})
	}
	return jobs
}

func latticeJobs(e env, r *rand.Rand, bin, dir string) []func() recCommand {
	var jobs []func() recCommand
	var ds []*cmdDict
	for i := 0; i < 4; i++ {
		ds = append(ds, newCmdDict(r, dir, 1000+i))
	}
	for i := 0; i < e.pick(72, 300); i++ {
		seed := r.Int63()
		i := i
		jobs = append(jobs, func() recCommand {
			r := rand.New(rand.NewSource(seed))
			rec := newRecCommand("lattice")
			c := ds[i%len(ds)]
			mode := r.Intn(4)
			sys := "ipa"
			if i%(e.pick(28, 10)) == 5 {
				sys = "uni"
			}
			var parts [][]string
			var u *dict.UserDict
			if sys == "uni" || r.Intn(2) == 0 {
				parts = append(parts, flagArg(r, "dict", sys))
			}
			if r.Intn(2) == 0 {
				parts = append(parts, flagArg(r, "udict", c.upath))
				u = c.u
			}
			if mode > 0 {
				parts = append(parts, flagArg(r, "mode", modeNames[mode]))
			}
			rec.Verbose = r.Intn(2) == 0
			parts = append(parts, flagBool(r, "v", rec.Verbose))
			words := []string{}
			for n := 1 + r.Intn(3); n > 0; n-- {
				w := without0(sentences[r.Intn(len(sentences))])
				if r.Intn(2) == 0 {
					w = without0(c.s.input(r, 3))
				}
				words = append(words, w)
			}
			if strings.HasPrefix(words[0], "-") {
				words[0] = "x" + words[0]
			}
			text := strings.Join(words, " ")
			file := ""
			var full *os.File
			switch k := r.Intn(8); {
			case k < 4: // to a file, whatever it held before
				file = filepath.Join(dir, fmt.Sprintf("out%d.dot", seed))
				if k > 0 {
					writeFile(file, bytes.Repeat([]byte("old contents }\n"), 1+r.Intn(3000)))
				}
				defer os.Remove(file)
				parts = append(parts, flagArg(r, "output", file))
			case k == 4:
				rec.Fail = "before"
				parts = append(parts, flagArg(r, "output", filepath.Join(dir, "no such directory", "x.dot")))
			case k == 6: // a device without space
				rec.Fail = "output"
				if r.Intn(2) == 0 {
					parts = append(parts, flagArg(r, "output", "/dev/full"))
				} else if full, _ = os.OpenFile("/dev/full", os.O_WRONLY, 0); full == nil {
					rec.Fail = ""
				} else {
					defer full.Close()
				}
			case k == 5 && u == nil:
				rec.Fail = "before"
				parts = append(parts, flagArg(r, "udict", filepath.Join(dir, "no such file")))
			}
			rec.Args = append(shuffleArgs(r, parts), words...)
			rec.In = Bytes(text)
			d := ipa.Dict()
			if sys == "uni" {
				d = uni.Dict()
			}
			t := mustTokenizer(d, u)
			var b bytes.Buffer
			if msg := guard("AnalyzeGraph", func() {
				for i, x := range t.AnalyzeGraph(&b, text, tokenizer.TokenizeMode(max(mode, 1))) {
					if i > 0 {
						rec.Toks = append(rec.Toks, toCTok(x))
					}
				}
			}); msg != "" {
				rec.Err = msg
				return rec
			}
			rec.Cg = graphDigest(b.String())
			o := executeTo(bin, append([]string{"lattice"}, rec.Args...), nil, dir, full)
			rec.Exit, rec.Said, rec.Err, rec.Verr = o.exit, len(o.err) > 0, o.crashed(), Bytes(o.err)
			if rec.Fail != "" {
				rec.Out, rec.Verr = Bytes(o.out), Bytes{}
				return rec
			}
			g := o.out
			if file != "" {
				rec.Extra = len(o.out)
				g, _ = os.ReadFile(file)
			}
			rec.G = graphDigest(string(g))
			return rec
		})
	}
	return jobs
}
