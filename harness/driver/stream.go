package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() { modes["stream"] = runStream }

type recStream struct {
	Cmd   string     `json:"cmd"`
	Args  []string   `json:"args"`
	Err   string     `json:"err"`
	In    Bytes      `json:"in"`
	Split bool       `json:"split"`
	JSON  bool       `json:"json"`
	Cuts  []int      `json:"cuts"`
	Outs  []int      `json:"outs"`
	Out   Bytes      `json:"out"`
	Outj  [][]string `json:"outj"`
	Exit  int        `json:"exit"`
	Canon []cPiece   `json:"canon"`
}

// sink collects the output of a process.
type sink struct {
	mu sync.Mutex
	b  []byte
}

func (s *sink) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.b = append(s.b, p...)
	return len(p), nil
}

func (s *sink) bytes() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]byte{}, s.b...)
}

// dueOf says how much output to wait for, given the beginning of the input.
// It only determines the waiting, the verdict is the specification's.
func dueOf(rec *recStream, prefix []byte) int {
	var ps []string
	if rec.Cmd == "sentence" || rec.Split {
		for rest := prefix; len(rest) > 0; {
			adv, tok, err := filter.ScanSentences(rest, false)
			if err != nil || adv <= 0 {
				break
			}
			if tok != nil {
				ps = append(ps, string(tok))
			}
			rest = rest[adv:]
		}
	} else {
		l := strings.Split(string(prefix), "\n")
		for _, x := range l[:len(l)-1] {
			ps = append(ps, strings.TrimSuffix(x, "\r"))
		}
	}
	if rec.JSON {
		return len(ps)
	}
	n := 0
	for _, p := range ps {
		if rec.Cmd == "sentence" {
			n += len(p) + 1
			continue
		}
		n += len("EOS\n")
		for _, c := range rec.Canon {
			if string(c.T) != p {
				continue
			}
			for _, t := range c.Toks {
				n += len(t.Sf) + 1
				if t.Cl != 0 {
					n++
					for i, f := range t.Ft {
						if i > 0 {
							n++
						}
						n += len(f)
					}
				}
			}
		}
	}
	return n
}

func countArrays(b []byte) int {
	n := 0
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		var v []json.RawMessage
		if d.Decode(&v) != nil {
			return n
		}
		n++
	}
}

var withheld int32 // runs in which something due did not come

// interact feeds the text in pieces and observes the output after each.
func interact(bin string, args []string, rec *recStream, dir string) {
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	var o sink
	var e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	w, err := cmd.StdinPipe()
	if err != nil {
		fatalf("%v", err)
	}
	if err := cmd.Start(); err != nil {
		fatalf("%v", err)
	}
	timer := time.AfterFunc(callLimit, func() { cmd.Process.Kill() })
	at := 0
	for _, c := range rec.Cuts {
		if _, err := w.Write(rec.In[at:c]); err != nil {
			rec.Err = "the command does not read its input: " + clean(err.Error())
			break
		}
		at = c
		need := dueOf(rec, rec.In[:c])
		size := func() int {
			if rec.JSON {
				return countArrays(o.bytes())
			}
			return len(o.bytes())
		}
		limit := time.Now().Add(20 * time.Second)
		n := size()
		for d := 50 * time.Microsecond; n < need && time.Now().Before(limit); n = size() {
			time.Sleep(d)
			if d < 20*time.Millisecond {
				d *= 2
			}
		}
		if n < need {
			atomic.AddInt32(&withheld, 1)
		}
		rec.Outs = append(rec.Outs, n)
	}
	w.Close()
	err = cmd.Wait()
	if !timer.Stop() {
		fmt.Printf("HANG %s\n", clean(fmt.Sprintf("kagome %.100q", args)))
		os.Exit(97)
	}
	var x *exec.ExitError
	if err != nil && !errors.As(err, &x) && !errors.Is(err, io.ErrClosedPipe) {
		fatalf("%v", err)
	}
	rec.Exit = cmd.ProcessState.ExitCode()
	if s := (outcome{nil, e.Bytes(), rec.Exit}).crashed(); s != "" {
		rec.Err = s
	}
	if rec.JSON {
		if rec.Outj, err = scanJSON(o.bytes()); err != nil {
			rec.Err += "the output is no JSON: " + clean(err.Error())
		}
	} else {
		rec.Out = Bytes(o.bytes())
	}
}

func runStream(e env) {
	gen, bin := e.args[0], e.args[1]
	r := rand.New(rand.NewSource(e.seed*31 + 5))
	dir := filepath.Join(e.out, "files")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(dir)
	var ds []*cmdDict
	for i := 0; i < e.pick(6, 20); i++ {
		ds = append(ds, newCmdDict(r, dir, i))
	}
	var jobs []func() *recStream
	// add takes cuts == nil as one cut after every byte
	add := func(cmd string, text []byte, cuts []int, ds []*cmdDict) {
		seed := r.Int63()
		jobs = append(jobs, func() *recStream {
			r := rand.New(rand.NewSource(seed))
			c := ds[r.Intn(len(ds))]
			rec := &recStream{Cmd: cmd, Args: []string{}, In: Bytes(text), Cuts: cuts, Outs: []int{}, Out: Bytes{}, Outj: [][]string{}, Canon: []cPiece{}}
			if cuts == nil {
				rec.Cuts = []int{}
				for i := range text {
					rec.Cuts = append(rec.Cuts, i+1)
				}
			}
			if cmd == "tokenize" {
				d, simple := c.d, r.Intn(4) == 0
				var u *dict.UserDict
				rec.JSON, rec.Split = r.Intn(3) == 0, r.Intn(4) == 0
				parts := [][]string{flagArg(r, "dict", c.path), flagBool(r, "json", rec.JSON), flagBool(r, "split", rec.Split), flagBool(r, "simple", simple)}
				if simple {
					d = c.shrink
				}
				if r.Intn(2) == 0 {
					u = c.u
					parts = append(parts, flagArg(r, "udict", c.upath))
				}
				mode := 1 + r.Intn(3)
				parts = append(parts, flagArg(r, "mode", modeNames[mode]))
				rec.Args = shuffleArgs(r, parts)
				t := mustTokenizer(d, u)
				if msg := guard("Analyze", func() { rec.Canon = canonOf(t, tokenizer.TokenizeMode(mode), text) }); msg != "" {
					rec.Err = msg
					return rec
				}
			}
			interact(bin, append([]string{cmd}, rec.Args...), rec, dir)
			return rec
		})
	}
	readLines(gen, func(line []byte) {
		var raw [3]json.RawMessage
		var cmd string
		var text Bytes
		var cuts []int
		if err := json.Unmarshal(line, &raw); err != nil {
			fatalf("%v", err)
		}
		for i, p := range []interface{}{&cmd, &text, &cuts} {
			if err := json.Unmarshal(raw[i], p); err != nil {
				fatalf("%v", err)
			}
		}
		if len(cuts) == 0 || (!e.thorough() && r.Intn(2) == 0 && len(text) > 3) {
			return
		}
		add(cmd, text, cuts, ds)
	})
	for i := 0; i < e.pick(150, 2000); i++ {
		c := ds[i%len(ds) : i%len(ds)+1]
		text := cmdText(r, c[0].s)
		if len(text) == 0 {
			continue
		}
		if i%12 < 2 { // longer than the buffers involved
			for n := 4000 + r.Intn(2000); len(text) < n; {
				text = append(text, cmdText(r, c[0].s)...)
			}
		}
		var cuts []int
		if len(text) > 60 || i%2 == 0 {
			cuts = []int{}
			for at := 0; at < len(text) && len(cuts) < 5; {
				at += 1 + r.Intn(1+len(text)-at)
				if at > len(text) {
					at = len(text)
				}
				if r.Intn(2) == 0 { // after a line feed
					if k := bytes.IndexByte(text[at:], '\n'); k >= 0 {
						at += k + 1
					}
				}
				cuts = append(cuts, at)
			}
			if cuts[len(cuts)-1] != len(text) {
				cuts = append(cuts, len(text))
			}
		}
		add([]string{"tokenize", "sentence", "tokenize"}[i%3], text, cuts, c)
	}
	recs := make([]*recStream, len(jobs))
	parallel(len(jobs), func(i int) {
		if atomic.LoadInt32(&withheld) < 3 {
			recs[i] = jobs[i]()
		}
	})
	var f struct {
		Recs []*recStream `json:"recs"`
	}
	n := 0
	for _, x := range recs {
		if x != nil {
			f.Recs = append(f.Recs, x)
			n += len(x.Cuts)
		}
	}
	writeJSON(e.out+"/trace.json", f)
	fmt.Printf("STATS runs=%d observations=%d\n", len(f.Recs), n)
}
