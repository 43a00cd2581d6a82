package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome/v2/tokenizer"
	"github.com/ikawaha/kagome/v2/tokenizer/lattice"
)

func init() {
	modes["session"] = runSession
	modes["sessref"] = runSessRef
	modes["latreplay"] = runLatReplay
	modes["latref"] = runLatRef
}

// a world is a set of dictionaries and calls, the same in every process with
// the same seed.
type world struct {
	ipa   bool
	seed  int64
	dicts []*synth // index 0..; nil: ipa (with or without user dictionary)
	calls []sCall
}

type sCall struct {
	dict  int
	omit  bool
	kind  string // analyze, wakati, graph
	mode  int
	input string
}

func newWorld(seed int64, n, ncalls int, withIpa bool) *world {
	w := &world{seed: seed, ipa: withIpa}
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(seed*7919 + int64(i)))
		s := newSynth(r, synthOpt{long: i%3 == 0, user: []int{0, 1, -1}[i%3]})
		w.dicts = append(w.dicts, s)
	}
	r := rand.New(rand.NewSource(seed * 31))
	for i := 0; i < ncalls; i++ {
		c := sCall{omit: r.Intn(3) == 0, kind: []string{"analyze", "analyze", "wakati", "graph"}[r.Intn(4)], mode: 1 + r.Intn(3)}
		c.dict = r.Intn(len(w.dicts))
		s := w.dicts[c.dict]
		switch r.Intn(8) {
		case 0:
			c.input = strings.Repeat(s.input(r, 4), 1+r.Intn(12)) // long
		case 1:
			c.input = ""
		default:
			c.input = s.input(r, 1+r.Intn(6))
		}
		w.calls = append(w.calls, c)
	}
	// families of calls which differ in one respect only: the same text with
	// other dictionaries, entry points, modes, and texts one character apart
	for i := 0; i < 5; i++ {
		b := w.calls[r.Intn(ncalls)]
		s := w.dicts[b.dict]
		if len(b.input) < 6 {
			b.input = s.input(r, 6) + randWord(r, s.alphabet, 3)
		}
		if i%2 == 1 && len(b.input) < 200 {
			b.input = strings.Repeat(b.input, 1+200/len(b.input))
		}
		w.calls = append(w.calls, b)
		for _, f := range []func(c *sCall){
			func(c *sCall) { c.mode = 1 + c.mode%3; c.kind = "analyze" },
			func(c *sCall) { c.omit = !c.omit },
			func(c *sCall) { c.dict = (c.dict + 1) % len(w.dicts) },
			func(c *sCall) { c.dict = (c.dict + 3) % len(w.dicts); c.kind = "wakati" },
			func(c *sCall) { c.kind = "graph" },
			func(c *sCall) { c.input = twin(r, c.input, s.alphabet) },
			func(c *sCall) { c.input = c.input[:len(c.input)-1] },
			func(c *sCall) { c.input += c.input[:1] },
		} {
			c := b
			f(&c)
			w.calls = append(w.calls, c)
		}
	}
	// texts that differ from another in one place, at any place, or in the
	// order of their characters
	for i := 0; i < 2; i++ {
		b := sCall{dict: r.Intn(len(w.dicts)), kind: "analyze", mode: 1 + r.Intn(3), omit: i == 1}
		s := w.dicts[b.dict]
		rs := []rune(s.input(r, 8))
		for len(rs) < 12 {
			rs = append(rs, s.alphabet[r.Intn(len(s.alphabet))])
		}
		if len(rs) > 40 {
			rs = rs[:40]
		}
		b.input = string(rs)
		w.calls = append(w.calls, b)
		add := func(rs []rune) {
			c := b
			c.input = string(rs)
			if c.input != b.input {
				w.calls = append(w.calls, c)
			}
		}
		for k := range rs {
			same := []rune{} // as long in bytes
			for _, c := range s.alphabet {
				if c != rs[k] && utf8.RuneLen(c) == utf8.RuneLen(rs[k]) {
					same = append(same, c)
				}
			}
			if len(same) > 0 && (len(rs) <= 16 || k < 2 || k > len(rs)-3 || k%3 == 0) {
				v := append([]rune(nil), rs...)
				v[k] = same[r.Intn(len(same))]
				add(v)
			}
			if k > 0 && k%5 == 2 {
				v := append([]rune(nil), rs...)
				v[k], v[k-1] = v[k-1], v[k]
				add(v)
			}
		}
		v := append(append([]rune(nil), rs[len(rs)/2:]...), rs[:len(rs)/2]...)
		add(v)
	}
	// very long texts: objects that grew large
	for i, n := range []int{260, 1100, 1030, 2100, 5000, 520, 10000} {
		if !withIpa && i > 2 {
			break
		}
		c := sCall{dict: r.Intn(len(w.dicts)), omit: i%2 == 0, kind: []string{"analyze", "analyze", "graph", "wakati"}[i%4], mode: 1 + (i+1)%3}
		s := w.dicts[c.dict]
		var b strings.Builder
		for b.Len() < n {
			b.WriteString(s.input(r, 3))
			b.WriteString(randWord(r, s.alphabet, 2))
		}
		c.input = b.String()
		w.calls = append(w.calls, c)
	}
	if withIpa {
		for i := 0; i < 4; i++ {
			var b strings.Builder
			for k := i; b.Len() < []int{5000, 2500, 12000, 30000}[i]; k++ {
				b.WriteString(sentences[(k*5+int(seed))%len(sentences)])
			}
			w.calls = append(w.calls, sCall{dict: n + i%2, omit: i%2 == 0, kind: []string{"analyze", "analyze", "wakati", "analyze"}[i], mode: 1 + i%3, input: b.String()})
		}
		for i := 0; i < 16; i++ {
			in := sentences[(i*7+int(seed))%len(sentences)]
			w.calls = append(w.calls, sCall{dict: n + i%2, omit: i%4 == 0, kind: []string{"analyze", "graph", "wakati"}[i%3], mode: 1 + i%3, input: in})
		}
	}
	return w
}

// twin replaces a character of a text by another of the same length.
func twin(r *rand.Rand, s string, alphabet []rune) string {
	rs := []rune(s)
	for i := 0; i < 100; i++ {
		k, c := r.Intn(len(rs)), alphabet[r.Intn(len(alphabet))]
		if rs[k] != c && utf8.RuneLen(rs[k]) == utf8.RuneLen(c) {
			rs[k] = c
			break
		}
	}
	return string(rs)
}

func (w *world) dict(i int) (*dict.Dict, *dict.UserDict) {
	if i < len(w.dicts) {
		return w.dicts[i].d, w.dicts[i].u
	}
	if i == len(w.dicts) {
		return ipa.Dict(), nil
	}
	return ipa.Dict(), realUserDict()
}

func (w *world) tokenizer(c sCall) *tokenizer.Tokenizer {
	d, u := w.dict(c.dict)
	if c.omit {
		return mustTokenizer(d, u, tokenizer.OmitBosEos())
	}
	return mustTokenizer(d, u)
}

// sTok is a token with a digest of all its attributes.
type sTok struct {
	jTok
	At string `json:"at"`
}
type sRes struct {
	Tk []sTok  `json:"tk"`
	Wk []Bytes `json:"wk"`
	G  string  `json:"g"`
}

func digest(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		fatalf("%v", err)
	}
	h := sha1.Sum(b)
	return hex.EncodeToString(h[:8])
}

func snapshot(ts []tokenizer.Token) []sTok {
	ret := []sTok{}
	for _, t := range ts {
		j := toTok(t)
		j.Sf = append(Bytes{}, j.Sf...)
		ret = append(ret, sTok{j, digest(observe(t, false))})
	}
	return ret
}

func graphDigest(s string) string {
	g, err := readGraph(s)
	if err != nil {
		return "unreadable: " + clean(err.Error())
	}
	return digest(g)
}

// a result that can be looked at again
type kept struct {
	ts []tokenizer.Token
	wk []string
	g  string
}

func (k kept) res() sRes {
	r := sRes{Tk: snapshot(k.ts), Wk: []Bytes{}, G: k.g}
	for _, s := range k.wk {
		r.Wk = append(r.Wk, append(Bytes{}, s...))
	}
	return r
}

// pausing is a writer that stops at its first write until released.
type pausing struct {
	bytes.Buffer
	reached chan struct{}
	release chan struct{}
	once    sync.Once
}

func (p *pausing) Write(b []byte) (int, error) {
	p.once.Do(func() {
		close(p.reached)
		<-p.release
	})
	return p.Buffer.Write(b)
}

// scribble overwrites what a call returned.
func (k kept) scribble() {
	for i := range k.ts {
		k.ts[i] = tokenizer.Token{Index: -7, ID: -7, Surface: "scribbled"}
	}
	for i := range k.wk {
		k.wk[i] = "scribbled"
	}
}

// breaking is a writer which fails or panics after some bytes.
type breaking struct {
	left  int
	panic bool
}

func (p *breaking) Write(b []byte) (int, error) {
	if p.left -= len(b); p.left >= 0 {
		return len(b), nil
	}
	if p.panic {
		panic(p)
	}
	return 0, errors.New("writer broken")
}

// breakOff makes a graph call whose writer breaks in the middle.
func breakOff(t *tokenizer.Tokenizer, c sCall, p *breaking) {
	defer func() {
		if x := recover(); x != nil && x != interface{}(p) {
			panic(x)
		}
	}()
	t.AnalyzeGraph(p, c.input, tokenizer.TokenizeMode(c.mode))
}

func call(t *tokenizer.Tokenizer, c sCall) kept {
	var k kept
	switch c.kind {
	case "analyze":
		k.ts = t.Analyze(c.input, tokenizer.TokenizeMode(c.mode))
	case "wakati":
		k.wk = t.Wakati(c.input)
	case "graph":
		var b bytes.Buffer
		k.ts = t.AnalyzeGraph(&b, c.input, tokenizer.TokenizeMode(c.mode))
		k.g = graphDigest(b.String())
	}
	return k
}

type recSession struct {
	Name  string  `json:"name"`
	Err   string  `json:"err"`
	Calls [][]int `json:"calls"` // canon, result, result read again later
}

type fileSession struct {
	Canon []sRes       `json:"canon"`
	Ress  []sRes       `json:"ress"`
	Recs  []recSession `json:"recs"`
	seen  map[string]int
	mu    sync.Mutex
}

func (f *fileSession) result(r sRes) int {
	d := digest(r)
	f.mu.Lock()
	defer f.mu.Unlock()
	if n, ok := f.seen[d]; ok {
		return n
	}
	f.Ress = append(f.Ress, r)
	f.seen[d] = len(f.Ress)
	return len(f.Ress)
}

// runSessRef makes one call in a fresh process.
func runSessRef(e env) {
	n, _ := strconv.Atoi(e.args[0])
	m, _ := strconv.Atoi(e.args[1])
	k, _ := strconv.Atoi(e.args[2])
	w := newWorld(e.seed, n, m, e.args[3] == "true")
	c := w.calls[k]
	var res sRes
	if msg := guard(fmt.Sprintf("first call %+v", c), func() { res = call(w.tokenizer(c), c).res() }); msg != "" {
		broken("first call in a fresh process: %s", msg)
	}
	if err := json.NewEncoder(os.Stdout).Encode(res); err != nil {
		fatalf("%v", err)
	}
}

// child runs the driver itself in a fresh process and decodes its output.
func child(v interface{}, e env, args ...string) {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "VERIF_SEED="+strconv.FormatInt(e.seed, 10))
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		if bytes.HasPrefix(out, []byte("BROKEN ")) || bytes.HasPrefix(out, []byte("HANG ")) {
			os.Stdout.Write(out)
			os.Exit(96)
		}
		fatalf("child %v: %v", args, err)
	}
	if err := json.Unmarshal(out, v); err != nil {
		fatalf("child %v: %v", args, err)
	}
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			f(i)
		}(i)
	}
	wg.Wait()
}

func runSession(e env) {
	race := len(e.args) > 0 && e.args[0] == "race"
	nd, nc := e.pick(10, 24), e.pick(130, 600)
	if race {
		nd, nc = 8, e.pick(50, 150)
	}
	w := newWorld(e.seed, nd, nc, !race)
	f := &fileSession{seen: map[string]int{}}
	f.Canon = make([]sRes, len(w.calls))
	parallel(len(w.calls), func(i int) {
		child(&f.Canon[i], e, "sessref", e.out, strconv.Itoa(nd), strconv.Itoa(nc), strconv.Itoa(i), strconv.FormatBool(w.ipa))
	})
	tzs := make([]*tokenizer.Tokenizer, len(w.calls))
	shared := map[string]*tokenizer.Tokenizer{}
	for i, c := range w.calls {
		k := fmt.Sprintf("%d %v", c.dict, c.omit)
		if shared[k] == nil {
			shared[k] = w.tokenizer(c)
		}
		tzs[i] = shared[k]
	}
	// one session: a sequence of calls by one goroutine
	session := func(name string, r *rand.Rand, n int) recSession {
		rec := recSession{Name: name, Calls: [][]int{}}
		var olds []kept
		rec.Err = guard("session "+name, func() {
			for i := 0; i < n; i++ {
				k := r.Intn(len(w.calls))
				if r.Intn(3) == 0 && len(rec.Calls) > 0 {
					k = rec.Calls[r.Intn(len(rec.Calls))][0] - 1
				}
				if r.Intn(12) == 0 {
					j := r.Intn(len(w.calls))
					breakOff(tzs[j], w.calls[j], &breaking{r.Intn(3000), r.Intn(2) == 0})
				}
				x := call(tzs[k], w.calls[k])
				n := f.result(x.res())
				rec.Calls = append(rec.Calls, []int{k + 1, n})
				if r.Intn(4) == 0 {
					x.scribble()
					rec.Calls[i] = []int{k + 1, n, n}
				}
				olds = append(olds, x)
				if r.Intn(40) == 0 {
					runtime.GC()
				}
			}
			for i, x := range olds {
				if len(rec.Calls[i]) == 2 {
					rec.Calls[i] = append(rec.Calls[i], f.result(x.res()))
				}
			}
		})
		if rec.Err != "" {
			rec.Calls = [][]int{}
		}
		return rec
	}
	r := rand.New(rand.NewSource(e.seed*17 + 3))
	for i := 0; i < e.pick(60, 400); i++ {
		f.Recs = append(f.Recs, session("sequential", r, 30))
	}
	// the same call from a tokenizer of its own
	{
		rec := recSession{Name: "own tokenizer", Calls: [][]int{}}
		rec.Err = guard("session own tokenizer", func() {
			for k, c := range w.calls {
				x := call(w.tokenizer(c), c)
				n := f.result(x.res())
				rec.Calls = append(rec.Calls, []int{k + 1, n, n})
			}
		})
		f.Recs = append(f.Recs, rec)
	}
	// calls while graph calls are held up in the middle
	var graphs []int
	for i, c := range w.calls {
		if c.kind == "graph" {
			graphs = append(graphs, i)
		}
	}
	for i := 0; i < e.pick(60, 400) && len(graphs) > 0; i++ {
		rec := recSession{Name: "held", Calls: [][]int{}}
		rec.Err = guard("session held", func() {
			type held struct {
				k    int
				p    *pausing
				done chan kept
			}
			var hs []held
			seed := r.Int63()
			r2 := rand.New(rand.NewSource(seed))
			for n := 0; n < 1+r2.Intn(3); n++ {
				h := held{k: graphs[r2.Intn(len(graphs))], p: &pausing{reached: make(chan struct{}), release: make(chan struct{})}, done: make(chan kept, 1)}
				go func() {
					var x kept
					if msg := guard("held graph call", func() {
						x.ts = tzs[h.k].AnalyzeGraph(h.p, w.calls[h.k].input, tokenizer.TokenizeMode(w.calls[h.k].mode))
						x.g = graphDigest(h.p.String())
					}); msg != "" {
						x.g = msg
					}
					h.done <- x
				}()
				select {
				case <-h.p.reached:
				case x := <-h.done: // wrote nothing
					h.done <- x
				}
				hs = append(hs, h)
				inner := session("inner", r2, 4)
				if inner.Err != "" {
					panic(inner.Err)
				}
				rec.Calls = append(rec.Calls, inner.Calls...)
			}
			r2.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
			for _, h := range hs {
				close(h.p.release)
				x := <-h.done
				n := f.result(x.res())
				inner := session("inner", r2, 2)
				rec.Calls = append(rec.Calls, inner.Calls...)
				rec.Calls = append(rec.Calls, []int{h.k + 1, n, f.result(x.res())})
			}
		})
		f.Recs = append(f.Recs, rec)
	}
	// concurrent sessions
	for round := 0; round < e.pick(4, 20); round++ {
		recs := make([]recSession, 16)
		var wg sync.WaitGroup
		for g := range recs {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				recs[g] = session("concurrent", rand.New(rand.NewSource(e.seed*1009+int64(round*16+g))), e.pick(40, 80))
			}(g)
		}
		wg.Wait()
		f.Recs = append(f.Recs, recs...)
	}
	n := 0
	for _, x := range f.Recs {
		n += len(x.Calls)
	}
	writeJSON(e.out+"/trace.json", f)
	fmt.Printf("STATS sessions=%d calls=%d references=%d distinct_results=%d\n", len(f.Recs), n, len(f.Canon), len(f.Ress))
}

// ---- the lattice package, step by step ------------------------------------------

type latCall struct {
	d    *dict.Dict
	u    *dict.UserDict
	mode lattice.TokenizeMode
	in   string
}

// three kinds of calls that differ in dictionary, user dictionary, mode and length
func latCalls(seed int64) []latCall {
	var ret []latCall
	for i := 0; i < 3; i++ {
		r := rand.New(rand.NewSource(seed*101 + int64(i)))
		s := newSynth(r, synthOpt{user: []int{-1, 1, 1}[i], words: 6, long: i == 1})
		ret = append(ret, latCall{s.d, s.u, lattice.TokenizeMode(1 + (int(seed)+i)%3), s.input(r, []int{9, 2, 5}[i])})
	}
	return ret
}

type latOut struct {
	Nodes []string
	Graph string
}

func readLattice(la *lattice.Lattice) latOut {
	ret := latOut{Nodes: []string{}}
	for _, n := range la.Output {
		ret.Nodes = append(ret.Nodes, fmt.Sprintf("%d %d %d %d %d %d %d %d %x", n.ID, n.Position, n.Start, n.Class, n.Cost, n.Left, n.Right, n.Weight, n.Surface))
	}
	var b bytes.Buffer
	la.Dot(&b)
	ret.Graph = graphDigest(b.String())
	return ret
}

func runLatRef(e env) {
	k, _ := strconv.Atoi(e.args[0])
	c := latCalls(e.seed)[k]
	var out latOut
	if msg := guard("lattice", func() {
		la := lattice.New(c.d, c.u)
		la.Build(c.in)
		la.Forward(c.mode)
		la.Backward(c.mode)
		out = readLattice(la)
		la.Free()
	}); msg != "" {
		broken("first lattice in a fresh process: %s", msg)
	}
	if err := json.NewEncoder(os.Stdout).Encode(out); err != nil {
		fatalf("%v", err)
	}
}

func runLatReplay(e env) {
	calls := latCalls(e.seed)
	ref := make([]latOut, len(calls))
	parallel(len(calls), func(i int) { child(&ref[i], e, "latref", e.out, strconv.Itoa(i)) })
	want := make([]string, len(calls))
	for i := range ref {
		want[i] = digest(ref[i])
	}
	var rp replayer
	nth := 0
	readLines(e.args[0], func(line []byte) {
		nth++
		if !e.thorough() && (int64(nth)+e.seed)%3 != 0 {
			return
		}
		var hist [][3]int
		if err := errors.Join(json.Unmarshal(line, &hist)); err != nil {
			fatalf("%v", err)
		}
		what := ""
		msg := guard("lattice steps "+string(line), func() {
			slot := map[int]*lattice.Lattice{}
			for _, h := range hist {
				c := calls[h[2]-1]
				switch h[1] {
				case 1:
					slot[h[0]] = lattice.New(c.d, c.u)
				case 2:
					slot[h[0]].Build(c.in)
				case 3:
					slot[h[0]].Forward(c.mode)
				case 4:
					slot[h[0]].Backward(c.mode)
				case 5:
					if got := readLattice(slot[h[0]]); digest(got) != want[h[2]-1] {
						what = fmt.Sprintf("slot %d, call %d: result differs from that of a fresh process", h[0], h[2])
					}
					slot[h[0]].Free()
				}
			}
		})
		if msg != "" || what != "" {
			rp.bad("C06 "+clean(msg+what), map[string]interface{}{"steps": string(line), "wrong": what})
			return
		}
		rp.ok(string(line))
	})
	rp.finish(e)
}
