package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() { modes["graph"] = runGraph }

// gDict is the dictionary record of Lattice.tla.
type gDict struct {
	jDict
	Kent  []jEnt `json:"kent"`
	Uent  []jEnt `json:"uent"`
	Usent []jEnt `json:"usent"`
}

func excerptGraph(d *dict.Dict, u *dict.UserDict, inputs []string) gDict {
	g := gDict{jDict: excerpt(d, u, inputs), Kent: []jEnt{}, Uent: []jEnt{}, Usent: []jEnt{}}
	for _, m := range g.KMorph {
		x := entryOf(d, u, tokenizer.KNOWN, m.ID)
		x.Cont = []string{}
		g.Kent = append(g.Kent, x)
	}
	for _, m := range g.UMorph {
		g.Uent = append(g.Uent, entryOf(d, u, tokenizer.UNKNOWN, m.ID))
	}
	for _, m := range g.User {
		g.Usent = append(g.Usent, entryOf(d, u, tokenizer.USER, m.ID))
	}
	return g
}

type recGraph struct {
	D    int    `json:"d"`
	In   Bytes  `json:"in"`
	Name string `json:"name"`
	Mode int    `json:"mode"`
	Err  string `json:"err"`
	Tk   []jTok `json:"tk"`
	G    jGraph `json:"g"`
}

func runGraph(e env) {
	r := rand.New(rand.NewSource(e.seed*19 + 7))
	var f struct {
		Dicts []gDict    `json:"dicts"`
		Recs  []recGraph `json:"recs"`
	}
	type job struct {
		g    *group
		d    int
		in   string
		mode int
	}
	var jobs []job
	gs := groups(e, "")
	for i := range gs {
		g := &gs[i]
		if g.shared {
			f.Dicts = append(f.Dicts, excerptGraph(g.d, g.u, g.inputs))
		}
		for _, in := range g.inputs {
			if strings.HasPrefix(g.name, "huge") && (len(in) > 1200 || len(g.d.Morphs) > 60 && (len(in) > 120 || !e.thorough())) {
				continue // too large a graph
			}
			long := g.name == "ipa long" || g.name == "text0"
			if len(in) > 6500 || (!long && (len(in) > 4000 || !g.shared && !e.thorough() && r.Intn(3) > 0)) {
				continue
			}
			if e.thorough() && r.Intn(3) > 0 {
				continue
			}
			if !g.shared {
				f.Dicts = append(f.Dicts, excerptGraph(g.d, g.u, []string{in}))
			}
			for m := 1; m <= 3; m++ {
				if e.thorough() || r.Intn(2) == 0 {
					jobs = append(jobs, job{g, len(f.Dicts), in, m})
				}
			}
		}
	}
	// dictionaries of characters that mean something in the dot language
	for i := 0; i < e.pick(30, 400); i++ {
		alpha := []rune("\"\\\nnlrGNETL{}[]<>;=,-&#")
		r.Shuffle(len(alpha), func(i, j int) { alpha[i], alpha[j] = alpha[j], alpha[i] })
		alpha = append(alpha[:3+r.Intn(5)], '"', '\\', '\n')
		s := newSynth(r, synthOpt{alphabet: alpha})
		g := &group{name: "dot", d: s.d, u: s.u}
		var ins []string
		for k := 0; k < 4; k++ {
			ins = append(ins, s.input(r, 1+r.Intn(6)))
		}
		f.Dicts = append(f.Dicts, excerptGraph(s.d, s.u, ins))
		for _, in := range ins {
			jobs = append(jobs, job{g, len(f.Dicts), in, 1 + r.Intn(3)})
		}
	}
	f.Recs = make([]recGraph, len(jobs))
	tz := map[*group]*tokenizer.Tokenizer{}
	for _, k := range r.Perm(len(jobs)) {
		j := jobs[k]
		t := tz[j.g]
		if t == nil {
			t = mustTokenizer(j.g.d, j.g.u)
			if r.Intn(3) == 0 {
				t = mustTokenizer(j.g.d, j.g.u, tokenizer.OmitBosEos())
			}
			tz[j.g] = t
		}
		rec := recGraph{D: j.d, In: Bytes(j.in), Name: j.g.name, Mode: j.mode, Tk: []jTok{}, G: jGraph{[]jGNode{}, []jGEdge{}}}
		msg := guard(fmt.Sprintf("AnalyzeGraph(%.60q) with %s", j.in, j.g.name), func() {
			var b bytes.Buffer
			var ts []tokenizer.Token
			if j.mode == 1 && r.Intn(2) == 0 {
				ts = t.Dot(&b, j.in)
			} else {
				ts = t.AnalyzeGraph(&b, j.in, tokenizer.TokenizeMode(j.mode))
			}
			rec.Tk = words(ts)
			g, err := readGraph(b.String())
			if err != nil {
				rec.Err = clean("not well formed: " + err.Error())
			}
			rec.G = g
		})
		rec.Err = msg + rec.Err
		f.Recs[k] = rec
	}
	writeJSON(e.out+"/trace.json", f)
	fmt.Printf("STATS records=%d dicts=%d\n", len(f.Recs), len(f.Dicts))
}
