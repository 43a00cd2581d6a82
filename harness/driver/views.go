package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() { modes["views"] = runViews }

type jView struct {
	Kind string  `json:"kind"`
	Mode int     `json:"mode"`
	Tk   []sTok  `json:"tk"`
	Wk   []Bytes `json:"wk"`
}
type recViews struct {
	Name  string   `json:"name"`
	Err   string   `json:"err"`
	Sys   bool     `json:"sys"`
	Opts  []string `json:"opts"`
	Ok    bool     `json:"ok"`
	In    Bytes    `json:"in"`
	Base  int      `json:"base"`
	Views []jView  `json:"views"`
}

type failingWriter struct{ n int }

func (f *failingWriter) Write(p []byte) (int, error) {
	if f.n -= len(p); f.n < 0 {
		return 0, errors.New("writer is full")
	}
	return len(p), nil
}

func runViews(e env) {
	r := rand.New(rand.NewSource(e.seed*13 + 5))
	var f struct {
		Canon [][3][3][]sTok `json:"canon"`
		Recs  []recViews     `json:"recs"`
	}
	optNames := []string{"nop", "omit", "user1", "user2", "usernil", "fail"}
	var vectors [][]string
	for _, v := range enumerate([]string{"0", "1", "2", "3", "4", "5"}, e.pick(3, 4)) {
		o := []string{}
		for _, c := range v {
			o = append(o, optNames[c-'0'])
		}
		vectors = append(vectors, o)
	}
	allModes := []int{1, 2, 3, 0, 4, -1, 99, 1 << 20}
	do := func(name string, d *dict.Dict, us [2]*dict.UserDict, ins []string) {
		type base struct {
			in string
			n  int
		}
		var bases []base
		for _, in := range ins {
			var c [3][3][]sTok
			if msg := guard(fmt.Sprintf("Analyze(%.60q) with %s", in, name), func() {
				for u := range c {
					var ud *dict.UserDict
					if u > 0 {
						ud = us[u-1]
					}
					t := mustTokenizer(d, ud)
					for m := range c[u] {
						c[u][m] = snapshot(t.Analyze(in, tokenizer.TokenizeMode(m+1)))
					}
				}
			}); msg != "" {
				broken("Analyze(%.60q) with %s: %s", in, name, msg)
			}
			f.Canon = append(f.Canon, c)
			bases = append(bases, base{in, len(f.Canon)})
		}
		for k := 0; k < e.pick(12, 30); k++ {
			b := bases[r.Intn(len(bases))]
			rec := recViews{Name: name, Sys: r.Intn(15) > 0, Opts: vectors[r.Intn(len(vectors))], In: Bytes(b.in), Base: b.n, Views: []jView{}}
			if r.Intn(2) == 0 { // more that can be created
				o := []string{}
				for _, x := range rec.Opts {
					if x != "fail" && x != "usernil" {
						o = append(o, x)
					}
				}
				rec.Opts = o
			}
			rec.Err = guard(fmt.Sprintf("views %v of %.60q with %s", rec.Opts, b.in, name), func() {
				var opts []tokenizer.Option
				for _, o := range rec.Opts {
					switch o {
					case "nop":
						opts = append(opts, tokenizer.Nop())
					case "omit":
						opts = append(opts, tokenizer.OmitBosEos())
					case "user1":
						opts = append(opts, tokenizer.UserDict(us[0]))
					case "user2":
						opts = append(opts, tokenizer.UserDict(us[1]))
					case "usernil":
						opts = append(opts, tokenizer.UserDict(nil))
					case "fail":
						opts = append(opts, func(*tokenizer.Tokenizer) error { return errors.New("refused") })
					}
				}
				var sys *dict.Dict
				if rec.Sys {
					sys = d
				}
				t, err := tokenizer.New(sys, opts...)
				rec.Ok = err == nil
				if err != nil {
					if t != nil {
						panic("New returned a tokenizer and an error")
					}
					return
				}
				for n := 0; n < e.pick(8, 12); n++ {
					v := jView{Mode: allModes[r.Intn(len(allModes))], Tk: []sTok{}, Wk: []Bytes{}}
					m := tokenizer.TokenizeMode(v.Mode)
					var w io.Writer = &bytes.Buffer{}
					if r.Intn(4) == 0 {
						w = &failingWriter{r.Intn(400)}
					}
					switch r.Intn(5) {
					case 0:
						v.Kind = "analyze"
						v.Tk = snapshot(t.Analyze(b.in, m))
					case 1:
						v.Kind = "tokenize"
						v.Tk = snapshot(t.Tokenize(b.in))
					case 2:
						v.Kind = "wakati"
						for _, s := range t.Wakati(b.in) {
							v.Wk = append(v.Wk, Bytes(s))
						}
					case 3:
						v.Kind = "dot"
						v.Tk = snapshot(t.Dot(w, b.in))
					case 4:
						v.Kind = "graph"
						v.Tk = snapshot(t.AnalyzeGraph(w, b.in, m))
					}
					rec.Views = append(rec.Views, v)
				}
			})
			f.Recs = append(f.Recs, rec)
		}
	}
	for i := 0; i < e.pick(90, 1200); i++ {
		s := newSynth(r, synthOpt{user: 1, long: i%2 == 0})
		u1 := s.u
		s.addUser(r, 1+r.Intn(4), false)
		var ins []string
		for k := 0; k < 5; k++ {
			ins = append(ins, s.input(r, 1+r.Intn(6)))
		}
		ins = append(ins, "", "\xe3\x81")
		do(fmt.Sprintf("rand%d", i), s.d, [2]*dict.UserDict{u1, s.u}, ins)
	}
	u2, err := dict.UserDictRecords{{Text: "空港", Tokens: []string{"空", "港"}, Yomi: []string{"ソラ", "ミナト"}, Pos: "二"}}.NewUserDict()
	if err != nil {
		fatalf("%v", err)
	}
	for i := 0; i < e.pick(8, 80); i++ {
		ins := []string{sentences[r.Intn(len(sentences))], realInput(r), realInput(r)}
		do("ipa", ipa.Dict(), [2]*dict.UserDict{realUserDict(), u2}, ins)
	}
	// long texts
	for i := 0; i < e.pick(1, 6); i++ {
		in := ""
		for len(in) < 3000 {
			in += sentences[r.Intn(len(sentences))] + realInput(r)
		}
		do("ipa long", ipa.Dict(), [2]*dict.UserDict{realUserDict(), u2}, []string{in})
	}
	writeJSON(e.out+"/trace.json", f)
	fmt.Printf("STATS records=%d texts=%d\n", len(f.Recs), len(f.Canon))
}
