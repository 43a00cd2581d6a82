package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() {
	modes["features"] = runFeatures
	modes["featreplay"] = runFeatReplay
	modes["tokfilter"] = runTokFilter
	modes["tokreplay"] = runTokReplay
	modes["ja"] = runJa
}

func readLines(path string, f func(line []byte)) {
	file, err := os.Open(path)
	if err != nil {
		fatalf("%v", err)
	}
	defer file.Close()
	s := bufio.NewScanner(file)
	s.Buffer(nil, 64<<20)
	for s.Scan() {
		f(s.Bytes())
	}
	if s.Err() != nil {
		fatalf("%v", s.Err())
	}
}

// ---- feature filters ---------------------------------------------------------

func runFeatReplay(e env) {
	names := [][]string{
		{filter.Any, "a", "b", "c"},
		{filter.Any, "名詞", "*", ""},
		{filter.Any, "", "名詞", "*"},
	}[e.seed%3]
	vec := func(x []int) []string {
		ret := make([]string, 0, len(x))
		for _, v := range x {
			ret = append(ret, names[v])
		}
		return ret
	}
	var all [][]int
	for _, s := range enumerate([]string{"0", "1", "2", "3"}, 3) {
		v := []int{}
		for _, c := range s {
			v = append(v, int(c-'0'))
		}
		all = append(all, v)
	}
	var rp replayer
	readLines(e.args[0], func(line []byte) {
		var raw [2]json.RawMessage
		var ps, want [][]int
		if err := errors.Join(json.Unmarshal(line, &raw), json.Unmarshal(raw[0], &ps), json.Unmarshal(raw[1], &want)); err != nil {
			fatalf("%v", err)
		}
		w := map[string]bool{}
		for _, v := range want {
			w[fmt.Sprint(v)] = true
		}
		var fs []filter.Features
		for _, p := range ps {
			fs = append(fs, vec(p))
		}
		got := map[string]bool{}
		what := ""
		msg := guard("features filter "+string(line), func() {
			ff, pf := filter.NewFeaturesFilter(fs...), filter.NewPOSFilter(fs...)
			for round := 0; round < 2; round++ {
				for _, v := range all {
					a, b := ff.Match(vec(v)), pf.Match(vec(v))
					if a != w[fmt.Sprint(v)] || b != w[fmt.Sprint(v)] {
						got[fmt.Sprint(v)] = a
						what = fmt.Sprintf("vector %v: FeaturesFilter %v, POSFilter %v, specified %v", v, a, b, w[fmt.Sprint(v)])
					}
				}
				_ = ff.String()
			}
		})
		if msg != "" || what != "" {
			rp.bad("C10 "+msg+what, map[string]interface{}{"patterns": ps, "names": names, "wrong": what})
			return
		}
		rp.ok(string(line))
	})
	rp.finish(e)
}

type recFeat struct {
	Ps  [][]string `json:"ps"`
	Vs  [][]string `json:"vs"`
	Got []bool     `json:"got"`
	Any string     `json:"any"`
	Err string     `json:"err"`
}

func runFeatures(e env) {
	r := rand.New(rand.NewSource(e.seed*31 + 7))
	var f struct {
		Recs []recFeat `json:"recs"`
	}
	for i := 0; i < e.pick(600, 12000); i++ {
		names := []string{"名詞", "*", "", "a", "動詞", "ab"}[:2+r.Intn(5)]
		if i%4 == 1 { // names a key made of joined features confuses
			names = []string{",", "a", "a,a", "a,", ",a", "\x00a", "\x00\x00", "-", "/", "a/a", "\t", " ", "aa"}
			r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
			names = names[:2+r.Intn(len(names)-1)]
		}
		wide := i%20 == 7 || i%20 == 17 // many values of one feature
		if wide {
			for k := 0; k < 60; k++ {
				names = append(names[:len(names):len(names)], fmt.Sprintf("f%d", k))
			}
		}
		pick := func(any int) string {
			if r.Intn(10) < any {
				return filter.Any
			}
			return names[r.Intn(len(names))]
		}
		vecOf := func(n, any int) []string {
			v := []string{}
			for k := 0; k < n; k++ {
				v = append(v, pick(any))
			}
			return v
		}
		rec := recFeat{Any: filter.Any, Ps: [][]string{}, Vs: [][]string{}, Got: []bool{}}
		any := r.Intn(8)
		many, long := r.Intn(9), 6
		if i%20 == 7 {
			many = 20 + r.Intn(120)
		} else if wide {
			many, long = 60+r.Intn(60), 3
			any = r.Intn(3)
		}
		if i%5 == 3 {
			long = 14
		}
		for n := many; n > 0; n-- {
			p := vecOf(r.Intn(long), any)
			if len(rec.Ps) > 0 && r.Intn(2) == 0 { // share a prefix with an earlier one
				q := rec.Ps[r.Intn(len(rec.Ps))]
				k := r.Intn(len(q) + 1)
				p = append(append([]string{}, q[:k]...), p...)
			}
			rec.Ps = append(rec.Ps, p)
		}
		tests := 14
		if wide {
			tests = 40
		}
		for n := 0; n < tests; n++ {
			v := vecOf(r.Intn(7), r.Intn(2))
			if len(rec.Ps) > 0 && r.Intn(4) > 0 { // near a pattern
				q := rec.Ps[r.Intn(len(rec.Ps))]
				v = append([]string{}, q...)
				for k := range v {
					if v[k] == filter.Any || r.Intn(8) == 0 {
						v[k] = pick(0)
						// what another pattern wants there
						if o := rec.Ps[r.Intn(len(rec.Ps))]; r.Intn(2) == 0 && k < len(o) && o[k] != filter.Any {
							v[k] = o[k]
						}
					}
				}
				if len(v) > 0 && r.Intn(4) == 0 {
					v = v[:len(v)-1]
				}
				v = append(v, vecOf(r.Intn(3), 0)...)
			}
			rec.Vs = append(rec.Vs, v)
		}
		rec.Err = guard(fmt.Sprintf("features filter %q", rec.Ps), func() {
			mine := [][]string{}
			for _, p := range rec.Ps {
				mine = append(mine, append([]string{}, p...))
			}
			ff := filter.NewFeaturesFilter(mine...)
			if !reflect.DeepEqual(mine, rec.Ps) {
				panic("making the filter changes the patterns")
			}
			// the patterns are the caller's again
			for _, p := range mine {
				for k := range p {
					p[k] = "a"
				}
			}
			for k := range mine {
				mine[k] = nil
			}
			rec.Got = make([]bool, len(rec.Vs))
			for _, x := range r.Perm(len(rec.Vs)) {
				v := append([]string{}, rec.Vs[x]...)
				rec.Got[x] = ff.Match(v)
				if !reflect.DeepEqual(v, rec.Vs[x]) {
					panic("matching changes the vector")
				}
			}
			// again, from several goroutines
			var wg sync.WaitGroup
			var fails [3]string
			for g := range fails {
				wg.Add(1)
				order := r.Perm(len(rec.Vs))
				go func() {
					defer wg.Done()
					fails[g] = guard("match", func() {
						for _, x := range order {
							if ff.Match(append([]string{}, rec.Vs[x]...)) != rec.Got[x] {
								panic("a later answer differs from the first")
							}
						}
					})
				}()
			}
			wg.Wait()
			if msg := strings.Join(fails[:], ""); msg != "" {
				panic(msg)
			}
		})
		f.Recs = append(f.Recs, rec)
	}
	writeJSON(e.out+"/trace.json", f)
	fmt.Printf("STATS filters=%d vectors=%d\n", len(f.Recs), 14*len(f.Recs))
}

// ---- token filters -----------------------------------------------------------

// letters makes a dictionary with one-character words, the k-th of which has
// the k-th part of speech and contents.
func letters(words []string, pos [][]string, contents [][]string, meta dict.ContentsMeta) *dict.Dict {
	idx, err := dict.BuildIndexTable(words) // sorted, distinct
	if err != nil {
		fatalf("%v", err)
	}
	d := &dict.Dict{
		Index: idx, Connection: dict.ConnectionTable{Row: 1, Col: 1, Vec: []int16{0}},
		CharCategory: make([]byte, 1), InvokeList: dict.InvokeList{false}, GroupList: dict.GroupList{false},
		ContentsMeta: meta, Contents: contents,
	}
	names := map[string]int{}
	for i := range words {
		d.Morphs = append(d.Morphs, dict.Morph{Weight: 1})
		var p dict.POS
		for _, n := range pos[i] {
			k, ok := names[n]
			if !ok {
				k = len(names)
				names[n] = k
				d.POSTable.NameList = append(d.POSTable.NameList, n)
			}
			p = append(p, dict.POSID(k))
		}
		d.POSTable.POSs = append(d.POSTable.POSs, p)
	}
	d.UnkDict = dict.UnkDict{
		Morphs: []dict.Morph{{Weight: 10000}}, Index: map[int32]int32{0: 0}, IndexDup: map[int32]int32{},
		Contents: [][]string{{"記号", "一般", "*", "*"}}, ContentsMeta: dict.ContentsMeta{dict.POSStartIndex: 0, dict.POSHierarchy: 4},
	}
	return d
}

func runTokReplay(e env) {
	w := []string{"a", "b", "c"}
	d := letters(w, [][]string{{"p1"}, {"p2"}, {"p3"}}, nil, nil)
	tz := mustTokenizer(d, nil, tokenizer.OmitBosEos())
	var rp replayer
	readLines(e.args[0], func(line []byte) {
		var raw [3]json.RawMessage
		var start []int
		var ops [][2]json.RawMessage
		var res [][]int
		if err := errors.Join(json.Unmarshal(line, &raw), json.Unmarshal(raw[0], &start), json.Unmarshal(raw[1], &ops), json.Unmarshal(raw[2], &res)); err != nil {
			fatalf("%v", err)
		}
		text := ""
		for _, k := range start {
			text += w[k-1]
		}
		orig := tz.Tokenize(text)
		if len(orig) != len(start) {
			broken("the tokenizer does not divide %q into its letters", text)
		}
		what := ""
		msg := guard("token filters "+string(line), func() {
			for kind := 0; kind < 3; kind++ {
				toks := append([]tokenizer.Token{}, orig...)
				for i, op := range ops {
					var keep bool
					var m []int
					if err := errors.Join(json.Unmarshal(op[0], &keep), json.Unmarshal(op[1], &m)); err != nil {
						fatalf("%v", err)
					}
					var words []string
					var ps []filter.POS
					for _, k := range m {
						words = append(words, w[k-1])
						ps = append(ps, filter.POS{fmt.Sprintf("p%d", k)})
					}
					switch kind {
					case 0:
						match := func(t tokenizer.Token) bool {
							for _, x := range words {
								if x == t.Surface {
									return true
								}
							}
							return false
						}
						if keep {
							filter.Keep(&toks, match)
						} else {
							filter.Drop(&toks, match)
						}
					case 1:
						wf := filter.NewWordFilter(words)
						if keep {
							wf.Keep(&toks)
						} else {
							wf.Drop(&toks)
						}
					case 2:
						pf := filter.NewPOSFilter(ps...)
						if keep {
							pf.Keep(&toks)
						} else {
							pf.Drop(&toks)
						}
					}
					ok := len(toks) == len(res[i])
					for k := 0; ok && k < len(toks); k++ {
						ok = toks[k] == orig[res[i][k]-1]
					}
					if !ok {
						what = fmt.Sprintf("filter kind %d: operation %d leaves %v", kind, i+1, toks)
						return
					}
				}
			}
		})
		if msg != "" || what != "" {
			rp.bad("C11 "+clean(msg+what), map[string]interface{}{"behaviour": string(line), "wrong": what})
			return
		}
		rp.ok(string(line))
	})
	rp.finish(e)
}

type jTokOp struct {
	Kind  string     `json:"kind"`
	Keep  bool       `json:"keep"`
	Ids   []int      `json:"ids"`
	Words []Bytes    `json:"words"`
	Ps    [][]string `json:"ps"`
	Res   []int      `json:"res"`
	Asked []int      `json:"asked"`
}
type jTokEntry struct {
	Sf  Bytes    `json:"sf"`
	Pos []string `json:"pos"`
}
type recTokFilter struct {
	Tt    []jTokEntry `json:"tt"`
	Start []int       `json:"start"`
	Ops   []jTokOp    `json:"ops"`
	Err   string      `json:"err"`
}

func nonNil(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func runTokFilter(e env) {
	r := rand.New(rand.NewSource(e.seed*131 + 17))
	var f struct {
		Any  string         `json:"any"`
		Recs []recTokFilter `json:"recs"`
	}
	f.Any = filter.Any
	ipaTok := mustTokenizer(ipa.Dict(), realUserDict())
	type madeFilter struct {
		op jTokOp
		wf *filter.WordFilter
		pf *filter.POSFilter
	}
	var olds []madeFilter
	// the same filter on the same tokens from several goroutines
	crowd := func(ts []tokenizer.Token, apply func(ts *[]tokenizer.Token)) {
		var res [3][]tokenizer.Token
		var wg sync.WaitGroup
		var fails [3]string
		for g := range res {
			wg.Add(1)
			go func() {
				defer wg.Done()
				fails[g] = guard("filter", func() {
					res[g] = append([]tokenizer.Token{}, ts...)
					apply(&res[g])
				})
			}()
		}
		wg.Wait()
		if msg := strings.Join(fails[:], ""); msg != "" {
			panic(msg)
		}
		for g := range res {
			if !reflect.DeepEqual(res[g], res[0]) {
				panic("concurrent uses of one filter disagree")
			}
		}
	}
	for i := 0; i < e.pick(900, 12000); i++ {
		var ts []tokenizer.Token
		mode := tokenizer.TokenizeMode(1 + r.Intn(3))
		switch r.Intn(3) {
		case 0:
			ts = ipaTok.Analyze(sentences[r.Intn(len(sentences))], mode)
		case 1:
			in := randWord(r, []rune("abcdefghijklmnopqrstuvwxyz?"), r.Intn(20))
			var two [2][]tokenizer.Token
			for x := range two {
				var ws []string
				var ps [][]string
				for k := 0; k < 26; k++ {
					ws = append(ws, string(rune('a'+k)))
					p := []string{}
					for n := r.Intn(4); n >= 0; n-- {
						p = append(p, []string{"名詞", "*", "動詞", "x"}[r.Intn(4)])
					}
					ps = append(ps, p)
				}
				tz := mustTokenizer(letters(ws, ps, nil, nil), nil, tokenizer.OmitBosEos())
				two[x] = tz.Analyze(in, mode)
			}
			ts = two[0]
			if r.Intn(2) == 0 { // the tokens of two dictionaries, alike but for the parts of speech
				ts = nil
				for k := range two[0] {
					ts = append(ts, two[0][k])
					if k < len(two[1]) {
						ts = append(ts, two[1][k])
					}
				}
			}
		default:
			s := newSynth(r, synthOpt{})
			ts = mustTokenizer(s.d, s.u).Analyze(s.input(r, 1+r.Intn(6)), mode)
		}
		rec := recTokFilter{Start: []int{}, Tt: []jTokEntry{}, Ops: []jTokOp{}}
		ids := map[tokenizer.Token]int{}
		// tokens a caller put together: repeated, out of order, without text
		for n := r.Intn(4); n > 0 && len(ts) > 0; n-- {
			t := ts[r.Intn(len(ts))]
			switch r.Intn(3) {
			case 0:
				t.Surface = ""
			case 1:
				t = tokenizer.Token{}
			}
			k := r.Intn(len(ts))
			ts = append(ts[:k:k], append([]tokenizer.Token{t}, ts[k:]...)...)
		}
		for _, t := range ts {
			if ids[t] == 0 {
				rec.Tt = append(rec.Tt, jTokEntry{Bytes(t.Surface), nonNil(t.POS())})
				ids[t] = len(rec.Tt)
			}
			rec.Start = append(rec.Start, ids[t])
		}
		num := func(ts []tokenizer.Token) []int {
			ret := []int{}
			for _, t := range ts {
				ret = append(ret, ids[t]) // 0: not one of the tokens
			}
			return ret
		}
		work := append([]tokenizer.Token{}, ts...)
		rec.Err = guard(fmt.Sprintf("token filters on %v", ts), func() {
			for n := 1 + r.Intn(3); n > 0; n-- {
				op := jTokOp{Keep: r.Intn(2) == 0, Ids: []int{}, Words: []Bytes{}, Ps: [][]string{}, Res: []int{}, Asked: []int{}}
				density := r.Intn(5)
				switch r.Intn(3) {
				case 0:
					op.Kind = "fn"
					in := map[int]bool{}
					for _, t := range ts {
						if r.Intn(4) < density {
							op.Ids = append(op.Ids, ids[t])
							in[ids[t]] = true
						}
					}
					match := func(t tokenizer.Token) bool {
						op.Asked = append(op.Asked, ids[t])
						return in[ids[t]]
					}
					if op.Keep {
						filter.Keep(&work, match)
					} else {
						filter.Drop(&work, match)
					}
				case 1:
					op.Kind = "word"
					var wf *filter.WordFilter
					var l []string
					if n := len(olds); n > 0 && olds[n-1].wf != nil && r.Intn(2) == 0 {
						// a filter that was used before, on other tokens
						wf, op.Words = olds[n-1].wf, olds[n-1].op.Words
						for _, x := range op.Words {
							l = append(l, string(x))
						}
					} else {
						for _, t := range ts {
							if r.Intn(4) < density {
								l = append(l, t.Surface)
							}
						}
						if r.Intn(3) == 0 {
							l = append(l, "", "zzz")
						}
						for _, x := range l {
							op.Words = append(op.Words, Bytes(x))
						}
						mine := append([]string{}, l...)
						wf = filter.NewWordFilter(mine)
						for k := range mine { // the list is the caller's again
							mine[k] = "a"
						}
					}
					if got, want := wf.Match(""), hasEmpty(l); got != want {
						panic("WordFilter.Match is wrong for the empty word")
					}
					for k, t := range ts {
						want := false
						for _, x := range l {
							want = want || x == t.Surface
						}
						if wf.Match(t.Surface) != want {
							panic(fmt.Sprintf("WordFilter.Match is wrong for token %d", k))
						}
					}
					apply := wf.Drop
					if op.Keep {
						apply = wf.Keep
					}
					if r.Intn(4) == 0 {
						crowd(work, apply)
					}
					apply(&work)
					olds = append(olds, madeFilter{op: op, wf: wf})
				case 2:
					op.Kind = "pos"
					var pf *filter.POSFilter
					if n := len(olds); n > 0 && olds[n-1].pf != nil && r.Intn(2) == 0 {
						pf, op.Ps = olds[n-1].pf, olds[n-1].op.Ps
					} else {
						mine := []filter.POS{}
						for _, t := range ts {
							if p := t.POS(); r.Intn(8) < density && len(p) > 0 {
								p = p[:1+r.Intn(len(p))]
								if r.Intn(3) == 0 {
									p[r.Intn(len(p))] = filter.Any
								}
								op.Ps = append(op.Ps, p)
								mine = append(mine, append([]string{}, p...))
							}
						}
						pf = filter.NewPOSFilter(mine...)
						for _, p := range mine { // the patterns are the caller's again
							for k := range p {
								p[k] = "名詞"
							}
						}
					}
					apply := pf.Drop
					if op.Keep {
						apply = pf.Keep
					}
					if r.Intn(4) == 0 {
						crowd(work, apply)
					}
					apply(&work)
					olds = append(olds, madeFilter{op: op, pf: pf})
				}
				op.Res = num(work)
				rec.Ops = append(rec.Ops, op)
			}
			// nothing to filter
			filter.Keep(nil, func(tokenizer.Token) bool { return true })
			filter.Drop(nil, func(tokenizer.Token) bool { return true })
			filter.NewWordFilter(nil).Keep(nil)
			filter.NewWordFilter([]string{"a"}).Drop(nil)
			filter.NewPOSFilter().Keep(nil)
			filter.NewPOSFilter().Drop(nil)
			var none []tokenizer.Token
			filter.NewPOSFilter(filter.POS{"a"}).Keep(&none)
			filter.NewWordFilter(nil).Drop(&none)
			filter.Keep(&none, func(tokenizer.Token) bool { return true })
			if len(none) != 0 {
				panic("filters make tokens out of nothing")
			}
		})
		f.Recs = append(f.Recs, rec)
	}
	writeJSON(e.out+"/trace.json", f)
	fmt.Printf("STATS sequences=%d\n", len(f.Recs))
}

// ---- the Japanese filter -------------------------------------------------------

type jJaTok struct {
	Sf   string   `json:"sf"`
	Pos  []string `json:"pos"`
	Hasb bool     `json:"hasb"`
	Base string   `json:"base"`
}
type recJa struct {
	Dtags  bool       `json:"dtags"`
	Dwords bool       `json:"dwords"`
	Dbase  bool       `json:"dbase"`
	Tags   [][]string `json:"tags"`
	Words  []string   `json:"words"`
	Base   [][]string `json:"base"`
	Toks   []jJaTok   `json:"toks"`
	Yield  []string   `json:"yield"`
	Drop   []int      `json:"drop"`
	Err    string     `json:"err"`
}

func runJa(e env) {
	r := rand.New(rand.NewSource(e.seed*1331 + 3))
	var defaults struct {
		Tags  [][]string `json:"tags"`
		Words []string   `json:"words"`
		Base  [][]string `json:"base"`
	}
	b, err := os.ReadFile(e.args[0])
	if err != nil {
		fatalf("%v", err)
	}
	if err := json.Unmarshal(b, &defaults); err != nil {
		fatalf("%v", err)
	}
	var f struct {
		Any  string  `json:"any"`
		Recs []recJa `json:"recs"`
	}
	f.Any = filter.Any
	usual, err := ja.NewFilter()
	if err != nil {
		broken("default filter: %v", err)
	}
	do := func(ts []tokenizer.Token, rec recJa, opts ...ja.FilterOption) {
		for _, t := range ts {
			if !utf8.ValidString(t.Surface) {
				return
			}
		}
		if rec.Tags == nil {
			rec.Tags = [][]string{}
		}
		if rec.Base == nil {
			rec.Base = [][]string{}
		}
		rec.Words = nonNil(rec.Words)
		rec.Toks, rec.Yield, rec.Drop = []jJaTok{}, []string{}, []int{}
		ids := map[tokenizer.Token]int{}
		for i, t := range ts {
			base, ok := t.BaseForm()
			rec.Toks = append(rec.Toks, jJaTok{t.Surface, nonNil(t.POS()), ok, base})
			ids[t] = i + 1
		}
		rec.Err = guard(fmt.Sprintf("ja filter on %v", ts), func() {
			r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
			all := opts
			if r.Intn(3) == 0 { // an option given again replaces the list
				if !rec.Dtags {
					all = append([]ja.FilterOption{ja.StopTagsFilterOption([]filter.POS{{filter.Any}})}, all...)
				}
				if !rec.Dbase {
					all = append([]ja.FilterOption{ja.BaseFormFilterOption([]filter.POS{{filter.Any}})}, all...)
				}
				if !rec.Dwords && len(ts) > 0 {
					all = append([]ja.FilterOption{ja.StopWordsFilterOption([]string{ts[0].Surface, "", ts[len(ts)-1].Surface})}, all...)
				}
			}
			jf, err := ja.NewFilter(all...)
			if err != nil {
				panic(err)
			}
			var second *ja.Filter // made from the same option values
			if second, err = ja.NewFilter(opts...); err != nil {
				panic(err)
			}
			if r.Intn(2) == 0 { // other filters have nothing to do with it
				if _, err := ja.NewFilter(ja.StopTagsFilterOption([]filter.POS{{filter.Any}}), ja.StopWordsFilterOption([]string{"a", "の"}), ja.BaseFormFilterOption(nil)); err != nil {
					panic(err)
				}
			}
			kept := append([]tokenizer.Token{}, ts...)
			rec.Yield = nonNil(jf.Yield(ts))
			for i := range ts {
				if ts[i] != kept[i] {
					panic("Yield changes the tokens")
				}
			}
			work := append([]tokenizer.Token{}, ts...)
			jf.Drop(&work)
			for _, t := range work {
				rec.Drop = append(rec.Drop, ids[t])
			}
			if len(opts) == 0 { // the same default filter used throughout
				second = usual
			}
			var wg sync.WaitGroup
			var fails [3]string
			for g, x := range []*ja.Filter{jf, second, jf} {
				wg.Add(1)
				go func() {
					defer wg.Done()
					fails[g] = guard("ja filter", func() {
						again := nonNil(x.Yield(append([]tokenizer.Token{}, ts...)))
						if !reflect.DeepEqual(again, rec.Yield) {
							panic("another Yield differs")
						}
						if len(again) > 0 {
							again[0] = "scribbled"
						}
						w := append([]tokenizer.Token{}, ts...)
						x.Drop(&w)
						if !(len(w) == 0 && len(work) == 0) && !reflect.DeepEqual(w, work) {
							panic("another Drop differs")
						}
					})
				}()
			}
			wg.Wait()
			if msg := strings.Join(fails[:], ""); msg != "" {
				panic(msg)
			}
		})
		f.Recs = append(f.Recs, rec)
	}
	def := recJa{Dtags: true, Dwords: true, Dbase: true}
	// every default word, part of speech and near misses, as dictionary words
	// word k has part of speech k
	var poss [][]string
	pool := append(append([][]string{}, defaults.Tags...), defaults.Base...)
	for _, t := range pool {
		poss = append(poss, t)
		full := append(append([]string{}, t...), "*", "*", "*", "*")[:4]
		poss = append(poss, full)
		for k := 1; k < 4; k++ {
			x := append([]string{}, full...)
			x[k] = "他"
			poss = append(poss, x)
			if x2 := append([]string{}, full...); x2[k] != "*" {
				x2[k] = "*"
				poss = append(poss, x2)
			}
			poss = append(poss, full[:k])
		}
		poss = append(poss, append(append([]string{}, full...), "更に"), []string{t[0] + "他", "*", "*", "*"}, []string{"名詞", t[0], "*", "*"})
	}
	poss = append(poss, []string{}, []string{"*", "*", "*", "*"}, []string{"名詞", "一般", "*", "*"}, []string{"名詞", "固有名詞", "人名", "姓"},
		[]string{"副詞", "一般", "*", "*"}, []string{"連体詞", "*", "*", "*"}, []string{"動詞", "自立", "*", "*"}, []string{"形容詞", "自立", "*", "*"}, []string{"名詞", "形容動詞語幹", "*", "*"})
	surfaces := map[string]bool{}
	for _, w := range defaults.Words {
		surfaces[w] = true
		surfaces[w+"ん"] = true
		surfaces["ん"+w] = true
		rs := []rune(w)
		surfaces[string(rs[:len(rs)-1])] = true
		surfaces[w+" "] = true
		surfaces[strings.ToUpper(w)+"x"] = true
	}
	surfaces["#"] = true
	surfaces["##### End of file"] = true
	delete(surfaces, "")
	var ws []string
	for w := range surfaces {
		ws = append(ws, w)
	}
	sortStrings(ws)
	// chunks: surfaces with parts of speech, all words of a text separated by an unknown character
	for round := 0; round < e.pick(2, 8); round++ {
		r.Shuffle(len(poss), func(i, j int) { poss[i], poss[j] = poss[j], poss[i] })
		perm := make([][]string, len(ws))
		cont := make([][]string, len(ws))
		for i := range ws {
			perm[i] = poss[(i*3+round)%len(poss)]
			if round%2 == 1 && r.Intn(2) == 0 {
				perm[i] = []string{"名詞", "一般", "*", "*"}
			}
			for len(perm[i])+len(cont[i]) < 5+r.Intn(3) {
				base := fmt.Sprintf("base%d", i)
				switch r.Intn(8) { // contents that mean something elsewhere
				case 0:
					base = "*"
				case 1:
					base = ""
				case 2:
					base = ws[i]
				case 3:
					base = ws[r.Intn(len(ws))]
				case 4:
					base = []string{"\uffff", "BOS", "EOS", "名詞", " ", "base,b"}[r.Intn(6)]
				}
				cont[i] = append(cont[i], base)
			}
		}
		d := letters(ws, perm, cont, dict.ContentsMeta{dict.BaseFormIndex: 6})
		tz := mustTokenizer(d, nil, tokenizer.OmitBosEos())
		for i := range ws {
			ts := tz.Tokenize(ws[i])
			if i%7 == 0 {
				ts = tz.Tokenize(ws[i] + ws[(i+1)%len(ws)] + ws[(i*5)%len(ws)])
			}
			do(ts, def)
		}
	}
	for i, p := range poss { // every part of speech, on words that are no stop words
		w := fmt.Sprintf("語%d", i)
		d := letters([]string{w}, [][]string{p}, [][]string{{"x", "y", "*", "", "基"}}, dict.ContentsMeta{dict.BaseFormIndex: int8(4 + i%5)})
		do(mustTokenizer(d, nil).Tokenize(w+w), def)
	}
	// real texts, options
	tz := mustTokenizer(ipa.Dict(), realUserDict())
	opts := func(ts []tokenizer.Token) (recJa, []ja.FilterOption) {
		rec := recJa{Dtags: r.Intn(2) == 0, Dwords: r.Intn(2) == 0, Dbase: r.Intn(2) == 0}
		var o []ja.FilterOption
		some := func() [][]string {
			ret := [][]string{}
			for _, t := range ts {
				if p := t.POS(); len(p) > 0 && r.Intn(5) == 0 {
					p = p[:1+r.Intn(len(p))]
					if r.Intn(4) == 0 {
						p[r.Intn(len(p))] = filter.Any
					}
					ret = append(ret, p)
				}
			}
			return ret
		}
		if !rec.Dtags {
			rec.Tags = some()
			o = append(o, ja.StopTagsFilterOption(orNil(rec.Tags)))
		}
		if !rec.Dbase {
			rec.Base = some()
			o = append(o, ja.BaseFormFilterOption(orNil(rec.Base)))
		}
		if !rec.Dwords {
			for _, t := range ts {
				if r.Intn(4) == 0 {
					rec.Words = append(rec.Words, t.Surface)
				}
				if b, ok := t.BaseForm(); ok && r.Intn(6) == 0 {
					rec.Words = append(rec.Words, b)
				}
			}
			o = append(o, ja.StopWordsFilterOption(rec.Words))
		}
		return rec, o
	}
	for i := 0; i < e.pick(300, 4000); i++ {
		s := sentences[r.Intn(len(sentences))]
		if i >= len(sentences) {
			s = realInput(r)
		}
		ts := tz.Analyze(s, tokenizer.TokenizeMode(1+r.Intn(3)))
		if r.Intn(2) == 0 && len(ts) > 2 {
			ts = ts[1 : len(ts)-1]
		}
		if r.Intn(3) == 0 {
			do(ts, def)
			continue
		}
		rec, o := opts(ts)
		do(ts, rec, o...)
	}
	do(nil, def)
	for i := 0; i < e.pick(300, 4000); i++ {
		s := newSynth(r, synthOpt{})
		in := s.input(r, 1+r.Intn(6))
		ts := mustTokenizer(s.d, s.u).Analyze(in, tokenizer.TokenizeMode(1+r.Intn(3)))
		if i%2 == 0 { // what another dictionary says of the same text
			o := newSynth(r, synthOpt{alphabet: s.alphabet})
			ts = append(ts, mustTokenizer(o.d, o.u).Analyze(in, tokenizer.TokenizeMode(1+r.Intn(3)))...)
			r.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
		}
		rec, o := opts(ts)
		do(ts, rec, o...)
	}
	writeJSON(e.out+"/trace.json", f)
	fmt.Printf("STATS sequences=%d surfaces=%d pos=%d\n", len(f.Recs), len(ws), len(poss))
}

func orNil(x [][]string) []filter.POS {
	if len(x) == 0 {
		return nil
	}
	return x
}

func hasEmpty(l []string) bool {
	for _, x := range l {
		if x == "" {
			return true
		}
	}
	return false
}
