package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"strings"
	"unicode/utf8"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome-dict/uni"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() {
	modes["analyze"] = runAnalyze
	modes["tile"] = runTile
}

// jTok is a token as TLA+ sees it.
type jTok struct {
	Ix int   `json:"ix"`
	ID int   `json:"id"`
	Cl int   `json:"cl"`
	Ps int   `json:"ps"`
	St int   `json:"st"`
	En int   `json:"en"`
	Sf Bytes `json:"sf"`
}

func toTok(t tokenizer.Token) jTok {
	return jTok{Ix: t.Index, ID: t.ID, Cl: int(t.Class), Ps: t.Position, St: t.Start, En: t.End, Sf: Bytes(t.Surface)}
}

func toToks(ts []tokenizer.Token) []jTok {
	ret := make([]jTok, 0, len(ts))
	for _, t := range ts {
		ret = append(ret, toTok(t))
	}
	return ret
}

func words(ts []tokenizer.Token) []jTok {
	ret := make([]jTok, 0, len(ts))
	for _, t := range ts {
		if t.ID != tokenizer.BosEosID {
			ret = append(ret, toTok(t))
		}
	}
	return ret
}

// group is a dictionary with inputs to be analysed with it.
type group struct {
	name   string
	d      *dict.Dict
	u      *dict.UserDict
	inputs []string
	shared bool // one excerpt for all inputs
}

func mustTokenizer(d *dict.Dict, u *dict.UserDict, opts ...tokenizer.Option) *tokenizer.Tokenizer {
	if u != nil {
		opts = append(opts, tokenizer.UserDict(u))
	}
	t, err := tokenizer.New(d, opts...)
	if err != nil {
		broken("tokenizer.New: %v", err)
	}
	return t
}

// groups returns the dictionaries and inputs of a run. focus shifts the
// weight: "" all, "user" user dictionaries, "search" long words, "unknown"
// unknown words.
func groups(e env, focus string) []group {
	r := rand.New(rand.NewSource(e.seed*1000003 + int64(len(focus))))
	var ret []group
	uopt := 0
	if focus == "user" {
		uopt = 1
	}
	// (1) all short strings over small alphabets, invalid bytes included
	alphas := [][]rune{{'a', 'あ', '一'}, {'都', '𠀀', 'ア'}, {'a', '\uFFFD', '0'}}
	for i, a := range alphas {
		s := newSynth(r, synthOpt{alphabet: a, user: uopt, words: 5, long: focus == "search"})
		symbols := []string{"\xe3"}
		for _, c := range a {
			symbols = append(symbols, string(c))
		}
		ret = append(ret, group{fmt.Sprintf("enum%d", i), s.d, s.u, enumerate(symbols, e.pick(4, 6)), true})
	}
	// (2) random dictionaries, random inputs
	for i := 0; i < e.pick(60, 900); i++ {
		long := focus == "search" || r.Intn(3) == 0
		s := newSynth(r, synthOpt{user: uopt, long: long})
		g := group{name: fmt.Sprintf("rand%d", i), d: s.d, u: s.u, shared: true}
		for k := 0; k < 8; k++ {
			g.inputs = append(g.inputs, s.input(r, 1+r.Intn(7)))
		}
		ret = append(ret, g)
	}
	// (2b) few characters, tiny costs: every unit of cost decides
	for i := 0; i < e.pick(60, 600); i++ {
		var a []rune
		for n := 2 + r.Intn(2); n > 0; n-- {
			g := runeGroups[[]int{0, 2, 4, 4, 5, 1}[r.Intn(6)]]
			a = append(a, g[r.Intn(len(g))])
		}
		s := newSynth(r, synthOpt{user: uopt, alphabet: a, small: true, dense: i%2 == 0, words: 3 + r.Intn(6)})
		g := group{name: fmt.Sprintf("tight%d", i), d: s.d, u: s.u, shared: true}
		for k := 0; k < 8; k++ {
			g.inputs = append(g.inputs, randWord2(r, a, 2+r.Intn(9)), s.input(r, 1+r.Intn(4)))
		}
		ret = append(ret, g)
	}
	// (2c) long words of one script, costs around multiples of the penalties
	if focus == "search" {
		for i := 0; i < e.pick(96, 960); i++ {
			a := append([]rune{}, runeGroups[i%len(runeGroups)]...)
			r.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
			if len(a) > 3 {
				a = a[:1+r.Intn(3)]
			}
			s := newSynth(r, synthOpt{user: i%3 - 1, alphabet: a, penal: true, long: true, words: 8, group: i % 2})
			g := group{name: fmt.Sprintf("penal%d", i), d: s.d, u: s.u, shared: true}
			for k := 0; k < 4; k++ {
				g.inputs = append(g.inputs, randWord2(r, a, 2+r.Intn(14)), s.input(r, 1+r.Intn(3)))
			}
			ret = append(ret, g)
		}
	}
	// (2d) costs over the whole range: a dear word may pay off
	for i := 0; i < e.pick(60, 600); i++ {
		var a []rune
		for n := 2 + r.Intn(3); n > 0; n-- {
			g := runeGroups[r.Intn(len(runeGroups))]
			a = append(a, g[r.Intn(len(g))])
		}
		s := newSynth(r, synthOpt{user: uopt, alphabet: a, wild: true, words: 4 + r.Intn(9)})
		g := group{name: fmt.Sprintf("wild%d", i), d: s.d, u: s.u, shared: true}
		for k := 0; k < 8; k++ {
			g.inputs = append(g.inputs, randWord2(r, a, 2+r.Intn(9)), s.input(r, 1+r.Intn(4)))
		}
		ret = append(ret, g)
	}
	// (2e) very long entries, and entries with very many meanings
	for i := 0; i < e.pick(5, 40); i++ {
		var a []rune
		for n := 1 + r.Intn(3); n > 0; n-- {
			g := runeGroups[r.Intn(len(runeGroups))]
			a = append(a, g[r.Intn(len(g))])
		}
		var x, ux []string
		for k, l := range []int{20 + r.Intn(20), 60 + r.Intn(80), 257 + r.Intn(80), 1030 + r.Intn(100)} {
			if k == 3 && i%5 != 0 {
				break
			}
			w := strings.TrimSpace(without0(randWord(r, a, l)))
			if r.Intn(3) == 0 {
				ux = append(ux, w)
			} else {
				x = append(x, w)
			}
			if r.Intn(3) == 0 {
				ux = append(ux, w+string(a[0]))
			}
		}
		u := 1
		if len(ux) == 0 {
			u = uopt
		}
		s := newSynth(r, synthOpt{user: u, alphabet: a, words: 3, extra: x, uextra: ux, homo: []int{0, 70, 300}[i%3], small: i%2 == 0})
		g := group{name: fmt.Sprintf("huge%d", i), d: s.d, u: s.u}
		for _, w := range append(x, ux...) {
			_, n := utf8.DecodeLastRuneInString(w)
			g.inputs = append(g.inputs, randWord2(r, a, r.Intn(3))+w+randWord2(r, a, r.Intn(3)))
			if r.Intn(3) == 0 {
				g.inputs = append(g.inputs, w[:len(w)-n])
			}
		}
		ret = append(ret, g)
	}
	// (2f) very many kinds of unknown words
	for i := 0; i < e.pick(4, 12); i++ {
		g0 := runeGroups[[]int{0, 2, 4, 5}[r.Intn(4)]]
		a := []rune{g0[r.Intn(len(g0))], g0[r.Intn(len(g0))], '猫'}
		s := newSynth(r, synthOpt{user: uopt, alphabet: a, words: 3, manyUnk: 130 + 150*(i%2), small: i%2 == 0})
		g := group{name: fmt.Sprintf("many%d", i), d: s.d, u: s.u}
		for k := 0; k < 6; k++ {
			g.inputs = append(g.inputs, randWord2(r, a, 1+r.Intn(4)))
		}
		ret = append(ret, g)
	}
	// (3) unknown words around the length limit
	lens := []int{1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049}
	if !e.thorough() {
		k := r.Intn(3)
		lens = []int{1023 + k%2, 1025, 1026 + k*7}
		if focus == "unknown" || focus == "" {
			lens = append(lens, 1024, 2048+k)
		}
	}
	for i, n := range lens {
		c := []string{"a", "あ", "𠀀", "\xff", "一"}[(i+int(e.seed))%5]
		s := newSynth(r, synthOpt{alphabet: []rune{[]rune(c)[0], 'z'}, group: 1, words: 2, user: -1, long: true})
		for i := range s.d.CharCategory { // one category for everything but z
			s.d.CharCategory[i] = 0
		}
		if len(s.d.CharCategory) > 'z' {
			s.d.CharCategory['z'] = byte(len(s.d.InvokeList) - 1)
		}
		in := strings.Repeat(c, n)
		if i%2 == 1 {
			in = "z" + in + "zz"
		}
		ret = append(ret, group{fmt.Sprintf("long%d", n), s.d, s.u, []string{in}, false})
	}
	// (3b) long texts
	for i := 0; i < e.pick(3, 12); i++ {
		g0 := runeGroups[[]int{0, 2, 4, 5}[r.Intn(4)]]
		// a text is analysed as a whole, whatever looks like an end of a sentence
		a := []rune{g0[r.Intn(len(g0))], g0[r.Intn(len(g0))], '猫', '。', []rune("\n 、.z")[r.Intn(5)]}
		s := newSynth(r, synthOpt{user: uopt, alphabet: a, words: 6, small: i%3 == 0, wild: i%3 == 1, dense: i%3 == 2, long: focus == "search"})
		in := ""
		for n := []int{2100, 4200, 1100}[i%3]; n > 0; n-- {
			in += string(a[r.Intn(len(a))])
		}
		ret = append(ret, group{fmt.Sprintf("text%d", i), s.d, s.u, []string{in}, false})
	}
	var piece string
	for len(piece) < 300 {
		piece += realInput(r)
	}
	var u *dict.UserDict
	if focus == "user" {
		u = realUserDict()
	}
	ret = append(ret, group{"ipa long", ipa.Dict(), u, []string{strings.Repeat(piece, 12)}, false})
	// (4) real dictionaries
	var ins []string
	ins = append(ins, sentences...)
	for i := 0; i < e.pick(60, 600); i++ {
		ins = append(ins, realInput(r))
	}
	if focus != "user" {
		ret = append(ret, group{"ipa", ipa.Dict(), nil, ins, false})
	}
	if focus != "unknown" {
		ret = append(ret, group{"ipa+user", ipa.Dict(), realUserDict(), ins, false})
	}
	if e.thorough() {
		ret = append(ret, group{"uni", uni.Dict(), nil, ins, false})
	}
	return ret
}

type recAnalyze struct {
	D    int    `json:"d"`
	In   Bytes  `json:"in"`
	Err  string `json:"err"`
	Name string `json:"name"`
	W1   []jTok `json:"w1"`
	W2   []jTok `json:"w2"`
	W3   []jTok `json:"w3"`
}

type fileAnalyze struct {
	Dicts []jDict      `json:"dicts"`
	Recs  []recAnalyze `json:"recs"`
}

func runAnalyze(e env) {
	focus := ""
	if len(e.args) > 0 {
		focus = e.args[0]
	}
	r := rand.New(rand.NewSource(e.seed + 77))
	var f fileAnalyze
	type job struct {
		g  *group
		d  int
		in string
	}
	var jobs []job
	gs := groups(e, focus)
	for i := range gs {
		g := &gs[i]
		if g.shared {
			f.Dicts = append(f.Dicts, excerpt(g.d, g.u, g.inputs))
		}
		for _, in := range g.inputs {
			if !g.shared {
				f.Dicts = append(f.Dicts, excerpt(g.d, g.u, []string{in}))
			}
			jobs = append(jobs, job{g, len(f.Dicts), in})
		}
	}
	// the calls of all groups are mixed, so that recycled objects wander
	// between dictionaries and input lengths
	order := r.Perm(len(jobs))
	tz := map[*group]*tokenizer.Tokenizer{}
	f.Recs = make([]recAnalyze, len(jobs))
	for _, k := range order {
		j := jobs[k]
		t := tz[j.g]
		if t == nil {
			t = mustTokenizer(j.g.d, j.g.u)
			tz[j.g] = t
		}
		rec := recAnalyze{D: j.d, In: Bytes(j.in), Name: j.g.name, W1: []jTok{}, W2: []jTok{}, W3: []jTok{}}
		rec.Err = guard(fmt.Sprintf("Analyze(%.60q) with %s", j.in, j.g.name), func() {
			ms := r.Perm(3)
			for _, m := range ms {
				switch m {
				case 0:
					rec.W1 = words(t.Analyze(j.in, tokenizer.Normal))
				case 1:
					rec.W2 = words(t.Analyze(j.in, tokenizer.Search))
				case 2:
					rec.W3 = words(t.Analyze(j.in, tokenizer.Extended))
				}
			}
		})
		f.Recs[k] = rec
	}
	writeJSON(e.out+"/trace.json", f)
	fmt.Printf("STATS records=%d dicts=%d\n", len(f.Recs), len(f.Dicts))
}

// ---- tiling -------------------------------------------------------------------

type recTile struct {
	X    int    `json:"x"`
	Mode int    `json:"mode"`
	Name string `json:"name"`
	Err  string `json:"err"`
	Tk   []jTok `json:"tk"`
	Ot   []jTok `json:"ot"`
}

type fileTile struct {
	Texts []Bytes   `json:"texts"`
	Recs  []recTile `json:"recs"`
}

func runTile(e env) {
	r := rand.New(rand.NewSource(e.seed + 78))
	gs := groups(e, "")
	// accumulated costs beyond the largest number
	{
		s := newSynth(r, synthOpt{alphabet: []rune{'A', 'B', 'C'}, sat: true, user: -1, words: 4})
		s2 := newSynth(r, synthOpt{alphabet: []rune{'A', 'B', 'C'}, sat: true, user: 1, words: 4})
		for _, x := range []*synth{s, s2} {
			for c := range x.d.GroupList {
				x.d.GroupList[c] = false
			}
			var b strings.Builder
			for b.Len() < 40000 {
				b.WriteString(x.input(r, 1))
				b.WriteString(randWord(r, []rune("ABCD"), 4))
			}
			gs = append(gs, group{"saturated", x.d, x.u, []string{b.String()}, false})
		}
		// the user word makes the characters inside it unreachable
		d := newSynth(r, synthOpt{alphabet: []rune{'A', 'B', 'C', 'D'}, sat: true, user: -1, words: 1})
		for c := range d.d.GroupList {
			d.d.GroupList[c], d.d.InvokeList[c] = false, true
		}
		u, err := dict.UserDictRecords{{Text: "AB", Tokens: []string{"AB"}, Yomi: []string{"AB"}, Pos: "P"},
			{Text: "BCD", Tokens: []string{"AB"}, Yomi: []string{"AB"}, Pos: "P"}}.NewUserDict()
		if err != nil {
			fatalf("%v", err)
		}
		gs = append(gs, group{"saturated user", d.d, u, []string{strings.Repeat("ABCDDD", 9000)}, false})
	}
	// real texts, longer
	var long strings.Builder
	for long.Len() < e.pick(20000, 200000) {
		long.WriteString(sentences[r.Intn(len(sentences))])
	}
	gs = append(gs, group{"ipa", ipa.Dict(), nil, []string{long.String()}, false})
	// beyond 2^16 characters, 2^17 bytes, 2^16 tokens
	{
		s := newSynth(r, synthOpt{alphabet: []rune{'あ', '一', 'a'}, words: 6, group: 1})
		for c := range s.d.GroupList {
			s.d.GroupList[c] = true
		}
		var b strings.Builder
		for n := 0; n < 66500; {
			k := 900 + r.Intn(200)
			b.WriteString(strings.Repeat([]string{"か", "二", "が"}[r.Intn(3)], k))
			b.WriteString(s.input(r, 2))
			n += k
		}
		gs = append(gs, group{"long", s.d, s.u, []string{b.String()}, false})
		s2 := newSynth(r, synthOpt{alphabet: []rune{'あ', '一', 'a'}, words: 6, small: true})
		for c := range s2.d.GroupList {
			s2.d.GroupList[c] = false
		}
		b.Reset()
		for b.Len() < 90000 {
			b.WriteString(randWord(r, []rune("あxyzw"), 8))
		}
		gs = append(gs, group{"many tokens", s2.d, s2.u, []string{b.String()}, false})
	}
	// bytes
	var rnd []string
	for i := 0; i < e.pick(60, 600); i++ {
		b := make([]byte, r.Intn(30))
		for k := range b {
			b[k] = byte(r.Intn(256))
			if r.Intn(2) == 0 {
				b[k] = "\xe3\x81\x82\xf0\x9f\x8d\xa3\xef\xbf\xbd\xed\xa0a "[r.Intn(14)]
			}
		}
		rnd = append(rnd, string(b))
	}
	gs = append(gs, group{"ipa", ipa.Dict(), nil, rnd, false}, group{"ipa+user", ipa.Dict(), realUserDict(), rnd, false})

	// growing texts, one character at a time: a recycled object is always
	// just too small, or just large enough. These run first and in order.
	var starts []int
	{
		s := newSynth(r, synthOpt{alphabet: []rune{'a', 'あ', '一'}, words: 5})
		var ins []string
		for _, g := range [][2]int{{0, 70}, {1 + r.Intn(9), 40}, {90 + r.Intn(200), 12}, {0, 20}} {
			starts = append(starts, len(ins))
			for n := g[0]; n < g[0]+g[1]; n++ {
				ins = append(ins, randWord2(r, []rune("aあ一z"), n))
			}
			// and its double, give or take one
			for n := 2*(g[0]+g[1]) - 3; n < 2*(g[0]+g[1])+8; n++ {
				ins = append(ins, randWord2(r, []rune("aあ一z"), n))
			}
		}
		gs = append([]group{{"growing", s.d, s.u, ins, false}}, gs...)
	}

	var f fileTile
	type job struct {
		g    *group
		x    int
		in   string
		mode int
	}
	var jobs []job
	for i := range gs {
		g := &gs[i]
		for _, in := range g.inputs {
			f.Texts = append(f.Texts, Bytes(in))
			for m := 1; m <= 3; m++ {
				if len(in) > 10000 && m != 1+r.Intn(3) && !e.thorough() {
					continue
				}
				jobs = append(jobs, job{g, len(f.Texts), in, m})
			}
		}
	}
	f.Recs = make([]recTile, len(jobs))
	type pair struct{ a, b *tokenizer.Tokenizer }
	tz := map[*group]pair{}
	grow := map[int]bool{}
	for _, k := range starts {
		grow[k+1] = true
	}
	ordered := 0
	for ordered < len(jobs) && jobs[ordered].g.name == "growing" {
		ordered++
	}
	var order []int
	for k := 0; k < ordered; k++ {
		order = append(order, k)
	}
	for _, k := range r.Perm(len(jobs) - ordered) {
		order = append(order, ordered+k)
	}
	gc := debug.SetGCPercent(-1)
	for n, k := range order {
		j := jobs[k]
		if n == ordered {
			debug.SetGCPercent(gc)
		}
		if n < ordered && grow[j.x] && j.mode == 1 {
			runtime.GC() // empties the pools
			runtime.GC()
		}
		p, ok := tz[j.g]
		if !ok {
			p = pair{mustTokenizer(j.g.d, j.g.u), mustTokenizer(j.g.d, j.g.u, tokenizer.OmitBosEos())}
			tz[j.g] = p
		}
		rec := recTile{X: j.x, Mode: j.mode, Name: j.g.name, Tk: []jTok{}, Ot: []jTok{}}
		rec.Err = guard(fmt.Sprintf("Analyze(%.60q, %d) with %s", j.in, j.mode, j.g.name), func() {
			rec.Tk = toToks(p.a.Analyze(j.in, tokenizer.TokenizeMode(j.mode)))
			rec.Ot = toToks(p.b.Analyze(j.in, tokenizer.TokenizeMode(j.mode)))
		})
		f.Recs[k] = rec
	}
	writeJSON(e.out+"/trace.json", f)
	fmt.Printf("STATS records=%d texts=%d\n", len(f.Recs), len(f.Texts))
}

// randWord2 returns a text of exactly n characters.
func randWord2(r *rand.Rand, alphabet []rune, n int) string {
	b := make([]rune, n)
	for i := range b {
		b[i] = alphabet[r.Intn(len(alphabet))]
	}
	return string(b)
}
