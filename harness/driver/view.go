package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome-dict/uni"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() { modes["view"] = runView }

type jMeta struct {
	Start int `json:"start"`
	Hier  int `json:"hier"`
	Itype int `json:"itype"`
	Iform int `json:"iform"`
	Base  int `json:"base"`
	Read  int `json:"read"`
	Pron  int `json:"pron"`
}

func toMeta(m dict.ContentsMeta) jMeta {
	g := func(k string) int {
		if v, ok := m[k]; ok {
			return int(v)
		}
		return -1
	}
	return jMeta{g(dict.POSStartIndex), g(dict.POSHierarchy), g(dict.InflectionalType), g(dict.InflectionalForm), g(dict.BaseFormIndex), g(dict.ReadingIndex), g(dict.PronunciationIndex)}
}

type jEnt struct {
	Pos   []string `json:"pos"`
	Cont  []string `json:"cont"`
	Meta  jMeta    `json:"meta"`
	Utok  []string `json:"utok"`
	Uyomi []string `json:"uyomi"`
}

// entryOf reads a token's entry from the dictionary; everything is copied.
func entryOf(d *dict.Dict, u *dict.UserDict, class tokenizer.TokenClass, id int) jEnt {
	e := jEnt{Pos: []string{}, Cont: []string{}, Utok: []string{}, Uyomi: []string{}, Meta: toMeta(nil)}
	switch class {
	case tokenizer.KNOWN:
		for _, p := range d.POSTable.POSs[id] {
			e.Pos = append(e.Pos, strings.Clone(d.POSTable.NameList[p]))
		}
		if d.Contents != nil {
			e.Cont = append(e.Cont, d.Contents[id]...)
		}
		e.Meta = toMeta(d.ContentsMeta)
	case tokenizer.UNKNOWN:
		e.Cont = append(e.Cont, d.UnkDict.Contents[id]...)
		e.Meta = toMeta(d.UnkDict.ContentsMeta)
	case tokenizer.USER:
		c := u.Contents[id]
		e.Pos = append(e.Pos, c.Pos)
		e.Utok = append(e.Utok, c.Tokens...)
		e.Uyomi = append(e.Uyomi, c.Yomi...)
	}
	return e
}

type jOpt [2]interface{}

func opt(s string, ok bool) jOpt { return jOpt{ok, s} }

type jData struct {
	ID       int      `json:"id"`
	Start    int      `json:"start"`
	End      int      `json:"end"`
	Surface  string   `json:"surface"`
	Class    string   `json:"class"`
	Pos      []string `json:"pos"`
	Base     string   `json:"base"`
	Reading  string   `json:"reading"`
	Pron     string   `json:"pron"`
	Features []string `json:"features"`
}
type jObs struct {
	Features []string   `json:"features"`
	At       []jOpt     `json:"at"`
	Pos      []string   `json:"pos"`
	Itype    jOpt       `json:"itype"`
	Iform    jOpt       `json:"iform"`
	Base     jOpt       `json:"base"`
	Reading  jOpt       `json:"reading"`
	Pron     jOpt       `json:"pron"`
	Extra    [][]string `json:"extra"`
	Class    string     `json:"class"`
	Data     jData      `json:"data"`
}

func cp(s []string) []string { return append([]string{}, s...) }

var viewRange = []int{-2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 30, 127, 1 << 30}

// observe reads everything from a token; with scribble it then overwrites
// what it was given.
func observe(t tokenizer.Token, scribble bool) jObs {
	fs, pos, ex, data := t.Features(), t.POS(), t.UserExtra(), tokenizer.NewTokenData(t)
	o := jObs{Features: cp(fs), Pos: cp(pos), At: []jOpt{}, Extra: [][]string{}, Class: t.Class.String()}
	for _, i := range viewRange {
		o.At = append(o.At, opt(t.FeatureAt(i)))
	}
	o.Itype, o.Iform, o.Base = opt(t.InflectionalType()), opt(t.InflectionalForm()), opt(t.BaseForm())
	o.Reading, o.Pron = opt(t.Reading()), opt(t.Pronunciation())
	if ex != nil {
		o.Extra = [][]string{cp(ex.Tokens), cp(ex.Readings)}
	}
	if data.POS == nil || data.Features == nil {
		panic("token data holds a null list")
	}
	o.Data = jData{data.ID, data.Start, data.End, data.Surface, data.Class, cp(data.POS), data.BaseForm, data.Reading, data.Pronunciation, cp(data.Features)}
	if scribble {
		var all [][]string
		all = append(all, fs, pos, data.POS, data.Features)
		if ex != nil {
			all = append(all, ex.Tokens, ex.Readings)
		}
		for k, s := range all {
			for i := range s {
				s[i] = fmt.Sprintf("overwritten %d.%d", k, i)
			}
			s = append(s, "appended")
			_ = append(s[:len(s)-1:cap(s)], "appended too")
		}
		if ex != nil {
			ex.Tokens, ex.Readings = nil, nil
		}
	}
	return o
}

type jViewTok struct {
	Cl   int    `json:"cl"`
	ID   int    `json:"id"`
	St   int    `json:"st"`
	En   int    `json:"en"`
	Sf   string `json:"sf"`
	Ent  jEnt   `json:"ent"`
	Obs1 jObs   `json:"obs1"`
	Obs2 jObs   `json:"obs2"`
}
type jPair struct {
	A  int  `json:"a"`
	B  int  `json:"b"`
	Ef bool `json:"ef"`
	Ep bool `json:"ep"`
	Eq bool `json:"eq"`
}
type recView struct {
	Name  string     `json:"name"`
	Err   string     `json:"err"`
	Range []int      `json:"range"`
	Toks  []jViewTok `json:"toks"`
	Pairs []jPair    `json:"pairs"`
}

// smallEntries makes a dictionary of known, unknown and user words with all small
// numbers of parts of speech and of other features, and the text of all of them.
func smallEntries(m dict.ContentsMeta, rev bool) (*dict.Dict, *dict.UserDict, string) {
	num := func(p string, n int) []string {
		v := []string{}
		for i := 1; i <= n; i++ {
			v = append(v, fmt.Sprintf("%s%d", p, i))
		}
		if rev && n > 1 && p != "p" {
			v[0], v[n-1] = v[n-1], v[0]
		}
		return v
	}
	var ws []string
	var ps, cs [][]string
	for c := 'A'; c < 'A'+4*6; c++ {
		ws = append(ws, string(c))
		ps = append(ps, num("p", int(c-'A')%4))
		cs = append(cs, num("c", int(c-'A')/4))
	}
	d := letters(ws, ps, cs, m)
	if rev { // other numbers of the same names
		n := len(d.POSTable.NameList)
		for i := 0; i < n/2; i++ {
			d.POSTable.NameList[i], d.POSTable.NameList[n-1-i] = d.POSTable.NameList[n-1-i], d.POSTable.NameList[i]
		}
		for _, p := range d.POSTable.POSs {
			for i := range p {
				p[i] = dict.POSID(n-1) - p[i]
			}
		}
	}
	d.CharCategory = make([]byte, 128)
	in := strings.Join(ws, "")
	d.UnkDict = dict.UnkDict{Index: map[int32]int32{}, IndexDup: map[int32]int32{}, ContentsMeta: m}
	d.InvokeList, d.GroupList = nil, nil
	for k := 0; k < 9; k++ {
		d.InvokeList, d.GroupList = append(d.InvokeList, false), append(d.GroupList, k%2 == 0)
		d.UnkDict.Index[int32(k)] = int32(k)
		d.UnkDict.Morphs = append(d.UnkDict.Morphs, dict.Morph{Weight: 10000})
		d.UnkDict.Contents = append(d.UnkDict.Contents, num("u", k))
		d.CharCategory['0'+k] = byte(k)
		in += string(rune('0' + k))
	}
	var recs dict.UserDictRecords
	for k := 1; k <= 4; k++ {
		w := strings.Repeat(string(rune('い'+2*k)), k)
		x := dict.UserDicRecord{Text: w, Pos: fmt.Sprintf("pos%d", k)}
		for i := 0; i < k; i++ {
			x.Tokens = append(x.Tokens, string(rune('い'+2*k)))
			x.Yomi = append(x.Yomi, []string{"イ", "y/", ""}[(i+k)%3])
		}
		if rev {
			x.Pos = "その他"
		}
		recs = append(recs, x)
		in += w + "A"
	}
	u, err := recs.NewUserDict()
	if err != nil {
		fatalf("%v", err)
	}
	return d, u, in
}

func runView(e env) {
	r := rand.New(rand.NewSource(e.seed*7 + 1))
	var f struct {
		Recs []recView `json:"recs"`
	}
	type dicts struct {
		d *dict.Dict
		u *dict.UserDict
	}
	// all observes the tokens of several tokenizers.
	all := func(name string, in string, mode tokenizer.TokenizeMode, of ...dicts) {
		rec := recView{Name: name, Range: viewRange, Toks: []jViewTok{}, Pairs: []jPair{}}
		var ts []tokenizer.Token
		rec.Err = guard(fmt.Sprintf("token attributes of %.60q with %s", in, name), func() {
			var tz []tokenizer.Tokenizer
			for _, x := range of {
				z := mustTokenizer(x.d, x.u)
				tz = append(tz, *z)
				for _, t := range z.Analyze(in, mode) {
					if !utf8.ValidString(t.Surface) {
						continue
					}
					ts = append(ts, t)
					// dictionary entries first, before anything can be overwritten
					rec.Toks = append(rec.Toks, jViewTok{Cl: int(t.Class), ID: t.ID, St: t.Start, En: t.End, Sf: t.Surface, Ent: entryOf(x.d, x.u, t.Class, t.ID)})
				}
			}
			for i, t := range ts {
				rec.Toks[i].Obs1 = observe(t, true)
			}
			again := tz[0].Analyze(in, mode)
			if len(of) > 1 {
				again = nil
			}
			for i, t := range ts {
				rec.Toks[i].Obs2 = observe(t, false)
				for _, x := range again { // and another token of the same entry
					if x.Index == t.Index && x.ID == t.ID && x.Class == t.Class && r.Intn(2) == 0 {
						rec.Toks[i].Obs2 = observe(x, false)
					}
				}
			}
			most := 20
			if len(of) > 1 {
				most = 60
			}
			for n := 0; len(ts) > 0 && n < 2*len(ts) && n < most; n++ {
				a, b := r.Intn(len(ts)), r.Intn(len(ts))
				switch {
				case len(of) > 1: // the tokens with the same numbers
					b = (a + (1+r.Intn(len(of)-1))*(len(ts)/len(of))) % len(ts)
				case n%4 == 0:
					b = a
				}
				rec.Pairs = append(rec.Pairs, jPair{a + 1, b + 1, ts[a].EqualFeatures(ts[b]), ts[a].EqualPOS(ts[b]), ts[a].Equal(ts[b])})
			}
		})
		f.Recs = append(f.Recs, rec)
	}
	do := func(name string, d *dict.Dict, u *dict.UserDict, in string, mode tokenizer.TokenizeMode) {
		all(name, in, mode, dicts{d, u})
	}
	// all small entries under each generated designation
	if len(e.args) > 0 {
		n := 0
		seen := map[string]bool{}
		readLines(e.args[0], func(line []byte) {
			if seen[string(line)] {
				return
			}
			seen[string(line)] = true
			var des []int
			if err := json.Unmarshal(line, &des); err != nil {
				fatalf("%v", err)
			}
			m := dict.ContentsMeta{}
			for k, key := range []string{dict.POSStartIndex, dict.POSHierarchy, dict.InflectionalType, dict.InflectionalForm, dict.BaseFormIndex, dict.ReadingIndex, dict.PronunciationIndex} {
				if des[k] >= 0 {
					m[key] = int8(des[k])
				}
			}
			d, u, in := smallEntries(m, n%2 == 1)
			mode := tokenizer.TokenizeMode(1 + n%3)
			do("small", d, u, in, mode)
			d.Contents = nil
			if n%8 == 0 {
				d.ContentsMeta = nil
			}
			if n%4 == 0 {
				do("shrunk", d, u, in, mode)
			}
			n++
		})
	}
	// the same words with other features in other dictionaries
	for i := 0; i < e.pick(40, 300); i++ {
		var of []dicts
		var in string
		for k := 0; k < 2+r.Intn(2); k++ {
			m := dict.ContentsMeta{dict.POSStartIndex: int8(r.Intn(2)), dict.POSHierarchy: int8(r.Intn(3))}
			var x dicts
			x.d, x.u, in = smallEntries(m, r.Intn(2) == 0)
			of = append(of, x)
		}
		all("several", in, tokenizer.Normal, of...)
	}
	for i := 0; i < e.pick(260, 4000); i++ {
		s := newSynth(r, synthOpt{})
		for k := 0; k < 3; k++ {
			do("synth", s.d, s.u, s.input(r, 1+r.Intn(6)), tokenizer.TokenizeMode(1+r.Intn(3)))
		}
	}
	// few features and parts of speech, so that tokens are often equal
	for i := 0; i < e.pick(60, 400); i++ {
		var ws []string
		var ps, cs [][]string
		for k := 0; k < 12; k++ {
			ws = append(ws, string(rune('a'+k)))
			mk := func(n int) []string {
				v := []string{}
				for ; n > 0; n-- {
					v = append(v, []string{"x", "y", "*", ""}[r.Intn(1+r.Intn(4))])
				}
				return v
			}
			ps = append(ps, mk(r.Intn(4)))
			cs = append(cs, mk(r.Intn(4)))
		}
		m := dict.ContentsMeta{}
		for _, k := range []string{dict.InflectionalType, dict.InflectionalForm, dict.BaseFormIndex, dict.ReadingIndex, dict.PronunciationIndex} {
			if r.Intn(4) > 0 {
				m[k] = int8(r.Intn(7))
			}
		}
		d := letters(ws, ps, cs, m)
		do("letters", d, nil, randWord(r, []rune("abcdefghijkl?"), 14), tokenizer.Normal)
	}
	in := append([]string{}, sentences...)
	for i := 0; i < e.pick(10, 200); i++ {
		in = append(in, realInput(r))
	}
	for i, s := range in {
		do("ipa", ipa.Dict(), realUserDict(), s, tokenizer.TokenizeMode(1+i%3))
	}
	if e.thorough() {
		for i, s := range in {
			do("uni", uni.Dict(), realUserDict(), s, tokenizer.TokenizeMode(1+i%3))
		}
	}
	n := 0
	for _, x := range f.Recs {
		n += len(x.Toks)
	}
	writeJSON(e.out+"/trace.json", f)
	fmt.Printf("STATS records=%d tokens=%d\n", len(f.Recs), n)
}
