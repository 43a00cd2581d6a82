package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/ikawaha/kagome-dict/dict"
)

// ---- dictionaries as TLA+ sees them ----------------------------------------

type jEntry struct {
	S Bytes `json:"s"`
	M []int `json:"m"`
}
type jUser struct {
	S  Bytes `json:"s"`
	ID int   `json:"id"`
}
type jMorph struct {
	ID int `json:"id"`
	L  int `json:"l"`
	R  int `json:"r"`
	W  int `json:"w"`
}

// jDict is the dictionary record of Analyzer.tla.
type jDict struct {
	Known  []jEntry `json:"known"`
	KMorph []jMorph `json:"kmorph"`
	HasU   bool     `json:"hasu"`
	User   []jUser  `json:"user"`
	Cats   [][2]int `json:"cats"`
	DefCat int      `json:"defcat"`
	Invoke []bool   `json:"invoke"`
	Group  []bool   `json:"group"`
	Unk    [][]int  `json:"unk"`
	UMorph []jMorph `json:"umorph"`
	Conn   [][]int  `json:"conn"`
}

// excerpt writes down the part of a dictionary that concerns the inputs: all
// entries that occur in them, all unknown-word entries, the categories of
// their characters and the connection costs between all of these. It uses the
// dictionary library only.
func excerpt(d *dict.Dict, u *dict.UserDict, inputs []string) jDict {
	ret := jDict{
		Known: []jEntry{}, KMorph: []jMorph{}, User: []jUser{}, Cats: [][2]int{},
		HasU: u != nil,
	}
	// contexts, renumbered; 0 stays 0 (BOS/EOS and user words)
	lefts, rights := map[int]int{0: 0}, map[int]int{0: 0}
	lkeys, rkeys := []int{0}, []int{0}
	ctx := func(m map[int]int, keys *[]int, v int) int {
		if k, ok := m[v]; ok {
			return k
		}
		k := len(m)
		m[v] = k
		*keys = append(*keys, v)
		return k
	}
	morph := func(id int, m dict.Morph) jMorph {
		return jMorph{ID: id, L: ctx(lefts, &lkeys, int(m.LeftID)), R: ctx(rights, &rkeys, int(m.RightID)), W: int(m.Weight)}
	}
	runes := map[rune]bool{utf8.RuneError: true}
	known := map[string][]int{}
	user := map[string]int{}
	for _, in := range inputs {
		for pos, r := range in {
			runes[r] = true
			lens, ids := d.Index.CommonPrefixSearch(in[pos:])
			for i := range lens {
				known[in[pos:pos+lens[i]]] = ids[i]
			}
			if u == nil {
				continue
			}
			lens, ids = u.Index.CommonPrefixSearch(in[pos:])
			for i := range lens {
				if len(ids[i]) != 1 {
					fatalf("duplicate user entry")
				}
				user[in[pos:pos+lens[i]]] = ids[i][0]
			}
		}
	}
	for _, s := range sortedKeys(known) {
		e := jEntry{S: Bytes(s)}
		for _, id := range known[s] {
			ret.KMorph = append(ret.KMorph, morph(id, d.Morphs[id]))
			e.M = append(e.M, len(ret.KMorph))
		}
		ret.Known = append(ret.Known, e)
	}
	us := make([]string, 0, len(user))
	for s := range user {
		us = append(us, s)
	}
	sort.Strings(us)
	for _, s := range us {
		ret.User = append(ret.User, jUser{S: Bytes(s), ID: user[s]})
	}
	for id, m := range d.UnkDict.Morphs {
		ret.UMorph = append(ret.UMorph, morph(id, m))
	}
	for c := range d.InvokeList {
		ret.Invoke = append(ret.Invoke, d.InvokeList[c])
		ret.Group = append(ret.Group, d.GroupList[c])
		first := int(d.UnkDict.Index[int32(c)])
		l := []int{}
		for x := 0; x <= int(d.UnkDict.IndexDup[int32(c)]); x++ {
			l = append(l, first+x+1)
		}
		ret.Unk = append(ret.Unk, l)
	}
	rs := make([]int, 0, len(runes))
	for r := range runes {
		rs = append(rs, int(r))
	}
	sort.Ints(rs)
	for _, r := range rs {
		ret.Cats = append(ret.Cats, [2]int{r, int(d.CharacterCategory(rune(r)))})
	}
	ret.DefCat = int(d.CharacterCategory(0x10ffff))
	for _, r := range rkeys {
		row := make([]int, 0, len(lkeys))
		for _, l := range lkeys {
			row = append(row, int(d.Connection.At(r, l)))
		}
		ret.Conn = append(ret.Conn, row)
	}
	return ret
}

func sortStrings(s []string) { sort.Strings(s) }

func sortedKeys(m map[string][]int) []string {
	ret := make([]string, 0, len(m))
	for k := range m {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return ret
}

// ---- synthetic dictionaries -------------------------------------------------

// synth is a generated dictionary with what is needed to make inputs for it.
type synth struct {
	name     string
	d        *dict.Dict
	u        *dict.UserDict
	alphabet []rune
	words    []string // system entries
	uwords   []string // user entries
}

var runeGroups = [][]rune{
	{'a', 'b', 'c', 'x', 'z'},
	{'0', '1', '9'},
	{'あ', 'い', 'ん', 'ー', 'ゝ'},
	{'ア', 'ン', 'ヴ', 'ｱ'},
	{'一', '龥', '鿿', '東', '京', '都', '猫', '人'},
	{'㐀', '䶿', '𠀀', '𪛟', '豈', '舘', '〇', '〆', '〡', '〸'},
	{'々', '䷀', '⼀', '〻', 'ꀀ', '〥'},
	{utf8.RuneError},
	{'🍣', '😀', '\U0010ffff', '𝄞'},
	{' ', '　', '\n', '\t', '\u00a0', '\u0085'},
	{'"', '\\', '|', '<', '>', '{', '}'},
	{0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xffff},
}

var badBytes = []string{"\xff", "\x80", "\xc0\xaf", "\xe3", "\xe3\x81", "\xed\xa0\x80", "\xf0\x9f\x8d", "\xf4\x90\x80\x80", "\xc2", "\xfe", "\xe0\x80\x80", "\xf8\x88\x80\x80\x80"}

func randWord(r *rand.Rand, alpha []rune, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(alpha[r.Intn(len(alpha))])
	}
	return b.String()
}

func without0(s string) string { return strings.ReplaceAll(s, "\x00", "") }

type synthOpt struct {
	alphabet []rune // nil: random
	user     int    // -1 none, 0 maybe, 1 yes
	long     bool   // long words around the thresholds of the search mode
	sat      bool   // extreme costs
	words    int    // number of entries, 0: random
	group    int    // 1: all categories group
	nopos    bool
	small    bool     // tiny costs, so that every unit decides
	penal    bool     // costs around multiples of the search penalties
	dense    bool     // many short user words
	wild     bool     // costs and contexts over the whole range
	extra    []string // further entries
	uextra   []string // further user entries
	homo     int      // one entry has so many meanings
	manyUnk  int      // and one category so many unknown words
}

// newSynth makes a random dictionary.
func newSynth(r *rand.Rand, o synthOpt) *synth {
	s := &synth{alphabet: o.alphabet}
	if s.alphabet == nil {
		ng := 1 + r.Intn(4)
		for i := 0; i < ng; i++ {
			g := runeGroups[r.Intn(len(runeGroups))]
			if o.long && r.Intn(3) > 0 {
				g = runeGroups[4+r.Intn(3)]
			}
			for k := 0; k < 1+r.Intn(3); k++ {
				s.alphabet = append(s.alphabet, g[r.Intn(len(g))])
			}
		}
	}
	// entries
	n := o.words
	if n == 0 {
		n = 1 + r.Intn(14)
	}
	set := map[string]bool{}
	for i := 0; i < n; i++ {
		l := 1 + r.Intn(4)
		if o.long {
			l = []int{1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 7, 8, 8, 9, 10, 12}[r.Intn(16)]
		}
		w := without0(randWord(r, s.alphabet, l))
		if w != "" {
			set[w] = true
		}
	}
	for _, w := range o.extra {
		set[w] = true
	}
	if len(set) == 0 {
		set["zz"] = true
	}
	if r.Intn(8) == 0 && o.alphabet == nil {
		set[[]string{"BOS", "EOS"}[r.Intn(2)]] = true
	}
	var keys []string
	for w := range set {
		s.words = append(s.words, w)
	}
	sort.Strings(s.words)
	for _, w := range s.words {
		for k := 0; k < 1+r.Intn(3)*r.Intn(2); k++ {
			keys = append(keys, w)
		}
		if o.homo > 0 && len(keys) < o.homo && (r.Intn(2) == 0 || w == s.words[len(s.words)-1]) {
			for len(keys) < o.homo {
				keys = append(keys, w)
			}
		}
	}
	idx, err := dict.BuildIndexTable(keys)
	if err != nil {
		fatalf("index: %v", err)
	}
	// costs
	nl, nr := 1+r.Intn(5), 1+r.Intn(5)
	type rng struct{ lo, hi int }
	wr := []rng{{0, 3}, {-3, 3}, {-3000, 6000}, {0, 12000}, {-1, 0}, {100, 100}}[r.Intn(6)]
	cr := []rng{{0, 3}, {-3, 3}, {-4000, 4000}, {0, 0}, {-2000, 0}, {0, 20000}}[r.Intn(6)]
	if o.long && r.Intn(2) == 0 {
		wr, cr = rng{0, 9000}, rng{-1500, 1500}
	}
	if o.sat {
		wr, cr = rng{32000, 32767}, rng{32000, 32767}
	}
	if o.small {
		wr = []rng{{-1, 1}, {0, 2}, {0, 1}, {1, 1}, {-2, 0}}[r.Intn(5)]
		cr = []rng{{-1, 1}, {0, 2}, {0, 0}, {0, 1}, {-1, 0}}[r.Intn(5)]
	}
	if o.wild {
		cr = rng{-32768, 32767}
		wr = []rng{{-32768, 32767}, {-3, 3}, {0, 32767}, {30000, 32767}, {-32768, -30000}}[r.Intn(5)]
		if r.Intn(3) == 0 {
			wr, cr = rng{-20000, 20000}, rng{-20000, 20000}
		}
	}
	val := func(x rng) int16 { return int16(x.lo + r.Intn(x.hi-x.lo+1)) }
	if o.penal {
		cr = rng{0, r.Intn(2)}
		val = func(x rng) int16 {
			if x == cr {
				return int16(r.Intn(x.hi + 1))
			}
			return int16([]int{0, 1700, 3000, 3400, 5100, 6000, 6800, 9000, 12000, 1500, 850}[r.Intn(11)] + r.Intn(3) - 1)
		}
	}
	mor := func() dict.Morph {
		return dict.Morph{LeftID: int16(r.Intn(nl)), RightID: int16(r.Intn(nr)), Weight: val(wr)}
	}
	d := &dict.Dict{Index: idx}
	for range keys {
		d.Morphs = append(d.Morphs, mor())
	}
	d.Connection = dict.ConnectionTable{Row: int64(nr), Col: int64(nl), Vec: make([]int16, nl*nr)}
	for i := range d.Connection.Vec {
		d.Connection.Vec[i] = val(cr)
	}
	// parts of speech and contents
	names := []string{"*", "名詞", "動詞", "a\"b", "形容詞", "x\\y", "自立", "", "a,b"}
	d.POSTable.NameList = names
	full := r.Intn(4) > 0
	for i, k := range keys {
		var p dict.POS
		for j := 0; j < 1+r.Intn(4); j++ {
			p = append(p, dict.POSID(r.Intn(len(names))))
		}
		d.POSTable.POSs = append(d.POSTable.POSs, p)
		if full {
			c := []string{}
			for j := 0; j < r.Intn(5); j++ {
				c = append(c, fmt.Sprintf("c%d.%d.%s", i, j, k))
			}
			d.Contents = append(d.Contents, c)
		}
	}
	metaKeys := []string{dict.POSStartIndex, dict.POSHierarchy, dict.InflectionalType, dict.InflectionalForm, dict.BaseFormIndex, dict.ReadingIndex, dict.PronunciationIndex}
	meta := func(max int) dict.ContentsMeta {
		if r.Intn(6) == 0 {
			return nil
		}
		m := dict.ContentsMeta{}
		for _, k := range metaKeys {
			if r.Intn(3) > 0 {
				m[k] = int8(r.Intn(max))
			}
		}
		return m
	}
	d.ContentsMeta = meta(8)
	// categories
	nc := 1 + r.Intn(4)
	size := []int{1, 128, 256, 0x3100, 0x10000}[r.Intn(5)]
	d.CharCategory = make([]byte, size)
	for i := range d.CharCategory {
		d.CharCategory[i] = byte(r.Intn(nc))
		if i >= 0x100 { // long stretches of one category
			d.CharCategory[i] = d.CharCategory[i&0xff]
		}
	}
	for i, c := range s.alphabet {
		if int(c) < size {
			d.CharCategory[c] = byte(r.Intn(nc))
			if o.manyUnk > 0 && i < 2 {
				d.CharCategory[c] = 0
			}
		}
	}
	u := dict.UnkDict{Index: map[int32]int32{}, IndexDup: map[int32]int32{}, ContentsMeta: meta(5)}
	for c := 0; c < nc; c++ {
		d.CharClass = append(d.CharClass, fmt.Sprintf("CAT%d", c))
		d.InvokeList = append(d.InvokeList, r.Intn(2) == 0)
		d.GroupList = append(d.GroupList, o.group == 1 || r.Intn(3) > 0)
		u.Index[int32(c)] = int32(len(u.Morphs))
		dup := r.Intn(3)
		if o.manyUnk > 0 && c == 0 {
			dup = o.manyUnk
		}
		if dup > 0 {
			u.IndexDup[int32(c)] = int32(dup)
		}
		for x := 0; x <= dup; x++ {
			m := mor()
			if r.Intn(2) == 0 && !o.sat && !o.small && !o.wild {
				m.Weight += int16(r.Intn(3000))
			}
			u.Morphs = append(u.Morphs, m)
			f := []string{}
			for j := 0; j < 1+r.Intn(6); j++ {
				f = append(f, []string{"*", "未知", fmt.Sprintf("u%d", len(u.Morphs)), "q\"\\", ""}[r.Intn(5)])
			}
			u.Contents = append(u.Contents, f)
		}
	}
	d.UnkDict = u
	s.d = d
	// user dictionary
	if o.user == 1 || (o.user == 0 && r.Intn(2) == 0) {
		n := 1 + r.Intn(5)
		if o.dense {
			n += 4
		}
		s.addUser(r, n, o.long, o.uextra...)
	}
	return s
}

// addUser gives s a user dictionary.
func (s *synth) addUser(r *rand.Rand, n int, long bool, extra ...string) {
	var recs dict.UserDictRecords
	seen := map[string]bool{}
	for i := 0; i < n+len(extra); i++ {
		l := 1 + r.Intn(4)
		if long {
			l = 1 + r.Intn(10)
		}
		var w string
		switch r.Intn(3) {
		case 0:
			w = s.words[r.Intn(len(s.words))]
		case 1:
			w = s.words[r.Intn(len(s.words))] + randWord(r, s.alphabet, 1)
		default:
			w = randWord(r, s.alphabet, l)
		}
		if i >= n {
			w = extra[i-n]
		}
		w = strings.TrimSpace(without0(w))
		if w == "" || seen[w] {
			continue
		}
		seen[w] = true
		rec := dict.UserDicRecord{Text: w, Pos: fmt.Sprintf("カスタム%d", i)}
		for k := 0; k < 1+r.Intn(3); k++ {
			rec.Tokens = append(rec.Tokens, fmt.Sprintf("t%d.%d", i, k))
			rec.Yomi = append(rec.Yomi, fmt.Sprintf("y%d.%d", i, k))
		}
		recs = append(recs, rec)
	}
	if len(recs) == 0 {
		recs = append(recs, dict.UserDicRecord{Text: "zq", Tokens: []string{"z", "q"}, Yomi: []string{"Z", "Q"}, Pos: "P"})
	}
	ud, err := recs.NewUserDict()
	if err != nil {
		fatalf("user dict: %v", err)
	}
	s.u = ud
	for _, x := range recs {
		s.uwords = append(s.uwords, x.Text)
	}
}

// input makes a random input for the dictionary.
func (s *synth) input(r *rand.Rand, parts int) string {
	var b strings.Builder
	for i := 0; i < parts; i++ {
		switch k := r.Intn(20); {
		case k == 0 && r.Intn(4) == 0: // texts that look like something else
			b.WriteString([]string{"BOS", "EOS", "*", "---", "<nil>", "EOS\n"}[r.Intn(6)])
		case k < 8:
			b.WriteString(s.words[r.Intn(len(s.words))])
		case k < 11 && len(s.uwords) > 0:
			b.WriteString(s.uwords[r.Intn(len(s.uwords))])
		case k < 12:
			w := s.words[r.Intn(len(s.words))]
			b.WriteString(w[:r.Intn(len(w)+1)]) // perhaps cut inside a character
		case k < 13:
			b.WriteString(badBytes[r.Intn(len(badBytes))])
		case k < 14:
			g := runeGroups[r.Intn(len(runeGroups))]
			b.WriteRune(g[r.Intn(len(g))])
		case k < 16:
			c := s.alphabet[r.Intn(len(s.alphabet))]
			b.WriteString(strings.Repeat(string(c), 1+r.Intn(9)))
		default:
			b.WriteString(randWord(r, s.alphabet, 1+r.Intn(3)))
		}
	}
	return b.String()
}

// enumerate returns all strings over the symbols up to the length.
func enumerate(symbols []string, max int) []string {
	ret := []string{""}
	last := []string{""}
	for l := 0; l < max; l++ {
		var next []string
		for _, p := range last {
			for _, c := range symbols {
				next = append(next, p+c)
			}
		}
		ret = append(ret, next...)
		last = next
	}
	return ret
}
