package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"

	"github.com/ikawaha/kagome/v2/filter"
)

func init() {
	modes["split"] = runSplit
	modes["splitreplay"] = runSplitReplay
}

type jSetting struct {
	Delim  []int `json:"delim"`
	Fol    []int `json:"fol"`
	Skip   bool  `json:"skip"`
	Dlf    bool  `json:"dlf"`
	Max    int   `json:"max"`
	asRune bool
}

func runesOf(v []int) []rune {
	ret := make([]rune, 0, len(v))
	for _, x := range v {
		ret = append(ret, rune(x))
	}
	return ret
}

func (s jSetting) splitter() filter.SentenceSplitter {
	return filter.SentenceSplitter{
		Delim: runesOf(s.Delim), Follower: runesOf(s.Fol), SkipWhiteSpace: s.Skip, DoubleLineFeedSplit: s.Dlf, MaxRuneLen: s.Max,
	}
}

// pieces is a reader that delivers a text in given pieces: the lengths of the
// pieces, 0 for an empty read, -1 for the end of file together with the
// preceding piece.
type pieces struct {
	text []byte
	sch  []int
	done bool
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.text) == 0 || p.done {
		return 0, io.EOF
	}
	n := len(p.text)
	if len(p.sch) > 0 {
		n = p.sch[0]
		p.sch = p.sch[1:]
		if n < 0 {
			n = len(p.text)
		}
	}
	if n > len(p.text) {
		n = len(p.text)
	}
	if n > len(b) {
		if len(b) == 0 {
			return 0, nil
		}
		p.sch = append([]int{n - len(b)}, p.sch...)
		n = len(b)
	}
	copy(b, p.text[:n])
	p.text = p.text[n:]
	if len(p.text) == 0 && len(p.sch) > 0 && p.sch[0] < 0 {
		p.done = true
		return n, io.EOF
	}
	return n, nil
}

type jSplitOut struct {
	Sch []int   `json:"sch"`
	Buf int     `json:"buf"`
	Out []Bytes `json:"out"`
	Err string  `json:"err"`
	Mod bool    `json:"mod"`
}

// scan splits a text that arrives in pieces.
func scan(split bufio.SplitFunc, text string, sch []int, buf int) jSplitOut {
	ret := jSplitOut{Sch: sch, Buf: buf, Out: []Bytes{}}
	if ret.Sch == nil {
		ret.Sch = []int{}
	}
	var kept [][]byte
	msg := guard(fmt.Sprintf("ScanSentences on %.60q in pieces %v", text, sch), func() {
		s := bufio.NewScanner(&pieces{text: []byte(text), sch: append([]int{}, sch...)})
		if buf > 0 {
			s.Buffer(make([]byte, 0, buf), 1<<20)
		}
		s.Split(func(data []byte, atEOF bool) (int, []byte, error) {
			before := append([]byte{}, data...)
			adv, tok, err := split(data, atEOF)
			if !bytes.Equal(before, data) {
				ret.Mod = true
			}
			return adv, tok, err
		})
		for s.Scan() {
			kept = append(kept, append([]byte{}, s.Bytes()...))
			if len(kept) > len(text)+1 {
				ret.Err = "more sentences than bytes"
				return
			}
		}
		if err := s.Err(); err != nil {
			ret.Err = clean(err.Error())
		}
	})
	if msg != "" {
		ret.Err = msg
	}
	for _, v := range kept {
		ret.Out = append(ret.Out, Bytes(v))
	}
	return ret
}

// scanBeside scans a text while another scanner works on another text; each
// sentence is looked at after the other scanner has moved on.
func scanBeside(split bufio.SplitFunc, text, other string) jSplitOut {
	ret := jSplitOut{Sch: []int{}, Out: []Bytes{}, Buf: -1}
	ret.Err = guard(fmt.Sprintf("ScanSentences on %.60q beside %.60q", text, other), func() {
		a, b := bufio.NewScanner(strings.NewReader(text)), bufio.NewScanner(strings.NewReader(other))
		a.Split(split)
		b.Split(split)
		for a.Scan() && len(ret.Out) <= len(text) {
			b.Scan()
			ret.Out = append(ret.Out, append(Bytes{}, a.Bytes()...))
		}
		if err := a.Err(); err != nil {
			panic(err)
		}
	})
	return ret
}

func sameOut(a, b jSplitOut) bool {
	if a.Err != b.Err || a.Mod != b.Mod || len(a.Out) != len(b.Out) {
		return false
	}
	for i := range a.Out {
		if !bytes.Equal(a.Out[i], b.Out[i]) {
			return false
		}
	}
	return true
}

type recSplit struct {
	S    int         `json:"s"`
	In   Bytes       `json:"in"`
	Outs []jSplitOut `json:"outs"`
	N    int         `json:"n"`
}

var splitAlphabets = [][]string{
	{"a", "。", "\n", " ", "」"},
	{"a", "b", "あ", "。", "！", "?", "」", ")", "\n", "\n\n", " ", "　", "\r\n", "\t", "『", "."},
	{"あ", "\xe3", "\xff", "\xe3\x80", "。", "\u00a0", "\u2028", "\u0085", "🍣", "\xf0\x9f", "\n", "\uFFFD"},
	{"\n", "\r", " ", "a"},
	{"あ", "。", "\n", "\v", "\f", "\u1680", "\u2000", "\u2004", "\u200a", "\u200b", "\u202f", "\u2029", "\u205f", "\u180e", "\u3000", "\ufeff", "\x1c", "\x1f", "\x00"},
	{"。", "」", "．", "!", "？", "｣", "｝", "}", "〉", "》", "）", "』", "\n", "x", "「", "、", ",", ";"},
}

func runSplit(e env) {
	r := rand.New(rand.NewSource(e.seed*7919 + 5))
	var f struct {
		Sets []jSetting `json:"sets"`
		Recs []recSplit `json:"recs"`
	}
	dl := []int{0x3002, 0xff0e, 0xff01, '!', 0xff1f, '?'}
	fo := []int{'.', 0xff63, 0x300d, 0x300f, ')', 0xff09, 0xff5d, '}', 0x3009, 0x300b}
	f.Sets = []jSetting{
		{Delim: dl, Fol: fo, Skip: false, Dlf: true, Max: 128},
		{Delim: dl, Fol: fo, Skip: true, Dlf: false, Max: 128},
		{Delim: dl, Fol: fo, Skip: false, Dlf: false, Max: 5},
		{Delim: dl, Fol: fo, Skip: true, Dlf: true, Max: 1},
		{Delim: []int{'\n'}, Fol: []int{' ', 0x300d}, Skip: true, Dlf: true, Max: 4},
		{Delim: []int{'\n', 0x3002}, Fol: []int{}, Skip: false, Dlf: true, Max: 9},
		{Delim: []int{}, Fol: fo, Skip: true, Dlf: false, Max: 3},
		{Delim: []int{' ', 0x3002}, Fol: []int{'\n'}, Skip: false, Dlf: true, Max: 6},
		{Delim: []int{0x3000, '\t'}, Fol: []int{0x300d}, Skip: true, Dlf: true, Max: 8},
		{Delim: []int{0x2028, 0xa0, 0x85, ' '}, Fol: []int{0x3000}, Skip: true, Dlf: false, Max: 6},
		{Delim: []int{'\r', '\v', 0x2003}, Fol: []int{'\f'}, Skip: true, Dlf: true, Max: 5},
	}
	for i := 0; i < e.pick(10, 40); i++ {
		pool := []int{'a', 'b', 0x3042, 0x3002, '!', '?', 0x300d, ')', '\n', ' ', 0x3000, '\r', '\t', 0xfffd, 0x1f363, 0x85, 0xa0, 0x2028}
		sub := func() []int {
			l := []int{}
			for _, x := range pool {
				if r.Intn(5) == 0 {
					l = append(l, x)
				}
			}
			return l
		}
		f.Sets = append(f.Sets, jSetting{Delim: sub(), Fol: sub(), Skip: r.Intn(2) == 0, Dlf: r.Intn(2) == 0, Max: []int{-1, 0, 1, 2, 3, 5, 7, 128, 1 << 30}[r.Intn(9)]})
	}
	last := ""
	add := func(s int, text string, tries int) {
		split := filter.ScanSentences
		if s > 0 {
			split = f.Sets[s-1].splitter().ScanSentences
		}
		rec := recSplit{S: s, In: Bytes(text), Outs: []jSplitOut{scan(split, text, nil, 0)}}
		schs := [][]int{}
		ones := []int{}
		for range text {
			ones = append(ones, 1, 1, 1, 1)
		}
		schs = append(schs, append(append([]int{}, ones...), -1))
		if len(text) <= 40 {
			for i := 1; i < len(text); i++ {
				schs = append(schs, []int{i, -1}, []int{i})
			}
		}
		for i := 0; i < tries; i++ {
			var sch []int
			max := []int{2, 5, 40, 5000}[r.Intn(4)]
			for n := 0; n < len(text); {
				k := r.Intn(max)
				if k == 0 && len(sch) > 0 && sch[len(sch)-1] == 0 {
					k = 1
				}
				sch = append(sch, k)
				n += k
			}
			if r.Intn(2) == 0 {
				sch = append(sch, -1)
			}
			schs = append(schs, sch)
		}
		for i := -1; i < len(schs); i++ {
			var o jSplitOut
			if i < 0 {
				o = scanBeside(split, text, last+"!。x\n\n")
			} else {
				o = scan(split, text, schs[i], []int{0, 0, 1, 16, 64}[r.Intn(5)])
			}
			rec.N++
			fresh := true
			for _, x := range rec.Outs {
				if sameOut(x, o) {
					fresh = false
					break
				}
			}
			if fresh && len(rec.Outs) < 4 {
				rec.Outs = append(rec.Outs, o)
			}
		}
		f.Recs = append(f.Recs, rec)
		last = text
	}
	// all short texts
	for _, t := range enumerate([]string{"a", "。", "\n", " ", "」"}, e.pick(4, 6)) {
		add(0, t, 2)
	}
	// random texts
	for i := 0; i < e.pick(700, 12000); i++ {
		s := r.Intn(len(f.Sets) + 1)
		if r.Intn(3) == 0 {
			s = 0
		}
		al := splitAlphabets[r.Intn(len(splitAlphabets))]
		if s > 0 && r.Intn(2) == 0 { // the characters of the setting
			al = []string{"a", "\n", " "}
			for _, c := range append(append([]int{}, f.Sets[s-1].Delim...), f.Sets[s-1].Fol...) {
				al = append(al, string(rune(c)))
			}
		}
		var b strings.Builder
		for n := r.Intn(25); n > 0; n-- {
			b.WriteString(al[r.Intn(len(al))])
		}
		add(s, b.String(), 4)
	}
	// long sentences around the limit, with and without followers, and texts
	// longer than the scanner's buffer
	for i := 0; i < e.pick(14, 60); i++ {
		n := 120 + r.Intn(20)
		if i < 6 {
			n = 126 + i
		}
		c := []string{"あ", "a", "あ ", "𠀀", "\xff"}[r.Intn(5)]
		add(0, strings.Repeat(c, n)+[]string{"", "。", "」」", " 。」", "\n\n。", "x", "\n\nx", ")"}[r.Intn(8)]+strings.Repeat(c, r.Intn(300)), 3)
	}
	for i := 0; i < e.pick(2, 6); i++ {
		var b strings.Builder
		for b.Len() < 6000 {
			b.WriteString(sentences[r.Intn(len(sentences))])
			b.WriteString([]string{"。", "\n", "\n\n", "！」", " ", ""}[r.Intn(6)])
		}
		add(0, b.String(), 6)
		add(1+r.Intn(len(f.Sets)), b.String(), 6)
	}
	// long runs of one kind, in and after sentences
	for i := 0; i < e.pick(12, 100); i++ {
		runs := []string{" ", "\t", "\u3000", "\n ", "。", "」", "!", ")", "a", "\xff", "\u2003", "\r"}
		t := ""
		for k := 0; k < 2+r.Intn(4); k++ {
			t += []string{"", "a", "。", "」", "a。", "!", "\n"}[r.Intn(7)]
			n := []int{1, 2, 30, 500, 1400}[r.Intn(5)] + r.Intn(4)
			if k == i%3 {
				n = []int{1023, 2047, 4093, 4096, 5000, 7000}[r.Intn(6)] + r.Intn(4)
			}
			t += strings.Repeat(runs[r.Intn(len(runs))], n)
			if len(t) > 12000 {
				break
			}
		}
		t += []string{"", "」", "。", "」b", "b", "\n\n"}[r.Intn(6)]
		set := 0
		if i%3 == 2 {
			set = 1 + r.Intn(len(f.Sets))
		}
		add(set, t, 3)
	}
	for _, x := range []string{" ", "\n ", "。", "」"} {
		add(0, "a。"+strings.Repeat(x, 4000+r.Intn(3000))+"」b。c", 3)
	}
	// white space longer than the buffer
	add(0, "a"+strings.Repeat(" ", 3000)+"。b"+strings.Repeat("\n ", 1500)+"」。", 4)
	add(0, strings.Repeat(" \n", 2500)+"。"+strings.Repeat("\n", 3000), 4)
	// texts beyond the largest buffer of a scanner
	n := 0
	for _, x := range f.Recs {
		n += x.N
	}
	writeJSON(e.out+"/trace.json", f)
	fmt.Printf("STATS texts=%d scans=%d settings=%d\n", len(f.Recs), n, len(f.Sets)+1)
}

// behaviours generated from the specification: setting, text, schedule, expected sentences
type genSplit struct {
	sn  int
	in  Bytes
	sch []int
	out []Bytes
}

func runSplitReplay(e env) {
	file, err := os.Open(e.args[0])
	if err != nil {
		fatalf("%v", err)
	}
	defer file.Close()
	d1, f1 := []int{0x3002}, []int{0x300d}
	set := []jSetting{
		{},
		{Delim: d1, Fol: f1, Skip: false, Dlf: true, Max: 128},
		{Delim: d1, Fol: f1, Skip: true, Dlf: false, Max: 128},
		{Delim: d1, Fol: f1, Skip: true, Dlf: true, Max: 2},
		{Delim: []int{10, 0x3002}, Fol: []int{32}, Skip: true, Dlf: false, Max: 3},
		{Delim: []int{10}, Fol: []int{32, 0x300d}, Skip: false, Dlf: true, Max: 3},
		{Delim: []int{}, Fol: f1, Skip: false, Dlf: false, Max: 1},
	}
	var rp replayer
	s := bufio.NewScanner(file)
	s.Buffer(nil, 1<<20)
	for s.Scan() {
		var raw [4]json.RawMessage
		var g genSplit
		err := errors.Join(json.Unmarshal(s.Bytes(), &raw), json.Unmarshal(raw[0], &g.sn), json.Unmarshal(raw[1], &g.in), json.Unmarshal(raw[2], &g.sch), json.Unmarshal(raw[3], &g.out))
		if err != nil {
			fatalf("%v", err)
		}
		split := filter.ScanSentences
		if g.sn > 1 {
			split = set[g.sn-1].splitter().ScanSentences
		}
		got := scan(split, string(g.in), g.sch, 0)
		if !sameOut(got, jSplitOut{Out: g.out}) {
			tag := "C14"
			var a, b []byte
			for _, v := range got.Out {
				a = append(a, v...)
			}
			for _, v := range g.out {
				b = append(b, v...)
			}
			if whole := scan(split, string(g.in), nil, 0); !bytes.Equal(a, b) || !sameOut(whole, got) || got.Err != "" || got.Mod {
				tag = "C13 C14"
			}
			rp.bad(tag+" other sentences than the specification's behaviour", map[string]interface{}{"setting": g.sn, "text": string(g.in), "pieces": g.sch, "want": g.out, "got": got})
		} else {
			rp.ok(s.Text())
		}
	}
	rp.finish(e)
}
