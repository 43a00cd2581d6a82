package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() { modes["anreplay"] = runAnalyzerReplay }

// a generated dictionary and text with its candidates and cheapest
// segmentations; words are [first character, class, id, end] as in the specification
type genAnalysis struct {
	known          [][2]json.RawMessage
	kmorph, umorph [][4]int
	hasu           int
	user           []Bytes
	inv, grp       []int
	conn           [][]int
	in             Bytes
	cands          [][4]int
	best           [2][][][4]int
	graphs         [3][]genGraph
}

// a generated graph: the tokens, nodes <<surface, part of speech, cost, best>>
// and edges <<from, to, cost, bold>>
type genGraph struct {
	words [][4]int
	nodes [][4]json.RawMessage
	edges [][4]int
}

func (g *genGraph) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]interface{}{&g.words, &g.nodes, &g.edges})
}

// bag reduces the graph as those that are read.
func (g *genGraph) bag() jGraph {
	nodes, edges, attrs := map[string]jGNode{}, [][2]string{}, []jGEdge{}
	for i, n := range g.nodes {
		var v jGNode
		var best int
		if err := errors.Join(json.Unmarshal(n[0], &v.Sf), json.Unmarshal(n[1], &v.Pos), json.Unmarshal(n[2], &v.W), json.Unmarshal(n[3], &best)); err != nil {
			fatalf("%v", err)
		}
		v.Best = best == 1
		nodes[strconv.Itoa(i+1)] = v
	}
	for _, e := range g.edges {
		edges = append(edges, [2]string{strconv.Itoa(e[0]), strconv.Itoa(e[1])})
		attrs = append(attrs, jGEdge{C: e[2], Bold: e[3] == 1})
	}
	return bagGraph(nodes, edges, attrs)
}

func (g *genAnalysis) parse(line []byte) error {
	var raw []json.RawMessage
	if err := json.Unmarshal(line, &raw); err != nil {
		return err
	}
	var err error
	if len(raw) == 10 {
		raw, err = append(raw[:9:9], []byte("[]"), []byte("[]"), []byte("[]")), json.Unmarshal(raw[9], &g.graphs)
	}
	if len(raw) != 12 {
		return fmt.Errorf("%d parts", len(raw))
	}
	for i, p := range []interface{}{&g.known, &g.kmorph, &g.hasu, &g.user, &g.inv, &g.grp, &g.umorph, &g.conn, &g.in, &g.cands, &g.best[0], &g.best[1]} {
		err = errors.Join(err, json.Unmarshal(raw[i], p))
	}
	return err
}

// build makes the dictionary; ids translates its entries to the specification's.
func (g *genAnalysis) build() (d *dict.Dict, u *dict.UserDict, ids, uids []int) {
	type ent struct {
		s string
		m int
	}
	var es []ent
	for _, k := range g.known {
		var s Bytes
		var ms []int
		if err := errors.Join(json.Unmarshal(k[0], &s), json.Unmarshal(k[1], &ms)); err != nil {
			fatalf("%v", err)
		}
		for _, m := range ms {
			es = append(es, ent{string(s), m})
		}
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].s < es[j].s })
	morph := func(m [4]int) dict.Morph {
		return dict.Morph{LeftID: int16(m[1]), RightID: int16(m[2]), Weight: int16(m[3])}
	}
	d = &dict.Dict{InvokeList: dict.InvokeList{g.inv[0] == 1, g.inv[1] == 1}, GroupList: dict.GroupList{g.grp[0] == 1, g.grp[1] == 1}}
	d.POSTable.NameList = []string{"n", "v", "*", "w"} // as in GraphMC
	var keys []string
	for _, e := range es {
		keys = append(keys, e.s)
		d.Morphs = append(d.Morphs, morph(g.kmorph[e.m-1]))
		if e.m%2 == 1 {
			d.POSTable.POSs = append(d.POSTable.POSs, dict.POS{0})
		} else {
			d.POSTable.POSs = append(d.POSTable.POSs, dict.POS{1, 2, 3})
		}
		ids = append(ids, g.kmorph[e.m-1][0])
	}
	var err error
	if d.Index, err = dict.BuildIndexTable(keys); err != nil {
		fatalf("%v", err)
	}
	n := len(g.conn)
	d.Connection = dict.ConnectionTable{Row: int64(n), Col: int64(n), Vec: make([]int16, n*n)}
	for r := 0; r < n; r++ {
		for l := 0; l < n; l++ {
			d.Connection.Vec[n*l+r] = int16(g.conn[r][l])
		}
	}
	for r := 0; r < n; r++ {
		for l := 0; l < n; l++ {
			if int(d.Connection.At(r, l)) != g.conn[r][l] {
				fatalf("the layout of the connection table")
			}
		}
	}
	d.CharCategory = make([]byte, 0x10000) // as cats in AnalyzerMC
	d.CharCategory['b'], d.CharCategory[0x4e00] = 1, 1
	d.UnkDict = dict.UnkDict{Index: map[int32]int32{0: 0, 1: 1}, IndexDup: map[int32]int32{1: 1}, ContentsMeta: dict.ContentsMeta{}}
	for i, m := range g.umorph {
		d.UnkDict.Morphs = append(d.UnkDict.Morphs, morph(m))
		d.UnkDict.Contents = append(d.UnkDict.Contents, [][]string{{"u"}, {"u"}, {"*"}}[i])
	}
	if g.hasu == 1 {
		var recs dict.UserDictRecords
		for _, w := range g.user {
			recs = append(recs, dict.UserDicRecord{Text: string(w), Tokens: []string{string(w)}, Yomi: []string{"y"}, Pos: "p"})
		}
		if len(recs) == 0 { // an entry that occurs nowhere
			recs = dict.UserDictRecords{{Text: "zz", Tokens: []string{"zz"}, Yomi: []string{"y"}, Pos: "p"}}
		}
		if u, err = recs.NewUserDict(); err != nil {
			fatalf("%v", err)
		}
		for i := range u.Contents {
			id := 0
			for j, w := range g.user {
				if u.Contents[i].Tokens[0] == string(w) {
					id = j + 1
				}
			}
			uids = append(uids, id)
		}
	}
	return
}

func runAnalyzerReplay(e env) {
	file, err := os.Open(e.args[0])
	if err != nil {
		fatalf("%v", err)
	}
	defer file.Close()
	var rp replayer
	s := bufio.NewScanner(file)
	s.Buffer(nil, 1<<20)
	opts := map[string]*struct {
		t         *tokenizer.Tokenizer
		ids, uids []int
	}{}
	for s.Scan() {
		var g genAnalysis
		if err := g.parse(s.Bytes()); err != nil {
			fatalf("%v", err)
		}
		key := fmt.Sprint(g.known, g.kmorph, g.hasu, g.user, g.inv, g.grp, g.umorph, g.conn)
		x := opts[key]
		if x == nil {
			x = &struct {
				t         *tokenizer.Tokenizer
				ids, uids []int
			}{}
			var d *dict.Dict
			var u *dict.UserDict
			d, u, x.ids, x.uids = g.build()
			o := []tokenizer.Option{tokenizer.OmitBosEos()}
			if u != nil {
				o = append(o, tokenizer.UserDict(u))
			}
			if x.t, err = tokenizer.New(d, o...); err != nil {
				broken("%v", err)
			}
			opts[key] = x
		}
		judge := g.judge
		if g.graphs[0] != nil {
			judge = g.judgeGraphs
		}
		if why, c := judge(x.t, x.ids, x.uids); why != "" {
			rp.bad(why, c)
		} else {
			rp.ok(s.Text())
		}
	}
	rp.finish(e)
}

// judge compares the analyses of the text with the generated ones.
func (g *genAnalysis) judge(t *tokenizer.Tokenizer, ids, uids []int) (string, map[string]interface{}) {
	in := string(g.in)
	for m := 0; m < 3; m++ {
		toks := t.Analyze(in, []tokenizer.TokenizeMode{tokenizer.Normal, tokenizer.Search, tokenizer.Extended}[m])
		got := wordsOf(toks, ids, uids)
		bad := func(p, what string) (string, map[string]interface{}) {
			return fmt.Sprintf("%s mode=%d %s", p, m+1, what), map[string]interface{}{
				"text": in, "known": g.known, "costs": g.kmorph, "user": g.user, "invoke": g.inv, "group": g.grp, "unknown": g.umorph, "connections": g.conn,
				"got": got, "candidates": g.cands, "cheapest": g.best[min(m, 1)]}
		}
		if m < 2 {
			for _, w := range got {
				found, user := false, false
				for _, c := range g.cands {
					found = found || c == w
					user = user || c[0] == w[0] && c[1] == int(tokenizer.USER)
				}
				if !found && user {
					return bad("C04", "a word where only user entries may start")
				} else if !found {
					return bad("C03", "a token that is no candidate")
				}
			}
		}
		fits := false
		for _, p := range g.best[min(m, 1)] {
			if m == 2 { // unknown words are cut into their characters
				var q [][4]int
				for _, w := range p {
					if w[1] != int(tokenizer.UNKNOWN) {
						q = append(q, w)
						continue
					}
					for i := w[0]; i < w[3]; i++ {
						q = append(q, [4]int{i, int(tokenizer.DUMMY), w[2], i + 1})
					}
				}
				p = q
			}
			fits = fits || sameWords(p, got)
		}
		if !fits {
			return bad([]string{"C02", "C05", "C05"}[m], "no cheapest segmentation")
		}
	}
	return "", nil
}

// wordsOf translates tokens to words.
func wordsOf(toks []tokenizer.Token, ids, uids []int) [][4]int {
	got := [][4]int{}
	for _, k := range toks {
		id := k.ID
		switch {
		case k.Class == tokenizer.KNOWN && id >= 0 && id < len(ids):
			id = ids[id]
		case k.Class == tokenizer.USER && id >= 0 && id < len(uids):
			id = uids[id]
		}
		got = append(got, [4]int{k.Start + 1, int(k.Class), id, k.End + 1})
	}
	return got
}

// judgeGraphs compares the exported graphs of the text with the generated ones.
func (g *genAnalysis) judgeGraphs(t *tokenizer.Tokenizer, ids, uids []int) (string, map[string]interface{}) {
	in := string(g.in)
	for m := 0; m < 3; m++ {
		var b bytes.Buffer
		got := wordsOf(t.AnalyzeGraph(&b, in, []tokenizer.TokenizeMode{tokenizer.Normal, tokenizer.Search, tokenizer.Extended}[m]), ids, uids)
		bad := func(what string) (string, map[string]interface{}) {
			return fmt.Sprintf("C09 mode=%d %s", m+1, what), map[string]interface{}{
				"text": in, "known": g.known, "costs": g.kmorph, "user": g.user, "invoke": g.inv, "group": g.grp, "unknown": g.umorph, "connections": g.conn,
				"got": got, "graph": b.String()}
		}
		have, err := readGraph(b.String())
		if err != nil {
			return bad("not well formed: " + err.Error())
		}
		fits := false
		for _, x := range g.graphs[m] {
			if sameWords(x.words, got) {
				fits = true
				if !reflect.DeepEqual(x.bag(), have) {
					return bad("the graph is not that of the analysis")
				}
			}
		}
		if !fits {
			return bad("no cheapest segmentation")
		}
	}
	return "", nil
}

func sameWords(a, b [][4]int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
