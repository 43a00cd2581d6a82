package main

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// A parser for the graphviz dot language, as far as it is needed to read any
// plain graph: statements, attribute lists, quoted and unquoted identifiers,
// comments, edge chains. Subgraphs and ports are not supported.

type dotNode struct {
	id    string
	attrs map[string]string
}
type dotEdge struct {
	a, b  string
	attrs map[string]string
}
type dotGraph struct {
	kind  string
	nodes []*dotNode
	byID  map[string]*dotNode
	edges []*dotEdge
	decl  map[string]int // node statements per id
}

type dotLexer struct {
	s   string
	pos int
}

type dotTok struct {
	kind string // id, str, or the punctuation itself
	val  string
}

func (l *dotLexer) next() (dotTok, error) {
	for l.pos < len(l.s) {
		c := l.s[l.pos]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			l.pos++
			continue
		case c == '#' && (l.pos == 0 || l.s[l.pos-1] == '\n'), strings.HasPrefix(l.s[l.pos:], "//"):
			for l.pos < len(l.s) && l.s[l.pos] != '\n' {
				l.pos++
			}
			continue
		case strings.HasPrefix(l.s[l.pos:], "/*"):
			k := strings.Index(l.s[l.pos:], "*/")
			if k < 0 {
				return dotTok{}, errors.New("comment not closed")
			}
			l.pos += k + 2
			continue
		}
		break
	}
	if l.pos >= len(l.s) {
		return dotTok{kind: "eof"}, nil
	}
	c := l.s[l.pos]
	if strings.HasPrefix(l.s[l.pos:], "--") || strings.HasPrefix(l.s[l.pos:], "->") {
		l.pos += 2
		return dotTok{kind: l.s[l.pos-2 : l.pos]}, nil
	}
	if strings.ContainsRune("{}[];,=:", rune(c)) {
		l.pos++
		return dotTok{kind: string(c)}, nil
	}
	if c == '"' {
		var b strings.Builder
		for i := l.pos + 1; i < len(l.s); i++ {
			switch {
			case l.s[i] == '\\' && i+1 < len(l.s) && l.s[i+1] == '"':
				b.WriteByte('"')
				i++
			case l.s[i] == '\\' && i+1 < len(l.s) && l.s[i+1] == '\n':
				i++
			case l.s[i] == '\\' && i+1 < len(l.s):
				b.WriteString(l.s[i : i+2]) // for the label's own escapes
				i++
			case l.s[i] == '"':
				l.pos = i + 1
				return dotTok{"id", b.String()}, nil
			default:
				b.WriteByte(l.s[i])
			}
		}
		return dotTok{}, errors.New("string not closed")
	}
	isID := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c >= 128
	}
	if isID(c) || c == '-' || c == '.' {
		i := l.pos
		if c == '-' {
			l.pos++
		}
		for l.pos < len(l.s) && (isID(l.s[l.pos]) || l.s[l.pos] == '.') {
			l.pos++
		}
		return dotTok{"id", l.s[i:l.pos]}, nil
	}
	return dotTok{}, fmt.Errorf("unexpected character %q", c)
}

type dotParser struct {
	l   dotLexer
	cur dotTok
}

func (p *dotParser) adv() error {
	var err error
	p.cur, err = p.l.next()
	return err
}

func parseDot(s string) (*dotGraph, error) {
	p := &dotParser{l: dotLexer{s: s}}
	if err := p.adv(); err != nil {
		return nil, err
	}
	if p.cur.kind == "id" && p.cur.val == "strict" {
		if err := p.adv(); err != nil {
			return nil, err
		}
	}
	if p.cur.kind != "id" || (p.cur.val != "graph" && p.cur.val != "digraph") {
		return nil, errors.New("no graph")
	}
	g := &dotGraph{kind: p.cur.val, byID: map[string]*dotNode{}, decl: map[string]int{}}
	if err := p.adv(); err != nil {
		return nil, err
	}
	if p.cur.kind == "id" {
		if err := p.adv(); err != nil {
			return nil, err
		}
	}
	if p.cur.kind != "{" {
		return nil, errors.New("no body")
	}
	if err := p.adv(); err != nil {
		return nil, err
	}
	node := func(id string) *dotNode {
		n := g.byID[id]
		if n == nil {
			n = &dotNode{id: id, attrs: map[string]string{}}
			g.byID[id] = n
			g.nodes = append(g.nodes, n)
		}
		return n
	}
	for p.cur.kind != "}" {
		if p.cur.kind == ";" {
			if err := p.adv(); err != nil {
				return nil, err
			}
			continue
		}
		if p.cur.kind != "id" {
			return nil, fmt.Errorf("unexpected %q in the body", p.cur.kind)
		}
		ids := []string{p.cur.val}
		if err := p.adv(); err != nil {
			return nil, err
		}
		if p.cur.kind == "=" { // attribute of the graph
			if err := p.adv(); err != nil {
				return nil, err
			}
			if p.cur.kind != "id" {
				return nil, errors.New("no value")
			}
			if err := p.adv(); err != nil {
				return nil, err
			}
			continue
		}
		for p.cur.kind == "--" || p.cur.kind == "->" {
			if (p.cur.kind == "--") != (g.kind == "graph") {
				return nil, errors.New("wrong kind of edge")
			}
			if err := p.adv(); err != nil {
				return nil, err
			}
			if p.cur.kind != "id" {
				return nil, errors.New("edge to nowhere")
			}
			ids = append(ids, p.cur.val)
			if err := p.adv(); err != nil {
				return nil, err
			}
		}
		attrs := map[string]string{}
		for p.cur.kind == "[" {
			if err := p.adv(); err != nil {
				return nil, err
			}
			for p.cur.kind != "]" {
				if p.cur.kind == "," || p.cur.kind == ";" {
					if err := p.adv(); err != nil {
						return nil, err
					}
					continue
				}
				if p.cur.kind != "id" {
					return nil, fmt.Errorf("unexpected %q in attributes", p.cur.kind)
				}
				k := p.cur.val
				if err := p.adv(); err != nil {
					return nil, err
				}
				v := "true"
				if p.cur.kind == "=" {
					if err := p.adv(); err != nil {
						return nil, err
					}
					if p.cur.kind != "id" {
						return nil, errors.New("no attribute value")
					}
					v = p.cur.val
					if err := p.adv(); err != nil {
						return nil, err
					}
				}
				attrs[k] = v
			}
			if err := p.adv(); err != nil {
				return nil, err
			}
		}
		if len(ids) > 1 {
			for i := 1; i < len(ids); i++ {
				node(ids[i-1])
				node(ids[i])
				g.edges = append(g.edges, &dotEdge{ids[i-1], ids[i], attrs})
			}
			continue
		}
		if ids[0] == "graph" || ids[0] == "node" || ids[0] == "edge" {
			continue
		}
		n := node(ids[0])
		g.decl[ids[0]]++
		for k, v := range attrs {
			n.attrs[k] = v
		}
	}
	if err := p.adv(); err != nil {
		return nil, err
	}
	if p.cur.kind != "eof" {
		return nil, errors.New("text after the graph")
	}
	return g, nil
}

// labelParts decodes an escString label into its lines.
func labelParts(s string) []string {
	var ret []string
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
			switch s[i] {
			case 'n', 'l', 'r':
				ret = append(ret, b.String())
				b.Reset()
			default:
				b.WriteByte(s[i])
			}
			continue
		}
		b.WriteByte(s[i])
	}
	return append(ret, b.String())
}

// jGraph is a graph up to node names: distinct nodes and edges with their
// numbers of occurrences.
type jGNode struct {
	Sf   Bytes  `json:"sf"`
	Pos  string `json:"pos"`
	W    int    `json:"w"`
	Best bool   `json:"best"`
	In   int    `json:"in"`
	Out  int    `json:"out"`
	N    int    `json:"n"`
}
type jGEdge struct {
	A    int  `json:"a"`
	B    int  `json:"b"`
	C    int  `json:"c"`
	Bold bool `json:"bold"`
	N    int  `json:"n"`
}
type jGraph struct {
	Nodes []jGNode `json:"nodes"`
	Edges []jGEdge `json:"edges"`
}

// readGraph parses an exported lattice.
func readGraph(s string) (jGraph, error) {
	ret := jGraph{Nodes: []jGNode{}, Edges: []jGEdge{}}
	g, err := parseDot(s)
	if err != nil {
		return ret, err
	}
	nodes, edges := map[string]jGNode{}, [][2]string{}
	vals := []jGEdge{}
	for _, n := range g.nodes {
		if g.decl[n.id] != 1 {
			return ret, fmt.Errorf("node drawn %d times", g.decl[n.id])
		}
		l := labelParts(n.attrs["label"])
		if len(l) != 3 {
			return ret, fmt.Errorf("label of %d lines", len(l))
		}
		w, err := strconv.Atoi(l[2])
		if err != nil {
			return ret, fmt.Errorf("cost is no number")
		}
		nodes[n.id] = jGNode{Sf: Bytes(l[0]), Pos: l[1], W: w, Best: n.attrs["peripheries"] == "2" || n.attrs["shape"] == "ellipse"}
	}
	for _, e := range g.edges {
		c, err := strconv.Atoi(e.attrs["label"])
		if err != nil {
			return ret, fmt.Errorf("connection cost is no number")
		}
		edges = append(edges, [2]string{e.a, e.b})
		vals = append(vals, jGEdge{C: c, Bold: e.attrs["style"] == "bold"})
	}
	return bagGraph(nodes, edges, vals), nil
}

// bagGraph reduces a graph to the bags of its nodes (with their degrees) and edges.
func bagGraph(nodes map[string]jGNode, edges [][2]string, attrs []jGEdge) jGraph {
	ret := jGraph{Nodes: []jGNode{}, Edges: []jGEdge{}}
	in, out := map[string]int{}, map[string]int{}
	for _, e := range edges {
		out[e[0]]++
		in[e[1]]++
	}
	keyOf := map[string]string{} // node id -> key
	vals := map[string]*jGNode{}
	for id, v := range nodes {
		v := v
		v.In, v.Out = in[id], out[id]
		k := fmt.Sprintf("%q %q %d %v %d %d", v.Sf, v.Pos, v.W, v.Best, v.In, v.Out)
		keyOf[id] = k
		if vals[k] == nil {
			vals[k] = &v
		}
		vals[k].N++
	}
	var keys []string
	for k := range vals {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	num := map[string]int{}
	for i, k := range keys {
		num[k] = i + 1
		ret.Nodes = append(ret.Nodes, *vals[k])
	}
	ev := map[jGEdge]int{}
	for i, e := range edges {
		ev[jGEdge{A: num[keyOf[e[0]]], B: num[keyOf[e[1]]], C: attrs[i].C, Bold: attrs[i].Bold}]++
	}
	for e, n := range ev {
		e.N = n
		ret.Edges = append(ret.Edges, e)
	}
	sort.Slice(ret.Edges, func(i, j int) bool {
		a, b := ret.Edges[i], ret.Edges[j]
		if a.A != b.A {
			return a.A < b.A
		}
		if a.B != b.B {
			return a.B < b.B
		}
		if a.C != b.C {
			return a.C < b.C
		}
		return !a.Bold && b.Bold
	})
	return ret
}
