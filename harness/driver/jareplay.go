package main

import (
	"encoding/json"
	"fmt"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() { modes["jareplay"] = runJaReplay }

// tokens of kinds 1, 2, 3: surface a, b, c, part of speech p1, p2, p3, base
// form base1, c, none; kind 4: surface a, p2, base4 (of another dictionary)
func runJaReplay(e env) {
	w := []string{"a", "b", "c"}
	d := letters(w, [][]string{{"p1"}, {"p2"}, {"p3"}}, [][]string{{"base1"}, {"c"}, nil}, dict.ContentsMeta{dict.BaseFormIndex: 1})
	other := letters([]string{"a"}, [][]string{{"p2"}}, [][]string{{"base4"}}, dict.ContentsMeta{dict.BaseFormIndex: 1})
	tz, otz := mustTokenizer(d, nil, tokenizer.OmitBosEos()), mustTokenizer(other, nil, tokenizer.OmitBosEos())
	var rp replayer
	readLines(e.args[0], func(line []byte) {
		var raw [6]json.RawMessage
		var tags, base [][]int
		var words, seq, ys, ds []int
		if err := json.Unmarshal(line, &raw); err != nil {
			fatalf("%v", err)
		}
		for i, p := range []interface{}{&tags, &words, &base, &seq, &ys, &ds} {
			if err := json.Unmarshal(raw[i], p); err != nil {
				fatalf("%v", err)
			}
		}
		pats := func(x [][]int) []filter.POS {
			ret := []filter.POS{}
			for _, v := range x {
				ret = append(ret, filter.POS{fmt.Sprintf("p%d", v[0])})
			}
			return ret
		}
		stop := []string{}
		for _, k := range words {
			stop = append(stop, w[k-1])
		}
		text := ""
		for _, k := range seq {
			text += w[(k-1)%3]
		}
		what := ""
		msg := guard("ja filter "+string(line), func() {
			jf, err := ja.NewFilter(ja.StopTagsFilterOption(pats(tags)), ja.StopWordsFilterOption(stop), ja.BaseFormFilterOption(pats(base)))
			if err != nil {
				panic(err)
			}
			ts := tz.Tokenize(text)
			for i, k := range seq {
				if k == 4 {
					n := otz.Tokenize("a")[0]
					n.Index, n.Position, n.Start, n.End = ts[i].Index, ts[i].Position, ts[i].Start, ts[i].End
					ts[i] = n
				}
			}
			got := jf.Yield(ts)
			ok := len(got) == len(ys)
			for i := 0; ok && i < len(ys); i++ {
				if ys[i] > 10 {
					ok = got[i] == fmt.Sprintf("base%d", ys[i]-10)
				} else {
					ok = got[i] == w[ys[i]-1]
				}
			}
			if !ok {
				what = fmt.Sprintf("Yield returns %q", got)
				return
			}
			rest := append([]tokenizer.Token{}, ts...)
			jf.Drop(&rest)
			ok = len(rest) == len(ds)
			for i := 0; ok && i < len(ds); i++ {
				ok = rest[i] == ts[ds[i]-1]
			}
			if !ok {
				what = fmt.Sprintf("Drop leaves %v", rest)
			}
		})
		if msg != "" || what != "" {
			rp.bad("C12 "+clean(msg+what), map[string]interface{}{"behaviour": string(line), "wrong": what})
			return
		}
		rp.ok(string(line))
	})
	rp.finish(e)
}
