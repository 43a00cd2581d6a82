package main

import "fmt"

// replayer collects the outcome of replaying generated behaviours.
type replayer struct {
	Total   int                      `json:"total"`
	Bad     int                      `json:"bad"`
	Samples []string                 `json:"samples"`
	Cases   []map[string]interface{} `json:"cases"`
}

func (r *replayer) ok(sample string) {
	if r.Total%9973 == 0 && len(r.Samples) < 3 {
		r.Samples = append(r.Samples, sample)
	}
	r.Total++
}

func (r *replayer) bad(reason string, c map[string]interface{}) {
	r.Total++
	r.Bad++
	if len(r.Cases) < 200 {
		r.Cases = append(r.Cases, map[string]interface{}{"reason": reason, "case": c})
	}
}

func (r *replayer) finish(e env) {
	writeJSON(e.out+"/replay.json", r)
	fmt.Printf("STATS replayed=%d bad=%d\n", r.Total, r.Bad)
}
