package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/ikawaha/kagome/v2/tokenizer/lattice/mem"
)

func init() { modes["pool"] = runPool }

type pObj struct {
	stamp int64
	fill  [3]int
}

// poolWorld is a set of pools of one type with the numbering of its objects.
type poolWorld struct {
	pools []mem.Pool[pObj]
	mu    sync.Mutex
	ids   map[*pObj]int // also keeps every object alive, so that addresses stay unique
	made  map[*pObj]int
	seq   int64
	touch bool
}

func newPoolWorld(n int, touch bool) *poolWorld {
	w := &poolWorld{ids: map[*pObj]int{}, made: map[*pObj]int{}, touch: touch}
	for i := 1; i <= n; i++ {
		i := i
		w.pools = append(w.pools, mem.NewPool[pObj](func() *pObj {
			o := new(pObj)
			w.mu.Lock()
			w.made[o] = i
			w.mu.Unlock()
			return o
		}))
	}
	return w
}

func (w *poolWorld) id(o *pObj) (int, int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	n, ok := w.ids[o]
	if !ok {
		n = len(w.ids) + 1
		w.ids[o] = n
	}
	return n, w.made[o]
}

type pHeld struct {
	o *pObj
	p int
	n int
	s int64
}

// pUser is one user's side of the recording.
type pUser struct {
	w    *poolWorld
	u    int
	held []pHeld
	ev   [][6]int64
	ids  []int
}

func (x *pUser) log(seq int64, op, p, o, m int) {
	x.ev = append(x.ev, [6]int64{seq, int64(x.u), int64(op), int64(p), int64(o), int64(m)})
}

func (x *pUser) get(p int) {
	o := x.w.pools[p-1].Get()
	seq := atomic.AddInt64(&x.w.seq, 1)
	if o == nil {
		panic("Get returned nil")
	}
	n, m := x.w.id(o)
	x.log(seq, 1, p, n, m)
	h := pHeld{o: o, p: p, n: n, s: seq<<8 | int64(x.u)}
	if x.w.touch {
		atomic.StoreInt64(&o.stamp, h.s)
	}
	x.held = append(x.held, h)
}

func (x *pUser) check(h pHeld) {
	if x.w.touch && atomic.LoadInt64(&h.o.stamp) != h.s {
		x.log(atomic.AddInt64(&x.w.seq, 1), 4, h.p, h.n, 0)
	}
}

// put puts back the k-th object held.
func (x *pUser) put(k int) {
	h := x.held[k]
	x.held = append(x.held[:k:k], x.held[k+1:]...)
	x.check(h)
	x.log(atomic.AddInt64(&x.w.seq, 1), 2, h.p, h.n, 0)
	x.w.pools[h.p-1].Put(h.o)
}

// bring puts an object of the user's own into a pool.
func (x *pUser) bring(p int) {
	o := new(pObj)
	n, _ := x.w.id(o)
	x.log(atomic.AddInt64(&x.w.seq, 1), 3, 0, n, 0)
	h := pHeld{o: o, p: p, n: n, s: -1}
	if x.w.touch {
		atomic.StoreInt64(&o.stamp, h.s)
	}
	x.held = append(x.held, h)
	x.put(len(x.held) - 1)
}

type recPool struct {
	Name string     `json:"name"`
	Err  string     `json:"err"`
	Ev   [][5]int64 `json:"ev"`
}

func merge(name string, us []*pUser) recPool {
	rec := recPool{Name: name, Ev: [][5]int64{}}
	var all [][6]int64
	for _, x := range us {
		all = append(all, x.ev...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i][0] < all[j][0] })
	for _, v := range all {
		rec.Ev = append(rec.Ev, [5]int64{v[1], v[2], v[3], v[4], v[5]})
	}
	return rec
}

func runPool(e env) {
	r := rand.New(rand.NewSource(e.seed*23 + 11))
	race := len(e.args) > 1 && e.args[1] == "race"
	var f struct {
		Recs []recPool `json:"recs"`
	}
	// schedules generated from the specification, one goroutine per user
	nth := 0
	readLines(e.args[0], func(line []byte) {
		nth++
		if race && nth%10 != 0 {
			return
		}
		var hist [][3]int
		if err := json.Unmarshal(line, &hist); err != nil {
			fatalf("%v", err)
		}
		w := newPoolWorld(2, !race)
		us := []*pUser{{w: w, u: 1}, {w: w, u: 2}}
		turn := make([]chan func(), 2)
		done := make(chan string)
		for i := range turn {
			turn[i] = make(chan func())
			go func(c chan func()) {
				for fn := range c {
					done <- guard("pool step", fn)
				}
			}(turn[i])
		}
		msg := ""
		for _, h := range hist {
			x := us[h[0]-1]
			turn[h[0]-1] <- func() {
				if h[1] == 1 {
					x.get(h[2])
					return
				}
				for k := range x.held {
					if x.held[k].p == h[2] {
						x.put(k)
						return
					}
				}
			}
			if m := <-done; m != "" {
				msg = m
				break
			}
			if nth%97 == 0 {
				runtime.GC()
			}
		}
		for i := range turn {
			close(turn[i])
		}
		rec := merge("schedule", us)
		rec.Err = msg
		f.Recs = append(f.Recs, rec)
	})
	// free running users
	for i := 0; i < e.pick(40, 300); i++ {
		np := 1 + r.Intn(3)
		w := newPoolWorld(np, !race)
		nu := 2 + r.Intn(14)
		us := make([]*pUser, nu)
		msgs := make([]string, nu)
		var wg sync.WaitGroup
		for k := range us {
			us[k] = &pUser{w: w, u: k + 1}
			wg.Add(1)
			go func(k int, r *rand.Rand) {
				defer wg.Done()
				x := us[k]
				msgs[k] = guard("pool user", func() {
					for n := 0; n < 1600/nu; n++ {
						switch c := r.Intn(20); {
						case c < 9 || len(x.held) == 0:
							x.get(1 + r.Intn(np))
						case c < 18 || len(x.held) > 12:
							x.put(r.Intn(len(x.held)))
						case c == 18:
							x.bring(1 + r.Intn(np))
						default:
							x.check(x.held[r.Intn(len(x.held))])
							if r.Intn(20) == 0 {
								runtime.GC()
							} else {
								runtime.Gosched()
							}
						}
					}
					for len(x.held) > 0 {
						x.put(0)
					}
				})
			}(k, rand.New(rand.NewSource(r.Int63())))
		}
		wg.Wait()
		rec := merge("free", us)
		for _, m := range msgs {
			if m != "" {
				rec.Err = m
			}
		}
		f.Recs = append(f.Recs, rec)
	}
	n := 0
	for _, x := range f.Recs {
		n += len(x.Ev)
	}
	writeJSON(e.out+"/trace.json", f)
	fmt.Printf("STATS records=%d events=%d\n", len(f.Recs), n)
}
