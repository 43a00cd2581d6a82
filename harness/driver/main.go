// Command driver exercises the real ikawaha/kagome code of /repo through its
// public interfaces and writes down what it does, for TLC to judge.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Bytes is written as a JSON array of numbers.
type Bytes []byte

// MarshalJSON implements json.Marshaler.
func (b Bytes) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 2+4*len(b))
	out = append(out, '[')
	for i, v := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendInt(out, int64(v), 10)
	}
	return append(out, ']'), nil
}

// UnmarshalJSON implements json.Unmarshaler.
func (b *Bytes) UnmarshalJSON(p []byte) error {
	var v []int
	if err := json.Unmarshal(p, &v); err != nil {
		return err
	}
	*b = make(Bytes, len(v))
	for i := range v {
		(*b)[i] = byte(v[i])
	}
	return nil
}

// clean makes a text safe for use in a TLA+ string.
func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r < 32 || r > 126 || r == '"' || r == '\\' || r == '|' {
			return '.'
		}
		return r
	}, s)
}

func fatalf(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "driver: "+format+"\n", a...)
	os.Exit(3)
}

// broken ends the run: the code under test failed where it must not, in a way
// that leaves nothing to record.
func broken(format string, a ...interface{}) {
	fmt.Printf("BROKEN %s\n", clean(fmt.Sprintf(format, a...)))
	os.Exit(96)
}

// noNull writes null as an empty list: what was not observed because of a
// failure is not read any more, but TLC cannot read null.
type noNull struct{ w io.Writer }

func (n noNull) Write(p []byte) (int, error) {
	str, from := false, 0
	for i := 0; i < len(p); i++ {
		switch {
		case str && p[i] == '\\':
			i++
		case p[i] == '"':
			str = !str
		case !str && p[i] == 'n':
			if _, err := n.w.Write(p[from:i]); err != nil {
				return 0, err
			}
			if _, err := n.w.Write([]byte("[]")); err != nil {
				return 0, err
			}
			i += len("null") - 1
			from = i + 1
		}
	}
	if _, err := n.w.Write(p[from:]); err != nil {
		return 0, err
	}
	return len(p), nil
}

func writeJSON(path string, v interface{}) {
	f, err := os.Create(path)
	if err != nil {
		fatalf("%v", err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	e := json.NewEncoder(noNull{w})
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		fatalf("%v", err)
	}
	if err := w.Flush(); err != nil {
		fatalf("%v", err)
	}
	if err := f.Close(); err != nil {
		fatalf("%v", err)
	}
}

// ---- guarded calls into the code under test -------------------------------

var (
	wdMu    sync.Mutex
	wdCalls = map[int]*wdCall{}
	wdNext  int
)

type wdCall struct {
	what  string
	start time.Time
}

const callLimit = 120 * time.Second

// watchdog ends the process when a call into the code under test hangs: the
// last line on stdout then says so (see bin/check).
func watchdog() {
	for {
		time.Sleep(time.Second)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		wdMu.Lock()
		for _, c := range wdCalls {
			if ms.HeapAlloc > 12<<30 {
				fmt.Printf("HANG out of memory in %s\n", clean(c.what))
				os.Exit(97)
			}
			if time.Since(c.start) > callLimit {
				fmt.Printf("HANG %s\n", clean(c.what))
				os.Stdout.Sync()
				os.Exit(97)
			}
		}
		wdMu.Unlock()
	}
}

// guard runs f and returns the panic it ended in, if any.
func guard(what string, f func()) (msg string) {
	wdMu.Lock()
	id := wdNext
	wdNext++
	wdCalls[id] = &wdCall{what: what, start: time.Now()}
	wdMu.Unlock()
	defer func() {
		wdMu.Lock()
		delete(wdCalls, id)
		wdMu.Unlock()
		if r := recover(); r != nil {
			msg = clean(fmt.Sprintf("panic: %v", r))
			if len(msg) > 200 {
				msg = msg[:200]
			}
			fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", what, r, debug.Stack())
		}
	}()
	f()
	return ""
}

// env of a run
type env struct {
	seed int64
	tier string
	out  string // directory for the output
	args []string
}

func (e env) thorough() bool { return e.tier == "thorough" }

// pick returns a for the quick tier and b for the thorough one.
func (e env) pick(a, b int) int {
	if e.thorough() {
		return b
	}
	return a
}

var modes = map[string]func(env){}

func main() {
	if len(os.Args) < 3 {
		fatalf("usage: driver MODE OUTDIR [ARGS]")
	}
	e := env{seed: 1, tier: os.Getenv("VERIF_TIER"), out: os.Args[2], args: os.Args[3:]}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fatalf("VERIF_SEED: %v", err)
		}
		e.seed = v
	}
	f, ok := modes[os.Args[1]]
	if !ok {
		fatalf("unknown mode %q", os.Args[1])
	}
	go watchdog()
	f(e)
}
