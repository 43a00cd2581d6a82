package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() { modes["server"] = runServer }

type sEvent [2]interface{}

type recServer struct {
	Kind string   `json:"kind"`
	How  string   `json:"how"`
	Err  string   `json:"err"`
	Plan string   `json:"plan"`
	Note string   `json:"note"` // errors, for the reader only
	Ev   []sEvent `json:"ev"`
}

// life is one server, in this process or as an executable.
type life struct {
	mu     sync.Mutex
	rec    recServer
	addr   string
	cancel context.CancelFunc
	cmd    *exec.Cmd
	sig    os.Signal
	ret    chan int // 0: without error
	conns  map[int]*slowReq
	want   map[string]string
}

func (l *life) log(op string, x int) {
	l.mu.Lock()
	l.rec.Ev = append(l.rec.Ev, sEvent{op, x})
	l.mu.Unlock()
}

func (l *life) note(s string) {
	l.mu.Lock()
	l.rec.Note += clean(s) + "; "
	l.mu.Unlock()
}

var serverLimit = 60 * time.Second

// start starts a server; bin == "": in this process.
func startLife(kind, how, bin, addr string, sig os.Signal, want map[string]string, args ...string) *life {
	l := &life{rec: recServer{Kind: kind, How: how, Ev: []sEvent{}}, addr: addr, ret: make(chan int, 1), conns: map[int]*slowReq{}, sig: sig, want: want}
	args = append([]string{"-http", addr}, args...)
	l.log("start", 0)
	if bin == "" {
		ctx, cancel := context.WithCancel(context.Background())
		l.cancel = cancel
		go func() {
			var err error
			if msg := guardLong("server.Run", func() { err = server.Run(ctx, args) }); msg != "" {
				l.ret <- 99
				return
			}
			if err != nil {
				l.note("server.Run: " + err.Error())
				l.ret <- 1
				return
			}
			l.ret <- 0
		}()
		return l
	}
	l.cmd = exec.Command(bin, append([]string{"server"}, args...)...)
	if err := l.cmd.Start(); err != nil {
		fatalf("%v", err)
	}
	go func() {
		l.cmd.Wait()
		c := l.cmd.ProcessState.ExitCode()
		if c < 0 {
			c = 98 // by a signal
		}
		l.ret <- c
	}()
	return l
}

// guardLong is guard without the time limit of a call.
func guardLong(what string, f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = clean(fmt.Sprintf("panic: %v", r))
		}
	}()
	f()
	return ""
}

func (l *life) up() bool {
	if waitListening(l.addr, serverLimit) {
		l.log("up", 0)
		return true
	}
	l.log("down", 0)
	return false
}

func (l *life) stop() {
	l.log("stop", 0)
	if l.cmd != nil {
		l.cmd.Process.Signal(l.sig)
	} else {
		l.cancel()
	}
}

// again tells it to stop once more.
func (l *life) again(sig os.Signal) {
	l.log("stop", 0)
	if l.cmd != nil {
		l.cmd.Process.Signal(sig)
	} else {
		l.cancel()
	}
}

// waitClosed waits until connections are refused.
func (l *life) waitClosed() {
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		c, err := net.DialTimeout("tcp", l.addr, time.Second)
		if err != nil {
			l.log("closed", 0)
			return
		}
		c.Close()
	}
	l.log("open", 0)
}

// wait waits for the return and looks at the address afterwards.
func (l *life) wait() {
	select {
	case c := <-l.ret:
		l.log("return", c)
	case <-time.After(serverLimit):
		l.log("stuck", 0)
		if l.cmd != nil {
			l.cmd.Process.Kill()
		}
		return
	}
	if l.rec.Kind == "inuse" {
		return
	}
	for end := time.Now().Add(5 * time.Second); ; time.Sleep(20 * time.Millisecond) {
		if probe(l.addr) {
			l.log("free", 0)
			return
		}
		if time.Now().After(end) {
			l.log("busy", 0)
			return
		}
	}
}

// slowReq is a request whose body arrives late: the handler is known to run
// when it asks for the body.
type slowReq struct {
	c    net.Conn
	br   *bufio.Reader
	body string
	in   string
}

func (l *life) begin(r int, in string) {
	c, err := net.DialTimeout("tcp", l.addr, 10*time.Second)
	if err != nil {
		l.log("refused", r)
		return
	}
	b, _ := json.Marshal(map[string]string{"sentence": in})
	fmt.Fprintf(c, "POST /tokenize HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\nExpect: 100-continue\r\n\r\n", len(b))
	c.SetReadDeadline(time.Now().Add(30 * time.Second))
	br := bufio.NewReader(c)
	line, err := br.ReadString('\n')
	if err != nil || !strings.Contains(line, " 100 ") {
		c.Close()
		l.log("refused", r)
		return
	}
	br.ReadString('\n')
	k := len(b) / 2
	c.Write(b[:k])
	l.conns[r] = &slowReq{c: c, br: br, body: string(b[k:]), in: in}
	l.log("begin", r)
}

func (l *life) rest(r int) {
	q := l.conns[r]
	if q == nil {
		return
	}
	l.log("rest", r)
	io.WriteString(q.c, q.body)
	l.read(r)
}

// read reads the answer to r.
func (l *life) read(r int) {
	q := l.conns[r]
	q.c.SetReadDeadline(time.Now().Add(30 * time.Second))
	resp, err := http.ReadResponse(q.br, nil)
	if err != nil {
		l.log("cut", r)
		return
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	q.c.Close()
	if err != nil || resp.StatusCode != 200 || surfacesOf(b) != l.want[q.in] {
		l.log("cut", r)
		return
	}
	l.log("answer", r)
}

// surfacesOf reads the surfaces from an answer.
func surfacesOf(b []byte) string {
	var v struct {
		Status bool
		Tokens []struct{ Surface string }
	}
	if json.Unmarshal(b, &v) != nil || !v.Status {
		return "?"
	}
	var ret []string
	for _, t := range v.Tokens {
		ret = append(ret, t.Surface)
	}
	return strings.Join(ret, "|")
}

// quick makes a complete request.
func (l *life) quick(cl *http.Client, r int, in string) {
	b, _ := json.Marshal(map[string]string{"sentence": in})
	resp, err := cl.Post("http://"+l.addr+"/tokenize", "application/json", bytes.NewReader(b))
	if err != nil {
		l.note(err.Error())
		l.log("refused", r)
		return
	}
	l.log("begin", r)
	l.log("rest", r)
	x, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil || surfacesOf(x) != l.want[in] {
		l.log("cut", r)
		return
	}
	l.log("answer", r)
}

func runServer(e env) {
	log.SetOutput(io.Discard)
	server.Stderr = io.Discard
	r := rand.New(rand.NewSource(e.seed*41 + 3))
	bin := e.args[1]
	var plans [][][2]int
	readLines(e.args[0], func(line []byte) {
		var p [][2]int
		if err := json.Unmarshal(line, &p); err != nil {
			fatalf("%v", err)
		}
		plans = append(plans, p)
	})
	t := mustTokenizer(ipa.Dict(), nil, tokenizer.OmitBosEos())
	want := map[string]string{}
	var ins []string
	for _, s := range sentences {
		if s != "" && !strings.ContainsAny(s, "\xff\xfe\xe3\x00") || strings.Contains(s, "猫である") {
			var l []string
			for _, x := range t.Tokenize(s) {
				l = append(l, x.Surface)
			}
			want[s] = strings.Join(l, "|")
			ins = append(ins, s)
		}
	}
	long := strings.Repeat(ins[3], 400)
	{
		var l []string
		for _, x := range t.Tokenize(long) {
			l = append(l, x.Surface)
		}
		want[long] = strings.Join(l, "|")
		ins = append(ins, long)
	}
	huge := strings.Repeat(ins[3], 4000)
	{
		var l []string
		for _, x := range t.Tokenize(huge) {
			l = append(l, x.Surface)
		}
		want[huge] = strings.Join(l, "|")
	}
	var jobs []func() recServer
	seedOf := func() int64 { return r.Int63() }
	sigs := []os.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP}
	sigNames := []string{"SIGTERM", "SIGINT", "SIGHUP"}
	// plans of the specification
	follow := func(p [][2]int, binary string, sig int, seed int64) recServer {
		r := rand.New(rand.NewSource(seed))
		how := "cancelled"
		if binary != "" {
			how = sigNames[sig]
		}
		l := startLife("life", how, binary, freeAddr(), sigs[sig], want)
		l.rec.Plan = fmt.Sprint(p)
		if !l.up() {
			return l.rec
		}
		cl := &http.Client{Transport: &http.Transport{}, Timeout: 30 * time.Second}
		defer cl.CloseIdleConnections()
		if r.Intn(2) == 0 { // leaves an idle connection
			l.quick(cl, 100, ins[r.Intn(len(ins))])
		}
		for _, x := range p {
			switch x[0] {
			case 1:
				l.begin(x[1], ins[r.Intn(len(ins))])
			case 2:
				l.rest(x[1])
			case 3:
				l.stop()
				l.waitClosed()
				if r.Intn(2) == 0 {
					l.again(sigs[r.Intn(3)])
				}
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
				}
			}
		}
		l.wait()
		return l.rec
	}
	for i, p := range plans {
		p, seed := p, seedOf()
		if e.thorough() && len(p) > 6 && i%2 == 1 {
			continue
		}
		jobs = append(jobs, func() recServer { return follow(p, "", 0, seed) })
		if i%e.pick(2, 20) == 0 {
			sig := i / 2 % 3
			jobs = append(jobs, func() recServer { return follow(p, bin, sig, seed) })
		}
	}
	// many requests at once while it is told to stop
	for i := 0; i < e.pick(6, 40); i++ {
		seed := seedOf()
		i := i
		jobs = append(jobs, func() recServer {
			r := rand.New(rand.NewSource(seed))
			b, how := "", "cancelled"
			if i%3 == 2 {
				b, how = bin, sigNames[i%3]
			}
			l := startLife("life", how+" under load", b, freeAddr(), sigs[i%3], want)
			if !l.up() {
				return l.rec
			}
			n := 6 + r.Intn(10)
			for k := 1; k <= n; k++ {
				l.begin(k, ins[r.Intn(len(ins))])
			}
			l.stop()
			l.waitClosed()
			if r.Intn(2) == 0 {
				l.again(sigs[r.Intn(3)])
			}
			var wg sync.WaitGroup
			for k := 1; k <= n; k++ {
				wg.Add(1)
				go func(k int, d time.Duration) {
					defer wg.Done()
					time.Sleep(d)
					l.rest(k)
				}(k, time.Duration(r.Intn(400))*time.Millisecond)
			}
			wg.Wait()
			l.wait()
			return l.rec
		})
	}
	// the demo page is being made, by a renderer that takes its time, while it is told to stop
	for i, d := range []string{"2", "4", "1000"} {
		i, d := i, d
		jobs = append(jobs, func() recServer {
			home := filepath.Join(e.out, "files", "demo"+d)
			os.MkdirAll(home, 0o755)
			if err := os.WriteFile(filepath.Join(home, "dot"), []byte(fmt.Sprintf("#!/bin/sh\n/bin/cat >%[1]s/in.$$\n[ %[2]s = 1000 ] && exec /bin/sleep %[2]s\n/bin/sleep %[2]s\nprintf '<svg id=\"fig\"></svg>'\n", home, d)), 0o755); err != nil {
				fatalf("%v", err)
			}
			addr := freeAddr()
			l := &life{rec: recServer{Kind: "life", How: sigNames[i] + " while a page is made", Ev: []sEvent{}}, addr: addr, ret: make(chan int, 1), sig: sigs[i], want: want}
			l.log("start", 0)
			l.cmd = exec.Command(bin, "server", "-http", addr)
			l.cmd.Env = []string{"PATH=" + home, "HOME=" + home}
			l.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			if err := l.cmd.Start(); err != nil {
				fatalf("%v", err)
			}
			defer syscall.Kill(-l.cmd.Process.Pid, syscall.SIGKILL)
			go func() {
				l.cmd.Wait()
				c := l.cmd.ProcessState.ExitCode()
				if c < 0 {
					c = 98
				}
				l.ret <- c
			}()
			if !l.up() {
				return l.rec
			}
			page := make(chan string, 2)
			for k := 0; k < 2; k++ {
				go func() {
					cl := &http.Client{Timeout: 60 * time.Second}
					resp, err := cl.Get("http://" + addr + "/?lattice=1&s=%E7%8C%AB")
					if err != nil {
						page <- ""
						return
					}
					defer resp.Body.Close()
					b, err := io.ReadAll(resp.Body)
					if err != nil {
						b = nil
					}
					page <- string(b)
				}()
			}
			for end := time.Now().Add(30 * time.Second); ; time.Sleep(10 * time.Millisecond) {
				if m, _ := filepath.Glob(filepath.Join(home, "in.*")); len(m) == 2 {
					break
				}
				if time.Now().After(end) {
					l.log("down", 0)
					return l.rec
				}
			}
			for k := 1; k <= 2; k++ {
				l.log("begin", k)
				l.log("rest", k)
			}
			l.stop()
			l.waitClosed()
			for k := 1; k <= 2; k++ {
				if x := <-page; x == "" || (d != "1000") != strings.Contains(x, `<svg id="fig">`) || (d != "1000") == strings.Contains(x, "Error: ") {
					l.log("cut", k)
				} else {
					l.log("answer", k)
				}
			}
			l.wait()
			return l.rec
		})
	}
	// answers larger than what is under way at once, to a client that does not read while the server is told to stop
	for i := 0; i < 3; i++ {
		i := i
		jobs = append(jobs, func() recServer {
			b, how := "", "cancelled"
			if i == 2 {
				b, how = bin, sigNames[i]
			}
			l := startLife("life", how+" with an answer under way", b, freeAddr(), sigs[i%3], want)
			if !l.up() {
				return l.rec
			}
			for k := 1; k <= 3; k++ {
				l.begin(k, huge)
			}
			for k := 1; k <= 3; k++ {
				if q := l.conns[k]; q != nil {
					l.log("rest", k)
					io.WriteString(q.c, q.body)
				}
			}
			time.Sleep(1500 * time.Millisecond) // until answers are being written
			l.stop()
			l.waitClosed()
			time.Sleep(2 * time.Second)
			for k := 1; k <= 3; k++ {
				if l.conns[k] != nil {
					l.read(k)
				}
			}
			l.wait()
			return l.rec
		})
	}
	// requests one after the other, long after the start and with silence in between
	jobs = append(jobs, func() recServer {
		l := startLife("life", "cancelled late", "", freeAddr(), nil, want)
		if !l.up() {
			return l.rec
		}
		cl := &http.Client{Transport: &http.Transport{}, Timeout: 30 * time.Second}
		for k := 0; k < 6; k++ {
			l.quick(cl, 200+k, ins[k])
			time.Sleep(time.Duration(k) * 500 * time.Millisecond)
		}
		l.stop()
		l.wait()
		return l.rec
	})
	// the same address again and again in one process
	jobs = append(jobs, func() recServer {
		addr := freeAddr()
		var ev []sEvent
		var last recServer
		for k := 0; k < e.pick(6, 20); k++ {
			l := startLife("life", "restarted", "", addr, nil, want)
			if !l.up() {
				return l.rec
			}
			l.begin(1, ins[k%len(ins)])
			l.stop()
			l.waitClosed()
			l.rest(1)
			l.wait()
			last = l.rec
			ev = append(ev, l.rec.Ev...)
		}
		last.Ev = ev
		return last
	})
	// it cannot serve
	taken, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fatalf("%v", err)
	}
	defer taken.Close()
	go func() {
		for {
			c, err := taken.Accept()
			if err != nil {
				return
			}
			c.Close()
		}
	}()
	dir := filepath.Join(e.out, "files")
	os.MkdirAll(dir, 0o755)
	brokenU := filepath.Join(dir, "broken.txt")
	writeFile(brokenU, []byte("one,two\n"))
	for _, b := range []string{"", bin} {
		b := b
		jobs = append(jobs, func() recServer {
			l := startLife("inuse", "address in use", b, taken.Addr().String(), nil, want)
			l.wait()
			return l.rec
		})
		for _, a := range [][]string{{"-userdict", filepath.Join(dir, "none")}, {"-userdict", brokenU}, {"-dict", "xxx"}, {"-dict", ""}, {"x"}, {"-mode", "normal"}, {"-http", "256.0.0.1:x"}} {
			a := a
			jobs = append(jobs, func() recServer {
				l := startLife("invalid", strings.Join(a, " "), b, freeAddr(), nil, want, a...)
				l.wait()
				c, err := net.DialTimeout("tcp", l.addr, time.Second)
				if err == nil {
					c.Close()
					l.log("up", 0)
				}
				return l.rec
			})
		}
	}
	// told to stop while it is starting
	for i := 0; i < e.pick(12, 60); i++ {
		d := time.Duration(r.Intn(3000)) * time.Microsecond
		i := i
		jobs = append(jobs, func() recServer {
			b := ""
			if i%4 == 3 {
				b, d = bin, 200*time.Microsecond*d/time.Microsecond
			}
			l := startLife("early", "stopped early", b, freeAddr(), sigs[i%3], want)
			time.Sleep(d)
			l.stop()
			l.wait()
			return l.rec
		})
	}
	recs := make([]recServer, len(jobs))
	ipa.Dict()
	parallel(len(jobs), func(i int) { recs[i] = jobs[i]() })
	os.RemoveAll(dir)
	writeJSON(e.out+"/trace.json", struct {
		Recs []recServer `json:"recs"`
	}{recs})
	n := 0
	for _, x := range recs {
		n += len(x.Ev)
	}
	fmt.Printf("STATS lives=%d events=%d\n", len(recs), n)
}
