package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome/v2/cmd/lattice"
	"github.com/ikawaha/kagome/v2/cmd/sentence"
	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/cmd/tokenize"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() { modes["options"] = runOptions }

type optCase struct {
	cmd  string
	args []string
	ok   bool
	val  []string
	pos  []string
	argv []string // the whole command line, if the name is not given
}

func (c *optCase) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]interface{}{&c.cmd, &c.args, &c.ok, &c.val, &c.pos, &c.argv})
}

var optChecks = map[string]func([]string) error{
	"tokenize": tokenize.OptionCheck, "server": server.OptionCheck, "lattice": lattice.OptionCheck, "sentence": sentence.OptionCheck,
}

// what the usage message of a command has to mention
var usageFlags = map[string][]string{
	"tokenize": {"-file", "-dict", "-udict", "-sysdict", "-simple", "-mode", "-split", "-json"},
	"server":   {"-http", "-userdict", "-dict"},
	"lattice":  {"-udict", "-dict", "-mode", "-output", "-v"},
	"sentence": {"-file"},
}

func renderLines(t *tokenizer.Tokenizer, text string, mode tokenizer.TokenizeMode) string {
	var b strings.Builder
	for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		for _, x := range t.Analyze(l, mode) {
			if x.ID == tokenizer.BosEosID {
				continue
			}
			b.WriteString(x.Surface)
			if x.Class != tokenizer.DUMMY {
				b.WriteString("\t" + strings.Join(x.Features(), ","))
			}
			b.WriteString("\n")
		}
		b.WriteString("EOS\n")
	}
	return b.String()
}

// runOptions replays argument vectors generated from the specification: the
// option checks in this process, the executable for what is cheap to run.
func runOptions(e env) {
	r := rand.New(rand.NewSource(e.seed*37 + 1))
	bin := e.args[1]
	dir := filepath.Join(e.out, "files")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(dir)
	c := newCmdDict(r, dir, 0)
	text := "ab東京都。あ\nアン人い 01\n"
	writeFile(filepath.Join(dir, "in.txt"), []byte(text))
	l, err := net.Listen("tcp", "127.0.0.1:0") // taken: a server that gets this far fails quickly
	if err != nil {
		fatalf("%v", err)
	}
	defer l.Close()
	subst := strings.NewReplacer("@in", filepath.Join(dir, "in.txt"), "@dict", c.path, "@udict", c.upath, "@addr", l.Addr().String(), "@out", filepath.Join(dir, "out.dot"))
	var cases []optCase
	readLines(e.args[0], func(line []byte) {
		var o optCase
		if err := json.Unmarshal(line, &o); err != nil {
			fatalf("%v: %s", err, line)
		}
		cases = append(cases, o)
	})
	var rp replayer
	var mu sync.Mutex
	bad := func(o optCase, format string, a ...interface{}) {
		mu.Lock()
		rp.bad(clean("C20 "+fmt.Sprintf(format, a...)), map[string]interface{}{"command": o.cmd, "args": o.args, "command line": o.argv, "accepted": o.ok, "values": o.val})
		mu.Unlock()
	}
	good := func(o optCase) {
		mu.Lock()
		rp.ok(fmt.Sprintf("%s %q accepted=%v values=%q", o.cmd, o.args, o.ok, o.val))
		mu.Unlock()
	}
	slow := 0
	type job struct {
		o   optCase
		run bool
	}
	var jobs []job
	for _, o := range cases {
		var args []string
		for _, a := range o.args {
			args = append(args, subst.Replace(a))
		}
		o.args = args
		for i := range o.val {
			o.val[i] = subst.Replace(o.val[i])
		}
		for i := range o.pos {
			o.pos[i] = subst.Replace(o.pos[i])
		}
		for i := range o.argv {
			o.argv[i] = subst.Replace(o.argv[i])
		}
		if o.cmd == "version" {
			jobs = append(jobs, job{o, true})
			continue
		}
		var err error
		if msg := guard("OptionCheck", func() { err = optChecks[o.cmd](o.args) }); msg != "" {
			bad(o, "%s", msg)
			continue
		}
		if (err == nil) != o.ok {
			bad(o, "the option check of %s gives %v for %q", o.cmd, err, o.args)
			continue
		}
		j := job{o, true}
		switch {
		case !o.ok:
		case o.cmd == "tokenize" && o.val[1] == "" && o.val[3] != "":
			// the system dictionary has to be loaded
			j.run = r.Intn(60) == 0 && slow < e.pick(30, 150)
			slow++
		case o.cmd == "lattice" && o.val[1] != "":
			j.run = r.Intn(20) == 0 && slow < e.pick(60, 200) && o.val[1] == "ipa"
			slow++
		case o.cmd == "server":
			j.run = o.val[0] == l.Addr().String() && o.val[2] != "uni" && slow < e.pick(80, 250)
			slow++
		}
		if e.thorough() && !o.ok && len(o.args) == 3 && len(o.argv) == 0 {
			j.run = r.Intn(6) == 0
		}
		if o.cmd == "tokenize" && len(o.args) == 0 { // nothing at all on the command line
			j.run = true
			jobs = append(jobs, job{o, false})
		}
		if j.run {
			jobs = append(jobs, j)
		} else {
			good(o)
		}
	}
	seeds := make([]int64, len(jobs))
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	ranAccepted := 0
	parallel(len(jobs), func(i int) {
		r := rand.New(rand.NewSource(seeds[i]))
		o := jobs[i].o
		argv := append([]string{o.cmd}, o.args...)
		if !jobs[i].run {
			argv = nil
		} else if len(o.argv) > 0 {
			argv = o.argv
		} else if o.cmd == "tokenize" && r.Intn(2) == 0 {
			// without the name, unless the first argument is one
			if len(o.args) == 0 || (usageFlags[o.args[0]] == nil && o.args[0] != "version") {
				argv = o.args
			}
		}
		x := execute(bin, argv, [][]byte{[]byte(text)}, dir)
		if s := x.crashed(); s != "" {
			bad(o, "%s", s)
			return
		}
		if o.cmd == "version" {
			if x.exit != 0 || len(x.out)+len(x.err) == 0 {
				bad(o, "version: exit status %d", x.exit)
				return
			}
			good(o)
			return
		}
		if !o.ok {
			if x.exit != 1 {
				bad(o, "exit status %d for refused arguments", x.exit)
				return
			}
			if len(x.out) > 0 {
				bad(o, "output for refused arguments")
				return
			}
			for _, f := range append([]string{o.cmd + " "}, usageFlags[o.cmd]...) {
				if !bytes.Contains(x.err, []byte(f)) {
					bad(o, "the usage message does not mention %s", f)
					return
				}
			}
			good(o)
			return
		}
		mu.Lock()
		ranAccepted++
		mu.Unlock()
		switch o.cmd {
		case "sentence", "tokenize":
			file, missing := o.val[0], false
			if file != "" {
				_, err := os.Stat(file)
				missing = err != nil
			}
			if o.cmd == "tokenize" {
				for _, p := range []string{o.val[1], o.val[2]} {
					missing = missing || (p != "" && p != c.path && p != c.upath) || (p == c.upath && p == o.val[1]) || (p == c.path && p == o.val[2])
				}
				missing = missing || (o.val[1] == "" && o.val[3] == "")
			}
			in := text
			if file != "" && !missing {
				b, err := os.ReadFile(file)
				missing = err != nil
				in = string(b)
			}
			if missing {
				if x.exit != 1 || len(x.out) > 0 || len(x.err) == 0 {
					bad(o, "exit status %d for something that cannot be read", x.exit)
					return
				}
				break
			}
			if x.exit != 0 {
				bad(o, "exit status %d for accepted arguments", x.exit)
				return
			}
			if o.cmd == "tokenize" && in == text && o.val[6] == "false" {
				d, u := ipa.Dict(), c.u
				switch {
				case o.val[1] != "" && o.val[4] == "true":
					d = c.shrink
				case o.val[1] != "":
					d = c.d
				case o.val[4] == "true":
					d = ipa.DictShrink()
				}
				if o.val[2] == "" {
					u = nil
				}
				m := map[string]tokenizer.TokenizeMode{"search": tokenizer.Search, "extended": tokenizer.Extended}[o.val[5]]
				want := renderLines(mustTokenizer(d, u), in, m)
				if o.val[7] == "true" {
					v, err := scanJSON(x.out)
					if err != nil || len(v) != strings.Count(in, "\n") {
						bad(o, "no JSON with -json")
						return
					}
				} else if string(x.out) != want {
					bad(o, "the output is not that of the options given")
					return
				}
			}
		case "lattice":
			// an empty name, or a user dictionary that is not there
			if o.val[1] == "" || (o.val[0] != "" && o.val[0] != c.upath) {
				if x.exit != 1 || len(x.err) == 0 {
					bad(o, "exit status %d for a dictionary that cannot be had", x.exit)
					return
				}
				break
			}
			if x.exit != 0 {
				bad(o, "exit status %d for accepted arguments", x.exit)
				return
			}
			if (o.val[3] == "") != (len(x.out) > 0) {
				bad(o, "the graph goes to the wrong place")
				return
			}
			if (o.val[4] == "true") != (len(x.err) > 0) {
				bad(o, "verbose output in the wrong case")
				return
			}
		case "server":
			if x.exit != 1 || len(x.err) == 0 {
				bad(o, "exit status %d for an address in use", x.exit)
				return
			}
		}
		good(o)
	})
	// the server command serves on the address given: the default one cannot be tried safely
	{
		addr := freeAddr()
		cmd := exec.Command(bin, "server", "-http", addr)
		cmd.Dir = dir
		if err := cmd.Start(); err != nil {
			fatalf("%v", err)
		}
		o := optCase{cmd: "server", args: []string{"-http", addr}, ok: true}
		if !waitListening(addr, 60*time.Second) {
			bad(o, "server does not listen at the address given")
		} else {
			good(o)
		}
		cmd.Process.Signal(syscall.SIGTERM)
		cmd.Wait()
	}
	rp.finish(e)
	fmt.Printf("STATS executed=%d accepted_executed=%d\n", len(jobs), ranAccepted)
}

var lastPort atomic.Int32

// freeAddr finds an address to listen at, with a port that is not given to
// outgoing connections.
func freeAddr() string {
	for {
		p := 10000 + (int32(os.Getpid())*37+lastPort.Add(1))%20000
		addr := fmt.Sprintf("127.%d.%d.%d:%d", 1+os.Getpid()>>14&0x7f, 1+os.Getpid()>>7&0x7f, 1+os.Getpid()&0x7f, p)
		if probe(addr) {
			return addr
		}
	}
}

// probe tells whether an address can be listened at. It does not listen at it:
// processes that are being started have copies of all sockets for a moment, and
// would keep the address in use.
func probe(addr string) bool {
	a, err := net.ResolveTCPAddr("tcp4", addr)
	if err != nil {
		fatalf("%v", err)
	}
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		fatalf("%v", err)
	}
	defer syscall.Close(fd)
	syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
	return syscall.Bind(fd, &syscall.SockaddrInet4{Port: a.Port, Addr: [4]byte(a.IP.To4())}) == nil
}

func waitListening(addr string, limit time.Duration) bool {
	for end := time.Now().Add(limit); time.Now().Before(end); {
		c, err := net.DialTimeout("tcp", addr, time.Second)
		if err == nil {
			c.Close()
			return true
		}
		time.Sleep(20 * time.Millisecond)
	}
	return false
}
