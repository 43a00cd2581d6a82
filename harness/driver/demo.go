package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"html"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() { modes["demo"] = runDemo }

type recDemo struct {
	Kind  string   `json:"kind"`
	Err   string   `json:"err"`
	Avail int      `json:"avail"`
	Prog  []string `json:"prog"`
	End   string   `json:"end"`
	Text  string   `json:"text"`
	Mode  string   `json:"mode"`
	Got   int      `json:"got"`
	Ms    int      `json:"ms"`
	Esc   int      `json:"esc"`
	Fails int      `json:"fails"`
	Cells []int    `json:"cells"`
	Want  []int    `json:"want"`
	Fig   int      `json:"fig"`
	Graph int      `json:"graph"`
	Lim   int      `json:"lim"`
	Left  int      `json:"left"`
}

type demoProg struct {
	acts []string
	end  string
}

func (p *demoProg) UnmarshalJSON(b []byte) error {
	var raw [2]json.RawMessage
	if err := json.Unmarshal(b, &raw); err != nil {
		return err
	}
	if err := json.Unmarshal(raw[0], &p.acts); err != nil {
		return err
	}
	return json.Unmarshal(raw[1], &p.end)
}

// script writes a renderer that does p; it keeps what it reads in dir.
func (p demoProg) script(r *rand.Rand, dir string) string {
	var b strings.Builder
	b.WriteString("#!/bin/sh\n")
	for _, a := range p.acts {
		switch a {
		case "readsome":
			b.WriteString("/usr/bin/head -c 10 >/dev/null\n")
		case "readall":
			fmt.Fprintf(&b, "/bin/cat >%s/in.$$\n", dir)
		case "svg":
			b.WriteString("printf '<?xml version=\"1.0\"?>\\n<!DOCTYPE svg PUBLIC \"x\">\\n<svg width=\"10pt\" id=\"fig-%d\"><g><svg></svg></g></svg>\\n' $$ 2>/dev/null\n")
		case "garbage":
			b.WriteString("printf '</table><td>x</td>\\377\\376 {{.}} %%s\\n<!-- ' 2>/dev/null\n")
		case "big":
			fmt.Fprintf(&b, "/bin/cat %s/big 2>/dev/null\n", dir)
		case "noise":
			fmt.Fprintf(&b, "/bin/cat %s/noise >&2\n", dir)
		case "closein":
			b.WriteString("exec <&-\n")
		case "closeout":
			b.WriteString("exec >&-\n")
		case "fork": // a child that holds all descriptors open
			b.WriteString("if (exec 3<&0) 2>/dev/null; then exec 3<&0; /bin/sleep 1000 <&3 & exec 3<&-; else /bin/sleep 1000 & fi\n")
		case "wait":
			b.WriteString("/bin/sleep 0.2\n")
		}
	}
	switch p.end {
	case "exit0":
		b.WriteString("exit 0\n")
	case "exit1":
		fmt.Fprintf(&b, "exit %d\n", 1+r.Intn(255))
	case "signal":
		fmt.Fprintf(&b, "kill -%s $$\n", []string{"KILL", "SEGV", "TERM", "HUP", "PIPE"}[r.Intn(5)])
	case "hang":
		b.WriteString("exec /bin/sleep 1000\n")
	}
	return b.String()
}

var (
	reTD   = regexp.MustCompile(`(?s)<td[^>]*>(.*?)</td>`)
	reArea = regexp.MustCompile(`(?s)<textarea[^>]*>(.*?)</textarea>`)
	reFig  = regexp.MustCompile(`<svg width="10pt" id="fig-(\d+)"><g><svg></svg></g></svg>`)
)

// diagnostic is what renderers say to their standard error, which is not shown.
const diagnostic = "something about the graph"

// lateOutput is what children of renderers print when their page has been answered or given up.
const lateOutput = "output for another page"

// shown reads an escaped text.
func shown(s string) (string, bool) {
	return html.UnescapeString(s), !strings.ContainsAny(s, "<>\"")
}

// demoServer is the executable with a renderer of its own.
type demoServer struct {
	addr, dir string
	cmd       *exec.Cmd
}

// demoWords is the user dictionary of the servers.
var demoWords string

func startDemo(bin, dir, path string) *demoServer {
	s := &demoServer{addr: freeAddr(), dir: dir}
	s.cmd = exec.Command(bin, "server", "-http", s.addr, "-userdict", demoWords)
	s.cmd.Env = []string{"PATH=" + path, "HOME=" + dir, "TMPDIR=" + dir}
	s.cmd.Dir = dir
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := s.cmd.Start(); err != nil {
		fatalf("%v", err)
	}
	return s
}

func (s *demoServer) stop() {
	syscall.Kill(-s.cmd.Process.Pid, syscall.SIGKILL)
	s.cmd.Wait()
}

func (s *demoServer) install(script string) {
	tmp := filepath.Join(s.dir, "dot.new")
	if err := os.WriteFile(tmp, []byte(script), 0o755); err != nil {
		fatalf("%v", err)
	}
	if err := os.Rename(tmp, filepath.Join(s.dir, "dot")); err != nil {
		fatalf("%v", err)
	}
}

// logged makes a renderer note its number first.
func (s *demoServer) logged(script string) string {
	return strings.Replace(script, "#!/bin/sh\n", fmt.Sprintf("#!/bin/sh\necho $$ >>%s/pids\n", s.dir), 1)
}

// left counts the renderers noted that have not ended, or are not waited for, when limit is over.
func (s *demoServer) left(limit time.Duration) int {
	for end := time.Now().Add(limit); ; time.Sleep(100 * time.Millisecond) {
		b, _ := os.ReadFile(filepath.Join(s.dir, "pids"))
		n := 0
		for _, pid := range strings.Fields(string(b)) {
			cwd, err := os.Readlink("/proc/" + pid + "/cwd")
			if err == nil && cwd == s.dir {
				n++
				continue
			}
			st, _ := os.ReadFile("/proc/" + pid + "/stat")
			if k := bytes.LastIndexByte(st, ')'); k >= 0 {
				if f := strings.Fields(string(st[k+1:])); len(f) > 1 && f[1] == strconv.Itoa(s.cmd.Process.Pid) {
					n++
				}
			}
		}
		if n == 0 || time.Now().After(end) {
			return n
		}
	}
}

func runDemo(e env) {
	bin := e.args[1]
	r := rand.New(rand.NewSource(e.seed*59 + 11))
	progs := map[string][]demoProg{}
	seen := map[string]bool{}
	total := 0
	readLines(e.args[0], func(line []byte) {
		if seen[string(line)] {
			return
		}
		seen[string(line)] = true
		var p demoProg
		if err := json.Unmarshal(line, &p); err != nil {
			fatalf("%v", err)
		}
		progs[p.end] = append(progs[p.end], p)
		total++
	})
	root, err := filepath.Abs(filepath.Join(e.out, "files"))
	if err != nil {
		fatalf("%v", err)
	}
	os.MkdirAll(root, 0o755)
	defer os.RemoveAll(root)
	demoWords = filepath.Join(root, "words.txt")
	writeFile(demoWords, []byte("夢見鳥,夢見鳥,ユメミドリ,\n<b>鳥</b>,<b> 鳥 </b>,x y z,<i>名\"\n花見&amp;鳥,花見&amp; 鳥,ハナミ ドリ,*\n"))
	words, err := dict.NewUserDict(demoWords)
	if err != nil {
		fatalf("%v", err)
	}
	t := mustTokenizer(ipa.Dict(), words, tokenizer.OmitBosEos())
	in := &interner{m: map[string]int{}}

	texts := []string{"", "</td><td>猫</td>", "<script>alert('猫')</script>", "\"'&amp;<!-- -->", "{{.Sentence}}", "&lt;b&gt;猫です&#34;", "</textarea><b>x</b>"}
	for _, s := range sentences {
		s = without0(strings.ToValidUTF8(s, "?"))
		texts = append(texts, s)
	}
	for i := 0; i < 40; i++ {
		texts = append(texts, without0(strings.ToValidUTF8(realInput(r), "?")))
	}
	texts = append(texts, "夢見鳥", "夢見鳥と<b>鳥</b>と花見&amp;鳥と夢見鳥", "<b>鳥</b>")
	texts = append(texts, " 猫 ", "\n猫\n", "　犬　", "\t", " ")
	long := strings.ReplaceAll(strings.Repeat("すもももももももものうち、関西国際空港。", 60), "。", "。")
	modesOf := []string{"Normal", "Search", "Extended", "", "<b>", "search"}
	cl := &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 64}, Timeout: 60 * time.Second}

	var mu sync.Mutex
	recs := []recDemo{}
	put := func(x recDemo) {
		if x.Lim == 0 {
			x.Lim = 45000
		}
		mu.Lock()
		recs = append(recs, x)
		mu.Unlock()
	}
	// ask requests a page and reads it.
	ask := func(r *rand.Rand, s *demoServer, rec recDemo) {
		v := url.Values{"s": {rec.Text}, "r": {rec.Mode}}
		if rec.Mode == "" {
			v.Del("r")
		}
		if rec.Kind == "lattice" {
			v.Set("lattice", []string{"Lattice", "1", "on"}[r.Intn(3)])
		}
		u := "http://" + s.addr + []string{"/", "/_demo"}[r.Intn(2)]
		t0 := time.Now()
		var resp *http.Response
		var err error
		if r.Intn(2) == 0 {
			resp, err = cl.PostForm(u, v)
		} else {
			resp, err = cl.Get(u + "?" + v.Encode())
		}
		rec.Cells, rec.Want = []int{}, []int{}
		rec.Graph = 2
		if rec.Prog == nil {
			rec.Prog = []string{}
		}
		if err == nil {
			var b []byte
			b, err = io.ReadAll(resp.Body)
			resp.Body.Close()
			if err == nil {
				rec.Got = 1
			}
			rec.Ms = int(time.Since(t0).Milliseconds())
			page := string(b)
			if rec.Kind == "form" {
				if m := reArea.FindAllStringSubmatch(page, -1); len(m) == 1 {
					if x, ok := shown(m[0][1]); ok && strings.TrimSpace(x) == strings.TrimSpace(rec.Text) {
						rec.Esc = 1
					}
				}
				put(rec)
				return
			}
			head := page
			if k := strings.Index(page, `<div id="graph"`); k >= 0 {
				head = page[:k]
			}
			if strings.Contains(page, "Error: ") {
				rec.Fails = 1
			}
			rec.Esc = 1
			for i, m := range reTD.FindAllStringSubmatch(head, -1) {
				x, ok := shown(m[1])
				x = strings.TrimSpace(x)
				if !ok {
					rec.Esc = 0
				}
				if i < 2 {
					if want := strings.TrimSpace([]string{rec.Text, rec.Mode}[i]); x != want {
						rec.Esc = 0
					}
					continue
				}
				rec.Cells = append(rec.Cells, in.num(x))
			}
			if strings.Contains(head, "<script>alert") || strings.Contains(page, diagnostic) || strings.Contains(page, lateOutput) {
				rec.Esc = 0
			}
			if m := reFig.FindStringSubmatch(page); m != nil {
				rec.Fig = 1
				file := filepath.Join(s.dir, "in."+m[1])
				if g, err := os.ReadFile(file); err == nil {
					os.Remove(file)
					rec.Graph = 0
					mode := tokenizer.Normal
					if rec.Mode == "Search" || rec.Mode == "Extended" {
						mode = tokenizer.Search
					}
					var w bytes.Buffer
					t.AnalyzeGraph(&w, rec.Text, mode)
					if graphDigest(string(g)) == graphDigest(w.String()) {
						rec.Graph = 1
					}
				}
			} else if rec.End == "exit0" && rec.Avail == 1 && len(rec.Prog) == 2 && rec.Prog[1] == "svg" && strings.Contains(page, "<svg") {
				rec.Fig = 1 // of the real renderer
			}
		} else {
			rec.Ms = int(time.Since(t0).Milliseconds())
		}
		mode := tokenizer.Normal
		if rec.Mode == "Search" || rec.Mode == "Extended" {
			mode = tokenizer.Search
		}
		cell := func(s string, ok bool) {
			if !ok {
				s = "*"
			}
			rec.Want = append(rec.Want, in.num(strings.TrimSpace(s)))
		}
		for _, x := range t.Analyze(rec.Text, mode) {
			cell(x.Surface, true)
			pos := strings.Join(x.POS(), ",")
			cell(pos, pos != "")
			cell(x.BaseForm())
			cell(x.Reading())
			cell(x.Pronunciation())
		}
		put(rec)
	}
	remain := func(s *demoServer, end string) {
		put(recDemo{Kind: "left", Avail: 1, Prog: []string{}, End: end, Cells: []int{}, Want: []int{}, Lim: 10000, Left: s.left(10 * time.Second)})
	}
	newDir := func(name string) string {
		d := filepath.Join(root, name)
		os.MkdirAll(d, 0o755)
		writeFile(filepath.Join(d, "big"), bytes.Repeat([]byte("some text without an end\n"), 80000))
		writeFile(filepath.Join(d, "noise"), bytes.Repeat([]byte("<b>Warning</b>: "+diagnostic+"\n"), 40000))
		return d
	}
	pickText := func(r *rand.Rand) string {
		if r.Intn(10) == 0 {
			return long
		}
		return texts[r.Intn(len(texts))]
	}
	meanwhile := func(r *rand.Rand, s *demoServer, d time.Duration) {
		time.Sleep(d)
		if r.Intn(3) == 0 {
			ask(r, s, recDemo{Kind: "form", Avail: 1, Text: texts[r.Intn(len(texts))], Mode: modesOf[r.Intn(len(modesOf))], End: "meanwhile"})
			return
		}
		text := texts[1+r.Intn(len(texts)-1)]
		b, _ := json.Marshal(map[string]string{"sentence": text})
		rec := recDemo{Kind: "other", Prog: []string{}, End: "meanwhile", Text: text, Cells: []int{}, Want: []int{}, Graph: 2, Esc: 1}
		t0 := time.Now()
		resp, err := cl.Post("http://"+s.addr+"/tokenize", "application/json", bytes.NewReader(b))
		if err == nil {
			b, err := io.ReadAll(resp.Body)
			resp.Body.Close()
			var l []string
			for _, x := range t.Tokenize(text) {
				l = append(l, x.Surface)
			}
			if err == nil && surfacesOf(b) == strings.Join(l, "|") && time.Since(t0) < 20*time.Second {
				rec.Got = 1
			}
		}
		rec.Ms = int(time.Since(t0).Milliseconds())
		put(rec)
	}

	var wg sync.WaitGroup
	background := func(f func(r *rand.Rand)) {
		seed := r.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			f(rand.New(rand.NewSource(seed)))
		}()
	}
	up := func(s *demoServer) {
		if !waitListening(s.addr, 100*time.Second) {
			broken("the server does not start")
		}
	}
	// renderers that end: one after the other
	var ending []demoProg
	forking := map[string][]demoProg{}
	for _, k := range []string{"exit0", "exit1", "signal"} {
		for _, p := range progs[k] {
			if strings.Contains(strings.Join(p.acts, " "), "fork") {
				forking[k] = append(forking[k], p)
			} else {
				ending = append(ending, p)
			}
		}
	}
	r.Shuffle(len(ending), func(i, j int) { ending[i], ending[j] = ending[j], ending[i] })
	const lanes = 4
	for l := 0; l < lanes; l++ {
		l := l
		background(func(r *rand.Rand) {
			d := newDir(fmt.Sprintf("seq%d", l))
			s := startDemo(bin, d, d)
			defer s.stop()
			up(s)
			for i := l; i < len(ending); i += lanes {
				p := ending[i]
				s.install(p.script(r, d))
				ask(r, s, recDemo{Kind: "lattice", Avail: 1, Prog: p.acts, End: p.end, Text: pickText(r), Mode: modesOf[r.Intn(len(modesOf))]})
			}
		})
	}
	// renderers that are good, all the time, for all texts
	background(func(r *rand.Rand) {
		d := newDir("good")
		s := startDemo(bin, d, d)
		defer s.stop()
		p := demoProg{acts: []string{"readall", "svg"}, end: "exit0"}
		s.install(p.script(r, d))
		up(s)
		parallel(len(texts)*e.pick(2, 12), func(i int) {
			r := rand.New(rand.NewSource(e.seed + int64(i)))
			ask(r, s, recDemo{Kind: "lattice", Avail: 1, Prog: p.acts, End: p.end, Text: texts[i%len(texts)], Mode: modesOf[r.Intn(len(modesOf))]})
			if i%2 == 0 {
				ask(r, s, recDemo{Kind: "form", Avail: 1, Text: texts[i%len(texts)], Mode: modesOf[r.Intn(len(modesOf))]})
			}
		})
	})
	// the real one
	if path, err := exec.LookPath("dot"); err == nil && exec.Command(path, "-V").Run() == nil {
		background(func(r *rand.Rand) {
			s := startDemo(bin, newDir("real"), os.Getenv("PATH"))
			defer s.stop()
			up(s)
			for i := 0; i < e.pick(8, 40); i++ {
				x := texts[i%len(texts)]
				if len(x) > 60 {
					x = strings.ToValidUTF8(x[:60], "")
				}
				ask(r, s, recDemo{Kind: "lattice", Avail: 1, Prog: []string{"readall", "svg"}, End: "exit0", Text: x, Mode: modesOf[r.Intn(3)]})
			}
		})
	}
	// no renderer
	for k := 0; k < 5; k++ {
		k := k
		background(func(r *rand.Rand) {
			d := newDir(fmt.Sprintf("none%d", k))
			path := d
			switch k {
			case 1: // a directory
				os.MkdirAll(filepath.Join(d, "dot"), 0o755)
			case 2: // not executable
				writeFile(filepath.Join(d, "dot"), []byte("#!/bin/sh\n"))
			case 3: // cannot be executed
				os.WriteFile(filepath.Join(d, "dot"), []byte("\x7fELF nothing"), 0o755)
			case 4:
				os.WriteFile(filepath.Join(d, "dot"), []byte("#!/no/such/interpreter\n"), 0o755)
			}
			s := startDemo(bin, d, path)
			defer s.stop()
			up(s)
			for i := 0; i < 4; i++ {
				ask(r, s, recDemo{Kind: "lattice", Avail: 0, End: "none", Text: pickText(r), Mode: modesOf[r.Intn(len(modesOf))]})
				meanwhile(r, s, 0)
			}
		})
	}
	// renderers that never end or leave children behind: all at once, with other requests meanwhile
	for _, end := range []string{"hang", "exit0", "exit1"} {
		end, ps := end, progs["hang"]
		if end == "exit0" {
			ps = forking[end]
		} else if end == "exit1" {
			ps = append(append([]demoProg{}, forking["exit1"]...), forking["signal"]...)
		}
		background(func(r *rand.Rand) {
			d := newDir("hang-" + end)
			acts := []string{}
			if end != "hang" {
				acts = append(acts, "fork")
			}
			for i, p := range ps {
				writeFile(filepath.Join(d, fmt.Sprintf("h%d", i)), []byte(p.script(r, d)))
			}
			s := startDemo(bin, d, d)
			defer s.stop()
			s.install(s.logged(fmt.Sprintf("#!/bin/sh\nexec /bin/sh %s/h$(( $$ %% %d ))\n", d, len(ps))))
			up(s)
			n := e.pick(60, 300)
			var in sync.WaitGroup
			for i := 0; i < n; i++ {
				in.Add(1)
				seed, text := r.Int63(), pickText(r)
				if i%4 == 0 {
					text = long
				}
				go func() {
					defer in.Done()
					r := rand.New(rand.NewSource(seed))
					ask(r, s, recDemo{Kind: "lattice", Avail: 1, Prog: acts, End: end, Text: text, Mode: modesOf[r.Intn(len(modesOf))]})
				}()
			}
			for i := 0; i < 40; i++ {
				meanwhile(r, s, 100*time.Millisecond)
			}
			in.Wait()
			remain(s, end)
		})
	}
	// a renderer that hangs for some graphs only: the others do not wait for them
	background(func(r *rand.Rand) {
		d := newDir("mixed")
		s := startDemo(bin, d, d)
		defer s.stop()
		const marker = "とまれ"
		p := demoProg{acts: []string{"readall", "svg"}, end: "exit0"}
		s.install(strings.Replace(s.logged(p.script(r, d)), "printf", fmt.Sprintf("if /bin/grep -q %s %s/in.$$; then exec /bin/sleep 1000; fi\nprintf", marker, d), 1))
		up(s)
		var in sync.WaitGroup
		for i := 0; i < e.pick(6, 20); i++ {
			in.Add(1)
			seed := r.Int63()
			go func() {
				defer in.Done()
				r := rand.New(rand.NewSource(seed))
				ask(r, s, recDemo{Kind: "lattice", Avail: 1, End: "hang", Text: "犬がとまれとまれとまれ", Mode: modesOf[r.Intn(3)]})
			}()
		}
		time.Sleep(time.Second)
		for i := 0; i < 12; i++ {
			ask(r, s, recDemo{Kind: "lattice", Avail: 1, Prog: p.acts, End: p.end, Text: texts[r.Intn(len(texts))], Mode: modesOf[r.Intn(len(modesOf))], Lim: 15000})
		}
		in.Wait()
		remain(s, "hang")
	})
	// pages that are given up while their renderers hang
	background(func(r *rand.Rand) {
		d := newDir("gone")
		ps := progs["hang"]
		for i, p := range ps {
			writeFile(filepath.Join(d, fmt.Sprintf("h%d", i)), []byte(p.script(r, d)))
		}
		s := startDemo(bin, d, d)
		defer s.stop()
		s.install(s.logged(fmt.Sprintf("#!/bin/sh\nexec /bin/sh %s/h$(( $$ %% %d ))\n", d, len(ps))))
		up(s)
		var in sync.WaitGroup
		for i := 0; i < e.pick(24, 100); i++ {
			in.Add(1)
			v := url.Values{"s": {pickText(r)}, "r": {modesOf[r.Intn(3)]}, "lattice": {"1"}}
			post, wait := i%2 == 0, time.Duration(300+r.Intn(1500))*time.Millisecond
			go func() {
				defer in.Done()
				ctx, cancel := context.WithTimeout(context.Background(), wait)
				defer cancel()
				req, _ := http.NewRequestWithContext(ctx, http.MethodGet, "http://"+s.addr+"/?"+v.Encode(), nil)
				if post {
					req, _ = http.NewRequestWithContext(ctx, http.MethodPost, "http://"+s.addr+"/_demo", strings.NewReader(v.Encode()))
					req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
				}
				if resp, err := cl.Do(req); err == nil {
					io.Copy(io.Discard, resp.Body)
					resp.Body.Close()
				}
			}()
		}
		in.Wait()
		remain(s, "gone")
		meanwhile(r, s, 0)
	})
	// children of renderers that go on printing when their pages have been given up: the pages after them
	background(func(r *rand.Rand) {
		d := newDir("late")
		s := startDemo(bin, d, d)
		defer s.stop()
		const marker = "とまれ"
		p := demoProg{acts: []string{"readall", "svg"}, end: "exit0"}
		s.install(strings.Replace(p.script(r, d), "printf", fmt.Sprintf("if /bin/grep -q %s %s/in.$$; then\n(n=0; while [ $n -lt 120 ]; do printf '%s<b>\\n' 2>/dev/null || exit; /bin/sleep 0.05; n=$((n+1)); done) &\nexec /bin/sleep 1000\nfi\nprintf", marker, d, lateOutput), 1))
		up(s)
		for round := 0; round < e.pick(2, 6); round++ {
			var gone, in sync.WaitGroup
			for i := 0; i < 8; i++ {
				gone.Add(1)
				go func() {
					defer gone.Done()
					ctx, cancel := context.WithTimeout(context.Background(), 800*time.Millisecond)
					defer cancel()
					v := url.Values{"s": {marker}, "r": {"Normal"}, "lattice": {"1"}}
					req, _ := http.NewRequestWithContext(ctx, http.MethodGet, "http://"+s.addr+"/?"+v.Encode(), nil)
					if resp, err := cl.Do(req); err == nil {
						io.Copy(io.Discard, resp.Body)
						resp.Body.Close()
					}
				}()
			}
			gone.Wait()
			for k := 0; k < 6; k++ {
				in.Add(1)
				seed := r.Int63()
				go func() {
					defer in.Done()
					r := rand.New(rand.NewSource(seed))
					for i := 0; i < 12; i++ {
						ask(r, s, recDemo{Kind: "lattice", Avail: 1, Prog: p.acts, End: p.end, Text: texts[r.Intn(len(texts))], Mode: modesOf[r.Intn(len(modesOf))]})
						time.Sleep(time.Duration(r.Intn(200)) * time.Millisecond)
					}
				}()
			}
			in.Wait()
		}
	})
	// a renderer that takes its time and succeeds, for several pages at once
	background(func(r *rand.Rand) {
		d := newDir("slow")
		s := startDemo(bin, d, d)
		defer s.stop()
		p := demoProg{acts: []string{"readall", "wait", "svg"}, end: "exit0"}
		s.install(strings.Replace(p.script(r, d), "/bin/sleep 0.2", "/bin/sleep 10", 1))
		up(s)
		var in sync.WaitGroup
		for i := 0; i < 8; i++ {
			in.Add(1)
			seed, text := r.Int63(), texts[r.Intn(len(texts))]
			go func() {
				defer in.Done()
				r := rand.New(rand.NewSource(seed))
				ask(r, s, recDemo{Kind: "lattice", Avail: 1, Prog: p.acts, End: p.end, Text: text, Mode: modesOf[r.Intn(len(modesOf))]})
			}()
		}
		in.Wait()
	})
	wg.Wait()
	writeJSON(e.out+"/trace.json", struct {
		Recs []recDemo `json:"recs"`
	}{recs})
	slow := 0
	for _, x := range recs {
		if x.Ms > slow {
			slow = x.Ms
		}
	}
	fmt.Printf("STATS pages=%d programs=%d slowest_ms=%d\n", len(recs), total, slow)
}
