package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
	"unicode/utf16"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome-dict/uni"
	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() { modes["api"] = runAPI }

type apiForm [4]string // k, s, m, x

type apiEx struct {
	Q      apiForm `json:"q"`
	T      int     `json:"t"` // from 1
	Gone   int     `json:"gone"`
	Ok     int     `json:"ok"`
	Code   int     `json:"code"`
	Status int     `json:"status"`
	HasTok int     `json:"hastok"`
	HasErr int     `json:"haserr"`
	Toks   []int   `json:"toks"`
}

type recAPI struct {
	Srv int     `json:"srv"`
	How string  `json:"how"`
	Err string  `json:"err"`
	Ex  []apiEx `json:"ex"`
}

// interner numbers strings.
type interner struct {
	mu sync.Mutex
	m  map[string]int
}

func (in *interner) num(s string) int {
	in.mu.Lock()
	defer in.mu.Unlock()
	if n, ok := in.m[s]; ok {
		return n
	}
	n := len(in.m) + 1
	in.m[s] = n
	return n
}

// jsonString writes s as a JSON string in one of several ways.
func jsonString(r *rand.Rand, s string) string {
	style := r.Intn(4)
	if style == 0 {
		b, _ := json.Marshal(s)
		return string(b)
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case style == 2 || c < 0x20 || style == 3 && r.Intn(3) == 0:
			if c > 0xffff {
				x, y := utf16.EncodeRune(c)
				fmt.Fprintf(&b, "\\u%04x\\u%04X", x, y)
			} else {
				fmt.Fprintf(&b, "\\u%04x", c)
			}
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c == '/' && style == 3:
			b.WriteString("\\/")
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func apiBody(r *rand.Rand, q apiForm, text string) string {
	sp := func() string { return []string{"", "", " ", "\n", "\t ", "\r\n"}[r.Intn(6)] }
	other := func(kind string) string {
		switch kind {
		case "null":
			return "null"
		case "number":
			return []string{"1", "-2.5e3", "0"}[r.Intn(3)]
		case "array":
			return []string{"[]", `["sentence"]`, `[{"sentence":"x"}]`}[r.Intn(3)]
		case "bool":
			return []string{"true", "false"}[r.Intn(2)]
		case "object":
			return []string{"{}", `{"sentence":"x"}`}[r.Intn(2)]
		}
		return ""
	}
	switch q[0] {
	case "object":
		var m []string
		add := func(key, val string) { m = append(m, sp()+`"`+key+`"`+sp()+":"+sp()+val+sp()) }
		switch q[1] {
		case "absent":
		case "empty":
			add("sentence", `""`)
		case "text":
			add("sentence", jsonString(r, text))
		default:
			add("sentence", other(q[1]))
		}
		switch q[2] {
		case "absent":
		case "empty":
			add("mode", `""`)
		case "junk":
			add("mode", jsonString(r, []string{"Searc", "Search ", " Extended", "normal", "2", "Ｓｅａｒｃｈ", text}[r.Intn(7)]))
		case "null", "number", "array", "bool":
			add("mode", other(q[2]))
		default:
			add("mode", jsonString(r, q[2]))
		}
		if q[3] == "1" {
			add("x"+fmt.Sprint(r.Intn(9)), []string{`{"sentence":"x","mode":["Search"]}`, `[1,2,[3]]`, `null`, `"` + strings.Repeat("x", r.Intn(5000)) + `"`, "1e5"}[r.Intn(5)])
			if r.Intn(2) == 0 {
				add([]string{"tokens", "status", "text", "sentences", "Modes"}[r.Intn(5)], `"no"`)
			}
		}
		r.Shuffle(len(m), func(i, j int) { m[i], m[j] = m[j], m[i] })
		return sp() + "{" + strings.Join(m, ",") + sp() + "}" + sp()
	case "string":
		return jsonString(r, text)
	case "nothing":
		return ""
	case "blank":
		return " \n\t"[:1+r.Intn(3)]
	case "cut":
		return []string{`{"sentence":"` + strings.ReplaceAll(strings.ReplaceAll(without0(clean(text)), `"`, ""), `\`, "") + `"`, `{"sentence":`, `{`, `{"sentence":"a",`, `{"sentence":"\u00`}[r.Intn(5)]
	case "openstring":
		return `{"sentence":"` + "\n" + `"}`
	case "garbage":
		return []string{"sentence=abc", "<a>", `{'sentence':'a'}`, `{"sentence":"a"]`, "\"\\x\"", "nul", "%", "猫", `{"sentence" "a"}`, `{sentence:"a"}`, "\\\"'\n"}[r.Intn(11)]
	}
	return other(q[0])
}

// structField is the part of a message that names the fields of a Go structure.
var structField = regexp.MustCompile(` into Go (value|struct field [^ ]*)`)

// decodeFailure says why a body cannot be decoded, by either of the functions
// of the JSON package.
func decodeFailure(body string) []string {
	var q struct {
		Input string `json:"sentence"`
		Mode  string `json:"mode"`
	}
	var ret []string
	for _, err := range []error{json.NewDecoder(strings.NewReader(body)).Decode(&q), json.Unmarshal([]byte(body), &q)} {
		if err == nil {
			return nil
		}
		s := structField.ReplaceAllString(err.Error(), "")
		if k := strings.Index(s, " of type"); k > 0 {
			s = s[:k]
		}
		ret = append(ret, s)
	}
	return ret
}

// padded makes a body longer without changing what it says.
func padded(r *rand.Rand, body string, n int) string {
	t := strings.TrimLeft(body, " \t\r\n")
	if !strings.HasPrefix(t, "{") || r.Intn(2) == 0 {
		return strings.Repeat(" \n", n/2) + body
	}
	t = t[1:]
	sep := ","
	if strings.HasPrefix(strings.TrimLeft(t, " \t\r\n"), "}") {
		sep = ""
	}
	return `{"padding":"` + strings.Repeat("猫", n/3) + `"` + sep + t
}

// apiAnswer reads an answer to a request.
func apiAnswer(in *interner, ex *apiEx, req string, code int, body []byte, err error) {
	ex.Code = code
	ex.Toks = []int{}
	if err != nil {
		return
	}
	var v map[string]json.RawMessage
	if json.Unmarshal(body, &v) != nil {
		return
	}
	var st bool
	if json.Unmarshal(v["status"], &st) != nil || string(v["status"]) == "null" {
		return
	}
	if st {
		ex.Status = 1
	}
	if t, ok := v["tokens"]; ok {
		var l []json.RawMessage
		if json.Unmarshal(t, &l) != nil || l == nil {
			return
		}
		ex.HasTok = 1
		for _, x := range l {
			s, err := normalJSON(x)
			if err != nil {
				return
			}
			ex.Toks = append(ex.Toks, in.num(s))
		}
	}
	if t, ok := v["error"]; ok {
		var s string
		if json.Unmarshal(t, &s) != nil {
			return
		}
		// the message is that of the JSON package for this body
		if s != "" {
			ex.HasErr = 2
			fs := decodeFailure(req)
			for _, f := range fs {
				if strings.Contains(structField.ReplaceAllString(s, ""), f) {
					ex.HasErr = 1
				}
			}
			if fs == nil {
				ex.HasErr = 1
			}
		}
	}
	ex.Ok = 1
}

type apiServer struct {
	addr  string
	stop  func()
	t     *tokenizer.Tokenizer
	canon [][3][]int
}

// rawRequest is a request as it goes over the wire.
func rawRequest(r *rand.Rand, body string) string {
	method := []string{"POST", "POST", "POST", "PUT", "PUT", "PUT", "GET", "PATCH", "DELETE"}[r.Intn(9)]
	ct := []string{"", "Content-Type: application/json\r\n", "Content-Type: application/x-www-form-urlencoded; charset=UTF-8\r\n", "Content-Type: text/plain\r\n"}[r.Intn(4)]
	if r.Intn(3) > 0 {
		return fmt.Sprintf("%s /tokenize HTTP/1.1\r\nHost: x\r\n%sContent-Length: %d\r\n\r\n%s", method, ct, len(body), body)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s /tokenize HTTP/1.1\r\nHost: x\r\n%sTransfer-Encoding: chunked\r\n\r\n", method, ct)
	for body != "" {
		k := 1 + r.Intn(len(body))
		fmt.Fprintf(&b, "%x\r\n%s\r\n", k, body[:k])
		body = body[k:]
	}
	b.WriteString("0\r\n\r\n")
	return b.String()
}

func runAPI(e env) {
	log.SetOutput(io.Discard)
	server.Stderr = io.Discard
	race := len(e.args) > 2
	r := rand.New(rand.NewSource(e.seed*53 + 7))
	bin := e.args[1]
	var pairs [][]apiForm
	readLines(e.args[0], func(line []byte) {
		var raw [][4]interface{}
		if err := json.Unmarshal(line, &raw); err != nil {
			fatalf("%v", err)
		}
		var p []apiForm
		for _, x := range raw {
			p = append(p, apiForm{fmt.Sprint(x[0]), fmt.Sprint(x[1]), fmt.Sprint(x[2]), fmt.Sprint(x[3])})
		}
		pairs = append(pairs, p)
	})
	var forms []apiForm
	seenForm := map[apiForm]bool{}
	var texty []apiForm
	for _, p := range pairs {
		for _, q := range p {
			if !seenForm[q] {
				seenForm[q] = true
				forms = append(forms, q)
				if q[0] == "object" && q[1] == "text" && q[2] != "number" && q[2] != "array" {
					texty = append(texty, q)
				}
			}
		}
	}
	// the texts
	var texts []string
	add := func(s string) {
		s = strings.ToValidUTF8(s, "\uFFFD")
		if s != "" {
			texts = append(texts, s)
		}
	}
	for _, s := range sentences {
		add(s)
	}
	add("<script>alert(\"猫\")</script>&amp;\u2028\u2029\u0001\x7f")
	add("{\"status\":false,\"error\":\"x\"}")
	for i := 0; i < e.pick(60, 400); i++ {
		add(realInput(r))
	}
	short := len(texts)
	for i := 0; i < e.pick(4, 12); i++ {
		var b strings.Builder
		for n := 1500 + r.Intn(3000); b.Len() < 3*n; {
			b.WriteString(strings.ToValidUTF8(realInput(r), ""))
		}
		add(b.String())
	}
	if !race {
		add(strings.Repeat("あ。猫が", 4000))
	}

	// the servers
	dir := filepath.Join(e.out, "files")
	os.MkdirAll(dir, 0o755)
	upath := filepath.Join(dir, "u.txt")
	writeFile(upath, []byte("関西国際空港,関西 国際 空港,カンサイ コクサイ クウコウ,カスタム名詞\nももも,ももも,モモモ,カスタム\n猫,猫,ニャー,動物\n。,。,マル,点\n<script>,<script>,x,<b>\n"))
	u, err := dict.NewUserDict(upath)
	if err != nil {
		fatalf("%v", err)
	}
	in := &interner{m: map[string]int{}}
	var servers []*apiServer
	inProcess := func(t *tokenizer.Tokenizer, args ...string) {
		s := &apiServer{addr: freeAddr(), t: t}
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan struct{})
		go func() {
			defer close(done)
			if err := server.Run(ctx, append([]string{"-http", s.addr}, args...)); err != nil {
				broken("the server ended: %v", err)
			}
		}()
		s.stop = func() {
			cancel()
			select {
			case <-done:
			case <-time.After(60 * time.Second):
			}
		}
		servers = append(servers, s)
	}
	inProcess(mustTokenizer(ipa.Dict(), nil, tokenizer.OmitBosEos()))
	inProcess(mustTokenizer(ipa.Dict(), u, tokenizer.OmitBosEos()), "-userdict", upath)
	if !race {
		s := &apiServer{addr: freeAddr(), t: mustTokenizer(uni.Dict(), u, tokenizer.OmitBosEos())}
		cmd := exec.Command(bin, "server", "-http", s.addr, "-dict", "uni", "-userdict", upath)
		if err := cmd.Start(); err != nil {
			fatalf("%v", err)
		}
		s.stop = func() { cmd.Process.Kill(); cmd.Wait() }
		servers = append(servers, s)
	}
	for _, s := range servers {
		if !waitListening(s.addr, 100*time.Second) {
			broken("the server does not start")
		}
	}
	// the library's analyses
	for _, s := range servers {
		s.canon = make([][3][]int, len(texts))
		s := s
		parallel(len(texts), func(i int) {
			for m, mode := range []tokenizer.TokenizeMode{tokenizer.Normal, tokenizer.Search, tokenizer.Extended} {
				s.canon[i][m] = []int{}
				for _, x := range s.t.Analyze(texts[i], mode) {
					s.canon[i][m] = append(s.canon[i][m], in.num(dataOf(x)))
				}
			}
		})
	}

	// the connections
	var mu sync.Mutex
	recs := []recAPI{}
	put := func(rec recAPI) {
		mu.Lock()
		recs = append(recs, rec)
		mu.Unlock()
	}
	const limit = 120 * time.Second
	// follow sends the requests of one connection, each after the answer to
	// the one before, or all at once.
	follow := func(seed int64, sv int, p []apiForm, choose func(r *rand.Rand) int, chop bool) {
		r := rand.New(rand.NewSource(seed))
		rec := recAPI{Srv: sv + 1, Ex: make([]apiEx, len(p)), How: "in turn"}
		wire := make([]string, len(p))
		bodies := make([]string, len(p))
		for i, q := range p {
			rec.Ex[i] = apiEx{Q: q, T: choose(r) + 1, Toks: []int{}}
			bodies[i] = apiBody(r, q, texts[rec.Ex[i].T-1])
			if r.Intn(200) == 0 && q[0] == "object" {
				bodies[i] = padded(r, bodies[i], []int{5000, 70000, 1100000, 11000000}[r.Intn(4)])
			}
			wire[i] = rawRequest(r, bodies[i])
		}
		c, err := net.DialTimeout("tcp", servers[sv].addr, 20*time.Second)
		if err != nil {
			rec.Err = "no connection"
			put(rec)
			return
		}
		defer c.Close()
		c.SetDeadline(time.Now().Add(limit))
		br := bufio.NewReader(c)
		rs := rand.New(rand.NewSource(seed + 1))
		send := func(s string) {
			r := rs
			if chop {
				for n := r.Intn(4); n > 0 && len(s) > 1; n-- {
					k := 1 + r.Intn(len(s)-1)
					io.WriteString(c, s[:k])
					s = s[k:]
					time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
				}
			}
			io.WriteString(c, s)
		}
		all := r.Intn(2) == 0
		if all {
			rec.How = "at once"
			go send(strings.Join(wire, ""))
		}
		for i := range p {
			if !all {
				send(wire[i])
			}
			resp, err := http.ReadResponse(br, nil)
			if err != nil {
				break
			}
			if chop && r.Intn(4) == 0 {
				time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
			}
			b, err := io.ReadAll(resp.Body)
			resp.Body.Close()
			apiAnswer(in, &rec.Ex[i], bodies[i], resp.StatusCode, b, err)
			if resp.Close && i+1 < len(p) { // the server may close the connection
				rec.Ex = rec.Ex[:i+1]
				break
			}
		}
		put(rec)
	}
	anyShort := func(r *rand.Rand) int { return r.Intn(short) }
	anyText := func(r *rand.Rand) int {
		if r.Intn(6) == 0 {
			return short + r.Intn(len(texts)-short)
		}
		return r.Intn(short)
	}
	// 1. generated histories
	var sel [][]apiForm
	for _, f := range forms {
		sel = append(sel, []apiForm{f})
	}
	r.Shuffle(len(pairs), func(i, j int) { pairs[i], pairs[j] = pairs[j], pairs[i] })
	n := e.pick(4000, len(pairs))
	if race {
		n = e.pick(300, 3000)
	}
	if n > len(pairs) {
		n = len(pairs)
	}
	sel = append(sel, pairs[:n]...)
	seeds := make([]int64, len(sel))
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	parallel(len(sel), func(i int) { follow(seeds[i], i%len(servers), sel[i], anyShort, i%16 == 0) })
	// 2. many clients at once, some of them leaving early
	var wg sync.WaitGroup
	for k := 0; k < 16; k++ {
		wg.Add(1)
		seed := r.Int63()
		go func(k int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			N := e.pick(40, 300)
			if race {
				N = e.pick(12, 100)
			}
			for j := 0; j < N; j++ {
				sv := r.Intn(len(servers))
				if k < 3 {
					leave(r, servers[sv].addr, apiBody(r, texty[r.Intn(len(texty))], texts[anyText(r)]))
				}
				p := []apiForm{}
				for l := 1 + r.Intn(6); l > 0; l-- {
					if r.Intn(5) == 0 {
						p = append(p, forms[r.Intn(len(forms))])
					} else {
						p = append(p, texty[r.Intn(len(texty))])
					}
				}
				follow(r.Int63(), sv, p, anyText, true)
			}
		}(k)
	}
	wg.Wait()
	for _, s := range servers {
		s.stop()
	}
	os.RemoveAll(dir)
	canon := make([][][3][]int, len(servers))
	for i, s := range servers {
		canon[i] = s.canon
	}
	ex := 0
	for _, x := range recs {
		ex += len(x.Ex)
	}
	writeJSON(e.out+"/trace.json", struct {
		Recs  []recAPI     `json:"recs"`
		Canon [][][3][]int `json:"canon"`
	}{recs, canon})
	fmt.Printf("STATS connections=%d exchanges=%d texts=%d servers=%d forms=%d\n", len(recs), ex, len(texts), len(servers), len(forms))
}

// leave sends part of a request, or all of it, and goes away.
func leave(r *rand.Rand, addr, body string) {
	c, err := net.DialTimeout("tcp", addr, 20*time.Second)
	if err != nil {
		return
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "POST /tokenize HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
	s := b.Bytes()
	if r.Intn(2) == 0 {
		s = s[:r.Intn(len(s))]
	}
	c.Write(s)
	if r.Intn(2) == 0 {
		c.(*net.TCPConn).SetLinger(0)
	}
	c.Close()
}
