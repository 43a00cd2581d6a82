From 990d454cc3af52b6f935bf135128f953b212d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:02 +0000
Subject: [PATCH 01/14] fix: split only at two consecutive line feeds in the
 sentence splitter

A line feed seen earlier in the sentence was remembered across other
characters, so two line feeds far apart were taken as a blank line.
---
 filter/sentence_splitter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filter/sentence_splitter.go b/filter/sentence_splitter.go
index 3f41dc9..b3bd17d 100644
--- a/filter/sentence_splitter.go
+++ b/filter/sentence_splitter.go
@@ -91,6 +91,8 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 				return p, data[start:end], nil
 			}
 			nn = true
+		} else {
+			nn = false
 		}
 		if !s.isDelim(r) && rcount < s.MaxRuneLen {
 			continue
@@ -106,6 +108,8 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 						return p, data[start:end], nil
 					}
 					nn = true
+				} else {
+					nn = false
 				}
 			} else if s.isDelim(r) || s.isFollower(r) {
 				if end != p {
@@ -115,6 +119,7 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 				}
 				p += size
 				end += size
+				nn = false
 			} else {
 				break
 			}
-- 
2.43.0


From f95b8d1f92546a2c2bb212d8be204f39446a3f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:02 +0000
Subject: [PATCH 02/14] fix: make the sentence splitter independent of reader
 chunks

The splitter decided on sentence ends at the end of the data read so far,
decoded incomplete runes and rewrote the scanner's buffer, so the sentences
depended on how the reader cut the text.
---
 filter/sentence_splitter.go | 50 ++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/filter/sentence_splitter.go b/filter/sentence_splitter.go
index b3bd17d..34d07ce 100644
--- a/filter/sentence_splitter.go
+++ b/filter/sentence_splitter.go
@@ -48,28 +48,35 @@ func (s SentenceSplitter) isFollower(r rune) bool {
 }
 
 // ScanSentences is a split function for a Scanner that returns each sentence of text.
+//
+// The result depends only on the text, not on how the reader happens to cut it into chunks: more data is requested
+// whenever the end of a sentence can not be decided yet.
 // nolint: gocyclo
 func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, token []byte, err error) {
 	if atEOF && len(data) == 0 {
 		return 0, nil, nil
 	}
 	var (
-		start, end, rcount int
-		head, nn           bool // nn indicates \n\n
+		start, rcount int
+		head, nn      bool   // nn indicates \n\n
+		buf           []byte // a sentence without white spaces to be eliminated
 	)
 	head = true
 	for p := 0; p < len(data); {
+		if !atEOF && !utf8.FullRune(data[p:]) {
+			break // the rest of a rune has not arrived yet.
+		}
 		r, size := utf8.DecodeRune(data[p:])
 		if s.SkipWhiteSpace && unicode.IsSpace(r) {
 			p += size
 			switch {
 			case head:
-				start, end = p, p
+				start = p
 			case s.isDelim(r):
-				return p, data[start:end], nil
+				return p, buf, nil
 			case s.DoubleLineFeedSplit && r == '\n':
 				if nn {
-					return p, data[start:end], nil
+					return p, buf, nil
 				}
 				nn = true
 			case nn:
@@ -78,17 +85,12 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 			continue
 		}
 		head = false
-		if end != p {
-			for i := 0; i < size; i++ {
-				data[end+i] = data[p+i]
-			}
-		}
+		buf = append(buf, data[p:p+size]...)
 		p += size
-		end += size
 		rcount++
 		if s.DoubleLineFeedSplit && r == '\n' {
 			if nn {
-				return p, data[start:end], nil
+				return p, buf, nil
 			}
 			nn = true
 		} else {
@@ -100,39 +102,37 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 		// split
 		nn = false
 		for p < len(data) {
+			if !atEOF && !utf8.FullRune(data[p:]) {
+				return start, nil, nil // the rest of a rune has not arrived yet.
+			}
 			r, size := utf8.DecodeRune(data[p:])
 			if s.SkipWhiteSpace && unicode.IsSpace(r) {
 				p += size
 				if s.DoubleLineFeedSplit && r == '\n' {
 					if nn {
-						return p, data[start:end], nil
+						return p, buf, nil
 					}
 					nn = true
 				} else {
 					nn = false
 				}
 			} else if s.isDelim(r) || s.isFollower(r) {
-				if end != p {
-					for i := 0; i < size; i++ {
-						data[end+i] = data[p+i]
-					}
-				}
+				buf = append(buf, data[p:p+size]...)
 				p += size
-				end += size
 				nn = false
 			} else {
-				break
+				return p, buf, nil
 			}
 		}
-		return p, data[start:end], nil
+		if !atEOF {
+			return start, nil, nil // a follower may come next.
+		}
+		return p, buf, nil
 	}
 	if !atEOF {
 		// Request more data
-		for i := end; i < len(data); i++ {
-			data[i] = ' '
-		}
 		return start, nil, nil
 	}
 	// If we're at EOF, we have a final, non-terminated line. Return it.
-	return len(data), data[start:end], nil
+	return len(data), buf, nil
 }
-- 
2.43.0


From 2078b673333de2266b088175b9ec40aee8eff0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:17 +0000
Subject: [PATCH 03/14] fix: match features filters containing Any by all
 patterns

A wildcard edge swallowed the patterns added after it, and only the first
matching edge was followed, so the result depended on the order of patterns.
---
 filter/feature.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/filter/feature.go b/filter/feature.go
index 0be5376..ea2277d 100644
--- a/filter/feature.go
+++ b/filter/feature.go
@@ -31,13 +31,29 @@ func (n filterNode) isLeaf() bool {
 
 func (n filterNode) has(s Feature) int {
 	for i, v := range n.fanout {
-		if v.val == Any || v.val == s {
+		if v.val == s {
 			return i
 		}
 	}
 	return -1
 }
 
+// match returns true if some path from the node to a leaf matches given features.
+func (n filterNode) match(fs Features) bool {
+	if len(fs) == 0 {
+		return false
+	}
+	for _, v := range n.fanout {
+		if v.val != Any && v.val != fs[0] {
+			continue
+		}
+		if v.to.isLeaf() || v.to.match(fs[1:]) {
+			return true
+		}
+	}
+	return false
+}
+
 // FeaturesFilter represents a filter that filters a vector of features.
 type FeaturesFilter struct {
 	root filterNode
@@ -77,18 +93,7 @@ func (f *FeaturesFilter) add(fs Features) {
 
 // Match returns true if a filter matches given features.
 func (f *FeaturesFilter) Match(fs Features) bool {
-	n := &f.root
-	for _, v := range fs {
-		if k := n.has(v); k >= 0 {
-			n = n.fanout[k].to
-			if n.isLeaf() {
-				return true
-			}
-			continue
-		}
-		return false
-	}
-	return false
+	return f.root.match(fs)
 }
 
 // String implements string interface.
-- 
2.43.0


From 4f354b354066305ee4ea787a2b84d9f783a3d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:34 +0000
Subject: [PATCH 04/14] fix: do not cut U+FFFD into bytes in unknown words

A replacement character that is really in the input was taken for an invalid
byte, so an unknown word of an ungrouped class could begin or end inside it.
---
 tokenizer/lattice/lattice.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index aab4eea..f1a01fb 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -141,7 +141,9 @@ func (la *Lattice) Build(inp string) {
 			if ch != utf8.RuneError {
 				endPos = pos + utf8.RuneLen(ch)
 			} else {
-				endPos = pos + 1
+				// an invalid byte, or U+FFFD itself.
+				_, size := utf8.DecodeRuneInString(inp[pos:])
+				endPos = pos + size
 			}
 			unkWordLen := 1
 			if la.dic.GroupList[int(class)] {
-- 
2.43.0


From 951b0258715ac9ac84323a78af4ff76fe7dc498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:36 +0000
Subject: [PATCH 05/14] fix: keep invalid bytes in surfaces of the extended
 mode

The unigrams of an unknown word were made from decoded runes, so an invalid
byte of the input was replaced by U+FFFD.
---
 tokenizer/lattice/lattice.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index f1a01fb..99f3494 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -256,12 +256,13 @@ func (la *Lattice) Backward(m TokenizeMode) {
 		runeLen := utf8.RuneCountInString(p.Surface)
 		stack := make([]*Node, 0, runeLen)
 		i := 0
-		for k, r := range p.Surface {
+		for k := range p.Surface {
+			_, size := utf8.DecodeRuneInString(p.Surface[k:])
 			stack = append(stack, &Node{
 				ID:       p.ID,
 				Start:    p.Start + i,
 				Class:    DUMMY,
-				Surface:  string(r),
+				Surface:  p.Surface[k : k+size],
 				Position: p.Position + k,
 			})
 			i++
-- 
2.43.0


From 8b139e4046faa1a97c59f016cc6bb235f3d50312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:59 +0000
Subject: [PATCH 06/14] fix: never continue a path from an unreachable node

When the accumulated cost reached its maximum, a node which can not be reached
from BOS could be preferred, and the text before it was lost.
---
 tokenizer/lattice/lattice.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index 99f3494..cb16c8f 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -217,11 +217,11 @@ func (la *Lattice) Forward(m TokenizeMode) {
 		currentList := la.list[i]
 		for index, target := range currentList {
 			prevList := la.list[target.Start]
-			if len(prevList) == 0 {
-				la.list[i][index].Cost = maximumCost
-				continue
-			}
+			target.Cost, target.prev = maximumCost, nil
 			for j, n := range prevList {
+				if n.prev == nil && target.Start > 0 {
+					continue // unreachable from BOS.
+				}
 				var c int16
 				if n.Class != USER && target.Class != USER {
 					c = la.dic.Connection.At(int(n.Right), int(target.Left))
@@ -233,7 +233,7 @@ func (la *Lattice) Forward(m TokenizeMode) {
 				if totalCost > maximumCost {
 					totalCost = maximumCost
 				}
-				if j == 0 || int32(totalCost) < la.list[i][index].Cost {
+				if la.list[i][index].prev == nil || int32(totalCost) < la.list[i][index].Cost {
 					la.list[i][index].Cost = int32(totalCost)
 					la.list[i][index].prev = la.list[target.Start][j]
 				}
-- 
2.43.0


From 94b4f4f115015747f94897821c0891633614789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 07/14] fix: escape labels of the lattice graph

A double quote or a backslash in the input broke the exported graph.
---
 tokenizer/lattice/lattice.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index cb16c8f..75e38fd 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -309,6 +309,9 @@ func posFeature(d *dict.Dict, u *dict.UserDict, t *Node) string {
 	return strings.Join(ret, "/")
 }
 
+// dotEscaper escapes a string in a double-quoted string of the graphviz dot format.
+var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 // Dot outputs a lattice in the graphviz dot format.
 //
 //nolint:gocyclo
@@ -364,7 +367,8 @@ func (la *Lattice) Dot(w io.Writer) {
 					surf = "EOS"
 				}
 			}
-			pos := posFeature(la.dic, la.udic, n)
+			surf = dotEscaper.Replace(surf)
+			pos := dotEscaper.Replace(posFeature(la.dic, la.udic, n))
 			if _, ok := bests[n]; ok {
 				fmt.Fprintf(w, "\t\"%p\" [label=\"%s\\n%s\\n%d\",shape=ellipse, peripheries=2];\n", n, surf, pos, n.Weight)
 			} else if n.Class != UNKNOWN {
-- 
2.43.0


From d5ad1f0b4472a079166a816eb41aa7a75b6d5022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:07 +0000
Subject: [PATCH 08/14] fix: return the same tokens from AnalyzeGraph as from
 Analyze

The tokens of the graph functions had no index and no byte position, and BOS
and EOS were not omitted by OmitBosEos.
---
 tokenizer/tokenizer.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/tokenizer/tokenizer.go b/tokenizer/tokenizer.go
index 4feb38f..7359f50 100644
--- a/tokenizer/tokenizer.go
+++ b/tokenizer/tokenizer.go
@@ -150,14 +150,19 @@ func (t Tokenizer) AnalyzeGraph(w io.Writer, input string, mode TokenizeMode) []
 	tokens := make([]Token, 0, size)
 	for i := range la.Output {
 		n := la.Output[size-1-i]
+		if t.omitBosEos && n.ID == BosEosID {
+			continue
+		}
 		tok := Token{
-			ID:      n.ID,
-			Class:   TokenClass(n.Class),
-			Start:   n.Start,
-			End:     n.Start + utf8.RuneCountInString(n.Surface),
-			Surface: n.Surface,
-			dict:    t.dict,
-			udict:   t.userDict,
+			Index:    len(tokens),
+			ID:       n.ID,
+			Class:    TokenClass(n.Class),
+			Position: n.Position,
+			Start:    n.Start,
+			End:      n.Start + utf8.RuneCountInString(n.Surface),
+			Surface:  n.Surface,
+			dict:     t.dict,
+			udict:    t.userDict,
 		}
 		if tok.ID == lattice.BosEosID {
 			if i == 0 {
-- 
2.43.0


From 1ac0bc4849c9e8004000dda802a238c20843671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:43 +0000
Subject: [PATCH 09/14] fix: do not hang the demo when graphviz ends early

The graph was written into an in-process pipe, and nobody read it any more
once the command had exited or had been killed by the time limit. The time
limit is now reported as such.
---
 cmd/server/demo.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/cmd/server/demo.go b/cmd/server/demo.go
index d022d74..669fc77 100644
--- a/cmd/server/demo.go
+++ b/cmd/server/demo.go
@@ -7,7 +7,6 @@ import (
 	"errors"
 	"fmt"
 	"html/template"
-	"io"
 	"net/http"
 	"os/exec"
 	"strings"
@@ -85,20 +84,17 @@ func (h *TokenizeDemoHandler) analyzeGraph(ctx context.Context, sen string, mode
 	}
 	ctx, cancel := context.WithTimeout(ctx, cmdTimeout)
 	defer cancel()
-	var b bytes.Buffer
+	// the graph is buffered, because the command may end without reading all of it.
+	var g, b bytes.Buffer
+	tokens := h.tokenizer.AnalyzeGraph(&g, sen, mode)
 	cmd := exec.CommandContext(ctx, graphvizCmd, "-Tsvg")
-	r0, w0 := io.Pipe()
-	cmd.Stdin = r0
+	cmd.Stdin = &g
 	cmd.Stdout = &b
 	cmd.Stderr = Stderr
-	if err := cmd.Start(); err != nil {
-		return nil, "", fmt.Errorf("process done with error, %w", err)
-	}
-	tokens := h.tokenizer.AnalyzeGraph(w0, sen, mode)
-	if err := w0.Close(); err != nil {
-		return nil, "", fmt.Errorf("pipe close error, %w", err)
-	}
-	if err := cmd.Wait(); err != nil {
+	if err := cmd.Run(); err != nil {
+		if ctx.Err() != nil {
+			err = ctx.Err() // the command was killed.
+		}
 		return nil, "", fmt.Errorf("process done with error, %w", err)
 	}
 	svg = b.String()
-- 
2.43.0


From aab571f8e489fab3816a4968a52c092794a1b4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:43 +0000
Subject: [PATCH 10/14] fix: return valid JSON in error responses

An error message was embedded without escaping.
---
 cmd/server/api.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/server/api.go b/cmd/server/api.go
index 50cce3a..d396ec7 100644
--- a/cmd/server/api.go
+++ b/cmd/server/api.go
@@ -25,11 +25,16 @@ type TokenizerResponseBody struct {
 	Tokens []tokenizer.TokenData `json:"tokens"`
 }
 
+func errorBody(err error) string {
+	msg, _ := json.Marshal(err.Error()) // a string can always be encoded.
+	return fmt.Sprintf("{\"status\":false,\"error\":%s}", msg)
+}
+
 func (h *TokenizeHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	w.Header().Set("Content-Type", "application/json")
 	var req TokenizerRequestBody
 	if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
-		http.Error(w, fmt.Sprintf("{\"status\":false,\"error\":\"%v\"}", err), http.StatusBadRequest)
+		http.Error(w, errorBody(err), http.StatusBadRequest)
 		return
 	}
 	if req.Input == "" {
@@ -56,7 +61,7 @@ func (h *TokenizeHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		Tokens: tokenData,
 	})
 	if err != nil {
-		http.Error(w, fmt.Sprintf("{\"status\":false,\"error\":\"%v\"}", err), http.StatusInternalServerError)
+		http.Error(w, errorBody(err), http.StatusInternalServerError)
 		return
 	}
 	w.WriteHeader(http.StatusOK)
-- 
2.43.0


From fa3eb32a10dbecd8e592ddabcf152657b2bc3e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:43 +0000
Subject: [PATCH 11/14] fix: output unigrams of the extended mode in JSON

The tokens made from unknown words were left out of the JSON output.
---
 cmd/tokenize/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tokenize/cmd.go b/cmd/tokenize/cmd.go
index a288a9b..8dc211b 100644
--- a/cmd/tokenize/cmd.go
+++ b/cmd/tokenize/cmd.go
@@ -201,7 +201,7 @@ func printTokensJSON(tokens []tokenizer.Token) error {
 	}
 	var array [][]byte
 	for _, v := range tokens {
-		if v.Class == tokenizer.DUMMY {
+		if v.ID == tokenizer.BosEosID {
 			continue
 		}
 		r := tokenizer.NewTokenData(v)
-- 
2.43.0


From 31924b5af191cfc458764480f388cfb9b08c3325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:44 +0000
Subject: [PATCH 12/14] fix: shut down the HTTP server before leaving the
 server command

The server went on serving after Run had returned, and with the process the
running requests were cut off.
---
 cmd/server/cmd.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/server/cmd.go b/cmd/server/cmd.go
index cb7b7a9..bb635c6 100644
--- a/cmd/server/cmd.go
+++ b/cmd/server/cmd.go
@@ -28,6 +28,9 @@ var (
 	usageMessage = "%s [-http=:6060] [-userdict userdic_file] [-dict (ipa|uni)]"
 )
 
+// shutdownTimeout is the time to wait for running requests, it is longer than that of the demo.
+const shutdownTimeout = cmdTimeout + 5*time.Second
+
 // options
 type option struct {
 	http    string
@@ -110,7 +113,7 @@ func command(ctx context.Context, opt *option) error {
 		Handler:           mux,
 		ReadHeaderTimeout: 20 * time.Second,
 	}
-	ch := make(chan error)
+	ch := make(chan error, 1)
 	go func() {
 		log.Println(opt.http)
 		ch <- srv.ListenAndServe()
@@ -123,7 +126,12 @@ func command(ctx context.Context, opt *option) error {
 		return fmt.Errorf("server error, %w", err)
 	}
 	log.Printf("shutting down HTTP server at %q", opt.http)
-
+	sctx, cancel := context.WithTimeout(context.Background(), shutdownTimeout)
+	defer cancel()
+	if err := srv.Shutdown(sctx); err != nil {
+		srv.Close()
+		return fmt.Errorf("server shutdown error, %w", err)
+	}
 	return nil
 }
 
-- 
2.43.0


From e221be530230e64c613dfcea969ea9ce74f68fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:30 +0000
Subject: [PATCH 13/14] fix: report write errors of the lattice command

---
 cmd/lattice/cmd.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/lattice/cmd.go b/cmd/lattice/cmd.go
index dee8c70..a97e20f 100644
--- a/cmd/lattice/cmd.go
+++ b/cmd/lattice/cmd.go
@@ -1,6 +1,7 @@
 package lattice
 
 import (
+	"bufio"
 	"context"
 	"errors"
 	"flag"
@@ -132,7 +133,11 @@ func command(_ context.Context, opt *option) error {
 	}
 
 	mode := selectMode(opt.mode)
-	tokens := t.AnalyzeGraph(out, opt.input, mode)
+	w := bufio.NewWriter(out)
+	tokens := t.AnalyzeGraph(w, opt.input, mode)
+	if err := w.Flush(); err != nil {
+		return err
+	}
 	if opt.verbose {
 		for i, size := 1, len(tokens); i < size; i++ {
 			tok := tokens[i]
-- 
2.43.0


From abbc112838a6a6e0ba3333b32a747249cf11343f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:31 +0000
Subject: [PATCH 14/14] fix: answer the demo page although children of graphviz
 remain

---
 cmd/server/demo.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/server/demo.go b/cmd/server/demo.go
index 669fc77..91a9b7e 100644
--- a/cmd/server/demo.go
+++ b/cmd/server/demo.go
@@ -91,7 +91,17 @@ func (h *TokenizeDemoHandler) analyzeGraph(ctx context.Context, sen string, mode
 	cmd.Stdin = &g
 	cmd.Stdout = &b
 	cmd.Stderr = Stderr
-	if err := cmd.Run(); err != nil {
+	// children of a killed command may hold its output open, do not wait for them.
+	ch := make(chan error, 1)
+	go func() {
+		ch <- cmd.Run()
+	}()
+	select {
+	case err = <-ch:
+	case <-ctx.Done():
+		err = ctx.Err()
+	}
+	if err != nil {
 		if ctx.Err() != nil {
 			err = ctx.Err() // the command was killed.
 		}
-- 
2.43.0

