#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand, output committed)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80, (id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
LAT="tokenizer/lattice/lattice.go"; TOK="tokenizer/tokenizer.go"; TKN="tokenizer/token.go"
p("C01","Tokens tile the input exactly, whatever the bytes, the length or the mode",
 "For every input (any bytes, valid UTF-8 or not, any length) and every mode, the surfaces of the tokens other than BOS/EOS, concatenated in order, are byte for byte the input; each token's Position (bytes) and Start/End (characters, an invalid byte counting as one character) locate exactly its surface, consecutive tokens abut, and Index counts 0, 1, 2, ... . The result begins with exactly one BOS at offset 0 and ends with exactly one EOS at the end of the input (both of class DUMMY), and a tokenizer created with the omit option returns the same tokens without those two. This holds however large the accumulated path cost grows.",
 ["inputs","configurations"],"all byte strings, all three modes, with and without BOS/EOS omission, with and without a user dictionary, any dictionary",
 "The tests look at some dozens of short well-formed strings and mostly compare surfaces only; invalid bytes, U+FFFD, very long words (>1024 characters), cost saturation and byte positions of non-ASCII text are not reached.",
 [LAT,TOK],[("Lattice.Build / addNode position bookkeeping",LAT),("Lattice.Forward / Backward path selection",LAT),("Tokenizer.Analyze token construction",TOK)],
 [("list","candidate nodes by end position",LAT),("Output","best path",LAT)],["Tokenizer.Analyze","Tokenizer.Tokenize"])
p("C02","Normal mode returns a minimum-cost segmentation",
 "In Normal mode the total cost of the returned segmentation (word costs plus the connection costs of all neighbours, BOS and EOS included) is the minimum over all segmentations of the input that the system dictionary, the user dictionary and the unknown-word rules admit, as long as the costs of paths stay within 32 bits.",
 ["inputs","configurations"],"all inputs, all dictionaries (word costs, connection matrix, character categories), with or without user dictionary",
 "The tests pin the result for a few sentences of one dictionary; a wrong minimum (a missing candidate, a wrong matrix index, a skipped predecessor) shows only on inputs where the affected path would have won.",
 [LAT],[("Viterbi recurrence over predecessors with the connection matrix","Lattice.Forward in "+LAT),("candidate generation","Lattice.Build in "+LAT)],
 [("Cost/prev","best cost and predecessor per node","tokenizer/lattice/node.go")],["Tokenizer.Analyze"])
p("C03","Every token is justified by a dictionary entry or by the unknown-word rules",
 "A KNOWN token's surface is an entry of the system dictionary and its ID one of the IDs of that entry. An UNKNOWN token starts where no user entry matches and where either no system entry matches or the first character's category always invokes unknown words; its surface is the maximal run of characters of that one category (1024 characters at most, a single character for categories that do not group) or that run without its last character (unless that is an invalid byte or U+FFFD), and its ID is one of the unknown-word entries of the category. All words so justified compete: none is left out of the search for the cheapest segmentation. Class and ID always fit together, in every mode.",
 ["inputs","configurations"],"all inputs and dictionaries, all category definitions (invoke/group flags, several unknown entries per category)",
 "The unit tests check a few katakana/number strings and one 1024-character case of one dictionary; run boundaries at category changes, at the length limit, at invalid bytes and with several unknown entries per category are not enumerated.",
 [LAT,"tokenizer/lattice/node.go"],[("dictionary prefix search and unknown word grouping","Lattice.Build in "+LAT),("invoke/group flags","Lattice.Build in "+LAT)],(),["Tokenizer.Analyze"])
p("C04","User dictionary entries take precedence wherever they match",
 "A token that starts at a position where user dictionary entries match is a USER token whose surface and ID are those of one of the matching entries, whatever the system dictionary holds; user words cost nothing and connect to their neighbours at no cost, and the segmentation is a minimum-cost one under that rule. Positions where no user entry matches are treated as if there were no user dictionary, and a tokenizer without one never returns USER tokens.",
 ["inputs","configurations"],"all inputs, all user dictionaries (overlapping, nested and duplicate-prefix entries) and modes",
 "One test with one three-entry user dictionary; overlapping entries, entries inside longer words, entries at the very start or end, unreachable positions behind user words and alternation with tokenizers without user dictionary are not covered.",
 [LAT,"tokenizer/tokenizer_option.go"],[("user dictionary match suppresses other candidates","Lattice.Build in "+LAT),("no connection cost next to USER nodes","Lattice.Forward in "+LAT)],(),["Tokenizer.Analyze with UserDict"])
p("C05","Search and Extended mode follow the documented heuristics",
 "In Search mode the segmentation has minimum cost when every word of more than 2 characters that consists of kanji only costs 3000 more per character beyond 2, and every other word of more than 7 characters 1700 more per character beyond 7. In Extended mode the result is that of Search mode with every unknown word replaced by its single characters, in order, each of class DUMMY with the unknown word's ID and its own position.",
 ["inputs","configurations"],"all inputs, dictionaries and user dictionaries in the two modes",
 "Two or three sentences are pinned per mode; thresholds, mixed-script words, user words and unknown words containing invalid bytes or four-byte characters are not reached.",
 [LAT,TOK],[("additional cost of long words","additionalCost/kanjiOnly/Forward in "+LAT),("unigram expansion","Lattice.Backward in "+LAT),("mode mapping",TOK)],(),["Tokenizer.Analyze"])
p("C06","Results do not depend on earlier or concurrent calls",
 "What a call returns (tokens with all their attributes, divided words, exported graph up to node names) depends only on the tokenizer's configuration, the mode and the input: it is the same as for the first call in a fresh process, whatever was analysed before or is being analysed at the same time, by the same or by other tokenizers with other dictionaries. Tokens and strings returned earlier never change afterwards, and concurrent use is free of data races.",
 ["histories","schedules","inputs"],"all sequences and interleavings of calls on any set of tokenizers, modes and inputs (longer and shorter, empty, invalid)",
 "Tests make single calls or repeat one input; objects recycled through the pools with leftovers, and goroutine interleavings, are never varied.",
 [LAT,"tokenizer/lattice/node.go","tokenizer/lattice/mem/pool.go",TOK],[("lattice and node pools","New/Free/addNode in "+LAT),("tokens copied out of pooled nodes",TOK)],
 [("latticePool/nodePool","recycled objects",LAT)],["Tokenizer.Analyze","Tokenizer.Wakati","Tokenizer.AnalyzeGraph","Token accessors"])
p("C07","Token attributes agree with the dictionary, with each other, and are copies",
 "A KNOWN token's features are its entry's part of speech followed by the entry's other contents, an UNKNOWN token's those of its unknown-word entry, a USER token's its part of speech and its '/'-joined segments and readings, and BOS, EOS and Extended-mode single characters have none. FeatureAt(i) is the i-th feature or absent, POS, base form, reading, pronunciation and inflection are the features the dictionary's metadata designates (absent where it designates none), the equality methods compare exactly these, and the token data record repeats them all. Everything handed out belongs to the caller: changing it alters no token and no dictionary.",
 ["inputs","configurations","histories"],"all tokens of all dictionaries (with full, shrunk or missing contents and metadata), all indices, any mutation of returned slices",
 "Tests inspect a handful of tokens of one dictionary and never write to a returned slice.",
 [TKN],[("Features/FeatureAt/POS/pickupFromFeatures",TKN),("UserExtra copies",TKN),("NewTokenData",TKN)],(),["Token methods","NewTokenData"])
p("C08","All ways of analysing a text agree",
 "Tokenize equals Analyze in Normal mode, Wakati is the sequence of its surfaces without BOS/EOS, Dot and AnalyzeGraph return the very tokens Analyze returns in that mode, and a mode value that is none of the three behaves as Normal. The omit option only removes BOS and EOS from every one of them, the no-operation option changes nothing, and a missing system or user dictionary is refused with an error instead of a tokenizer.",
 ["inputs","configurations"],"all inputs, modes (including undefined values) and option combinations",
 "Each entry point is tested on its own inputs; their agreement is never asserted, and the graph functions' tokens are not looked at.",
 [TOK,"tokenizer/tokenizer_option.go"],[("entry points sharing the lattice",TOK),("options","tokenizer/tokenizer_option.go")],(),["Tokenizer.Tokenize","Tokenizer.Wakati","Tokenizer.Dot","Tokenizer.AnalyzeGraph","tokenizer.New"])
p("C09","The exported lattice graph is well formed and faithful",
 "For every input the exported graph is a well-formed graphviz document in which each candidate word appears once, labelled with its surface, part of speech and cost (unknown-word candidates only when they are on the best path), and two candidates are joined, labelled with their connection cost (0 next to user words), exactly when one ends where the other starts. The highlighted nodes and edges are exactly the best path from BOS through the returned tokens to EOS (in Extended mode unknown words are not drawn).",
 ["inputs","configurations"],"all inputs including quotes, backslashes, line feeds and invalid bytes, all dictionaries and modes",
 "Tests only check that the output starts with 'graph lattice {'.",
 [LAT,TOK],[("Lattice.Dot and posFeature",LAT),("AnalyzeGraph",TOK)],(),["Tokenizer.Dot","Tokenizer.AnalyzeGraph"])
p("C10","Feature and POS filters match by pattern prefix, whatever the pattern order",
 "A feature vector matches a filter exactly if at least one of the filter's non-empty patterns is not longer than the vector and agrees with it position by position, the Any feature agreeing with everything. The result does not depend on the order, repetition or overlap of the patterns, and matching never changes the filter, so that it may be used by many goroutines at a time.",
 ["inputs","configurations","histories"],"all lists of patterns (with wildcards, shared prefixes, repetitions, empty patterns) and all vectors",
 "One filter without overlapping wildcards is tested; wrong results need several patterns that share prefixes with a wildcard in a particular order.",
 ["filter/feature.go","filter/pos.go"],[("prefix tree of patterns","filter/feature.go"),("POS filter","filter/pos.go")],(),["FeaturesFilter.Match","POSFilter.Match"])
p("C11","Keep and Drop partition the tokens and keep them intact and in order",
 "Drop removes exactly the tokens that match (the predicate, the word list by surface, or the part-of-speech patterns) and Keep exactly those that do not; the remaining tokens are unchanged and in their original order, so that Keep and Drop split every sequence in two. The predicate is consulted once per token in order, applying a filter again changes nothing, and a nil sequence is left alone.",
 ["inputs","histories"],"all token sequences (empty, all matching, none matching, alternating), predicates, word lists and patterns, and sequences of filters",
 "Tests filter one sentence with one list and compare surfaces; most need a dictionary file that is absent.",
 ["filter/filter.go","filter/pos.go","filter/word.go"],[("in-place compaction","filter/filter.go"),("POSFilter.apply","filter/pos.go"),("WordFilter.apply","filter/word.go")],(),["filter.Keep","filter.Drop","POSFilter.Keep/Drop","WordFilter.Keep/Drop/Match"])
p("C12","The Japanese filter yields base forms and removes stop words and stop tags",
 "Yield returns, in token order, for each token whose part of speech matches no stop tag and whose surface is no stop word, the base form if the part of speech is one to be reduced (verbs and adjectives by default; nothing if the token has no base form) and the surface otherwise, and Drop removes exactly the tokens Yield would pass over as stop tag or stop word. Without options the stop tags, stop words and reduced parts of speech are those shipped with the package, every line of the lists taken literally up to a comment and each tag filled up to four levels with '*'; an option replaces its own list only.",
 ["inputs","configurations"],"all token sequences and all option combinations; every entry of the default lists",
 "The single test needs an absent dictionary and touches about five of the default entries.",
 ["filter/ja/filter.go","filter/ja/loader.go","filter/ja/asset/stop_tags.txt","filter/ja/asset/stop_words.txt"],[("Yield/Drop","filter/ja/filter.go"),("list loader","filter/ja/loader.go")],(),["ja.NewFilter","Filter.Yield","Filter.Drop"])
p("C13","Splitting into sentences loses nothing and ignores how the text arrives",
 "The sentences a scanner produces depend only on the text and the splitter's settings, not on how the reader delivers the text (chunk sizes cutting characters, empty reads, end of file with or after the last data). Their concatenation is the text with its white space removed when white space is skipped and the text byte for byte otherwise, and no sentence is empty.",
 ["inputs","schedules","configurations"],"all texts (any bytes), all reader schedules, all settings, as long as one sentence with its white space fits the scanner's buffer",
 "Tests read from one in-memory string, which arrives in one piece; a cut inside a character, between a delimiter and its closing bracket or inside a blank line is never made.",
 ["filter/sentence_splitter.go"],[("requests for more data","SentenceSplitter.ScanSentences")],(),["bufio.Scanner with ScanSentences"])
p("C14","Sentences end at delimiters, blank lines and the length limit, nowhere else",
 "A sentence ends after a delimiter or after its MaxRuneLen-th character, in both cases extended by the directly following delimiters and followers (white space in between being skipped if it is skipped at all, up to a blank line), before nothing else than a blank line (two consecutive line feeds, if that option is set; the line feeds belong to the sentence if white space is kept), a white-space delimiter, or the end of the text. The default splitter uses 。．！!？? as delimiters, closing brackets as followers, skips white space, splits at blank lines and at 128 characters.",
 ["inputs","configurations"],"all texts and all settings (delimiter/follower sets also containing white space, limits from 1 up)",
 "Tests pin some twenty texts; combinations of line feeds, white space, followers and the limit are not enumerated.",
 ["filter/sentence_splitter.go"],[("scanning loop","SentenceSplitter.ScanSentences")],(),["SentenceSplitter.ScanSentences","filter.ScanSentences"])
p("C15","The tokenize command prints exactly the analysis of every input line",
 "For each line of the input (each sentence with -split), from a file or standard input, with or without a final line feed, the command prints the analysis the library gives for the chosen dictionary, user dictionary and mode: one line per token with its surface, a tab and its comma-joined features (just the surface for single characters of unknown words in extended mode) followed by EOS, or with -json one JSON array of token data. Output appears in input order, nothing is left out, and a failure (missing file, broken dictionary, over-long line) is reported by an error and a non-zero exit status after the output of the lines before it.",
 ["inputs","configurations"],"all texts with lines up to 64 KiB, all combinations of options",
 "The output tests need an absent dictionary file and use three lines; modes, -split, -simple, user dictionaries, empty lines and CRLF are not combined.",
 ["cmd/tokenize/cmd.go"],[("command/printTokens/printTokensJSON","cmd/tokenize/cmd.go")],(),["tokenize.Run","kagome tokenize"])
p("C16","The tokenize web API answers every request with its own analysis in valid JSON",
 "A request to /tokenize with a JSON body is answered 200 with status true and, in order, the token data of the library's analysis of its sentence without BOS and EOS, in the requested mode (Search, Extended, anything else Normal), and an empty or missing sentence with an empty list. A body that cannot be decoded is answered 400 with a JSON object holding status false and the error message. Each response is complete, valid JSON and independent of all other requests, earlier or concurrent.",
 ["inputs","histories","schedules"],"all request bodies, sequences and interleavings of requests",
 "The handler tests need an absent dictionary and send two requests one after the other.",
 ["cmd/server/api.go"],[("TokenizeHandler.ServeHTTP","cmd/server/api.go"),("mux","cmd/server/cmd.go")],(),["HTTP POST /tokenize"])
p("C17","The server serves until told to stop and then stops cleanly",
 "Once listening, the server answers until its context is cancelled or it gets SIGHUP, SIGINT or SIGTERM; it then finishes the requests already being handled, sends their complete responses, releases its address, answers nothing more and returns without error (the process exits with status 0). If the address cannot be used or the options or dictionaries are invalid it returns an error and serves nothing.",
 ["schedules","histories","fault_sequences"],"all moments of cancellation or signal relative to start-up and to running requests; address in use; repeated start and stop in one process",
 "The tests cancel after 100 ms without ever connecting.",
 ["cmd/server/cmd.go"],[("command: listener goroutine, select, shutdown","cmd/server/cmd.go"),("Run: signal handling","cmd/server/cmd.go")],(),["server.Run","HTTP port"])
p("C18","A pooled object is never owned twice",
 "An object obtained from a memory pool is handed to nobody else until it is put back; every object obtained is either freshly made by that pool's constructor or was put into that same pool before and not obtained since. This holds for any number of goroutines and pools, and using a pool is free of data races.",
 ["schedules","histories"],"all interleavings of Get and Put by any number of goroutines on any number of pools",
 "The tests make a few sequential calls.",
 ["tokenizer/lattice/mem/pool.go"],[("wrapper of sync.Pool","tokenizer/lattice/mem/pool.go")],(),["mem.Pool.Get","mem.Pool.Put"])
p("C19","The demo page always answers, whatever the graph renderer does",
 "A request for the demo page with a lattice is answered within the time limit whether the external graph command itself is missing, fails, exits early without reading its input, never ends, leaves processes of its own behind, or prints anything at all; failures are reported in the page as an error. When it succeeds the page shows one row per token of the library's analysis (Search mode for Search and Extended) and the graph; user text is shown escaped, never as markup, and other requests are served meanwhile. The graph command is not left running when its page has been answered, or when its client has gone.",
 ["fault_sequences","inputs","schedules"],"all behaviours of the external command at any point, all sentences",
 "The tests need an absent dictionary and a well-behaved graphviz.",
 ["cmd/server/demo.go","cmd/server/asset/graph.html","cmd/server/asset/demo.html"],[("analyzeGraph with time limit","cmd/server/demo.go"),("html/template","cmd/server/demo.go")],(),["HTTP /?lattice=..."])
p("C20","The command line runs the named command, or refuses with usage and status 1",
 "If the first argument names a subcommand (tokenize, server, lattice, sentence, version) that command runs with the remaining arguments, otherwise tokenize runs with all arguments; the exit status is 0 exactly if it succeeded. Each command accepts exactly its documented flags with valid values (dictionary ipa or uni, mode normal, search or extended, or empty) and rejects anything else, unexpected or missing positional arguments included, with a usage message and status 1 before any processing, and its option check agrees with what running it accepts.",
 ["inputs","configurations"],"all argument vectors",
 "Some dozen argument lists per command are tested; dispatch in main and exit codes are not.",
 ["kagome.go","cmd/tokenize/cmd.go","cmd/server/cmd.go","cmd/lattice/cmd.go","cmd/sentence/cmd.go"],[("main dispatch","kagome.go"),("option.parse","cmd/*/cmd.go")],(),["kagome executable","OptionCheck"])
p("C21","The sentence and lattice commands expose exactly the library's results",
 "The sentence command prints, one per line and in order, exactly the sentences the default splitter finds in the file or standard input, however the input arrives. The lattice command writes the library's graph of its space-joined arguments in the chosen dictionary, user dictionary and mode to standard output or to the output file, whose previous contents it replaces, and in verbose mode prints the tokens after BOS with their features to standard error; an input file that cannot be read, or a graph that cannot be written, is reported as an error with a non-zero exit status.",
 ["inputs","configurations","schedules"],"all texts, arguments, options and previous contents of the output file",
 "Tests print one two-sentence file and one graph's first line.",
 ["cmd/sentence/cmd.go","cmd/lattice/cmd.go"],[("sentence command","cmd/sentence/cmd.go"),("lattice command","cmd/lattice/cmd.go")],(),["sentence.Run","lattice.Run"])
p("C22","The text commands answer as soon as their input determines the answer",
 "While its standard input stays open, the tokenize command has printed the complete analysis of every line whose line feed it has received (with -split, and in the sentence command, of every sentence that no continuation of the text can change any more), in whatever pieces the bytes arrive, without waiting for more input or for its end. What it has printed is a prefix of what it prints for the whole text.",
 ["schedules","histories","inputs"],"all texts and all ways in which they arrive, the writer falling silent at any point",
 "Tests read files or strings to their end and look at the output afterwards.",
 ["cmd/tokenize/cmd.go","cmd/sentence/cmd.go","filter/sentence_splitter.go"],[("tokenize loop","cmd/tokenize/cmd.go"),("sentence loop","cmd/sentence/cmd.go"),("split function","filter/sentence_splitter.go")],(),["tokenize.Run","sentence.Run","filter.ScanSentences"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
