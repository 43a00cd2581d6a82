"""What each property's check does."""
import os

def thorough():
    return os.environ.get("VERIF_TIER") == "thorough"

def model(module, cfg=None, **kw):
    """TLC on a design model; cfg gets the tier's suffix if there is one."""
    def stage(run):
        c = (cfg or module) + (".thorough" if thorough() else "") + ".cfg"
        if not os.path.exists(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", c)):
            c = (cfg or module) + ".cfg"
        run.model(module, c, **kw)
    return stage

def traced(mode, module, *args, match=".*", race=False, **kw):
    """record the real code, judge the recording"""
    def stage(run):
        out = run.driver(mode, *args, race=race, name="out-%s-%s" % (mode, "-".join(os.path.basename(str(a)) for a in args)))
        run.judge(module, out + "/trace.json", match=match, **kw)
    return stage

def replayed(module, cfg, mode, match=".*", **kw):
    """generate behaviours from the specification, replay them on the real code"""
    def stage(run):
        c = cfg + (".thorough" if thorough() else "") + ".cfg"
        if not os.path.exists(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", c)):
            c = cfg + ".cfg"
        run.replay(mode, run.generate(module, c, **kw), match=match)
    return stage

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
DICT = "the dictionary library kagome-dict (tries, tables) is trusted as a data source"
GO = "Go's runtime and standard library behave as documented"

def generated(module, cfg, mode, judge, *args, match=".*", race=False, tag=""):
    """generate schedules from the specification, run them on the real code, judge the recording"""
    def stage(run):
        c = cfg + (".thorough" if thorough() else "") + ".cfg"
        if not os.path.exists(os.path.join(SPEC, c)):
            c = cfg + ".cfg"
        key = ("gen", c)
        if key not in run.bins:
            run.bins[key] = run.generate(module, c)
        out = run.driver(mode, run.bins[key], *args, race=race, name="gen-%s-%s" % (mode, "-".join(map(str, args))))
        run.judge(judge, out + "/trace.json", match=match)
    return stage

def executed(mode, judge, *args, match=".*", **kw):
    """run the executable built from the working tree, judge the recording"""
    def stage(run):
        binary = run.build(".", repo=True)
        out = run.driver(mode, binary, *args, name="exec-%s-%s" % (mode, "-".join(map(str, args))))
        run.judge(judge, out + "/trace.json", match=match, **kw)
    return stage

PLAN = {
    "C01": dict(
        level="model_checking",
        rule="Texts: all strings up to a length over four small alphabets with invalid bytes, random texts and bytes over random "
             "dictionaries, runs around 1024/2048 characters, costs beyond 2^31, real dictionary texts; each in all modes, with and "
             "without BOS/EOS, in random order through recycled lattices. A record is one call pair.",
        assumptions=[DICT, GO],
        stages=[model("AnalyzerMC"), traced("tile", "TileTrace")]),
    "C02": dict(
        level="model_checking",
        rule="All small dictionaries and texts of AnalyzerMC with their candidates and all cheapest segmentations, generated by TLC, built and "
             "analysed; recorded analyses: as C01, the Normal-mode path re-costed and compared with the minimum the specification computes",
        assumptions=[DICT, GO],
        stages=[replayed("AnalyzerMC", "AnalyzerGen", "anreplay", match=r"mode=1 "), traced("analyze", "AnalyzerTrace", match=r"C0\* |mode=1 ")]),
    "C03": dict(
        level="model_checking",
        rule="as C02, with more runs of characters of one category; every token has to be one of the candidates of the specification",
        assumptions=[DICT, GO],
        stages=[replayed("AnalyzerMC", "AnalyzerGen", "anreplay", match=r"^C03|^C02|^C05 mode=2"), traced("analyze", "AnalyzerTrace", "unknown", match=r"C0\* |^C03|^C02|^C05 mode=2")]),
    "C04": dict(
        level="model_checking",
        rule="as C02, every dictionary combined with user dictionaries whose entries overlap system entries",
        assumptions=[DICT, GO],
        stages=[replayed("AnalyzerMC", "AnalyzerGen", "anreplay", match=r"^C04"), traced("analyze", "AnalyzerTrace", "user", match=r"C0\* |^C04")]),
    "C05": dict(
        level="model_checking",
        rule="as C02, with words around the thresholds of the search heuristic",
        assumptions=[DICT, GO],
        stages=[replayed("AnalyzerMC", "AnalyzerGen", "anreplay", match=r"mode=[23] "), traced("analyze", "AnalyzerTrace", "search", match=r"C0\* |mode=[23] ")]),
    "C06": dict(
        level="model_checking",
        rule="The interleavings of two callers (two calls, one call) over three kinds of calls, stepwise through the lattice package, "
             "generated by TLC and replayed; recorded sessions: random sequences of calls on many tokenizers with different "
             "dictionaries, calls while graph exports are held up in the middle, 16 concurrent sessions; the same under the race "
             "detector. Every result is compared with that of the first call in a fresh process, again at the end of the session.",
        assumptions=[DICT, GO, "schedules inside one step are those the Go scheduler happens to produce"],
        stages=[model("SessionMC"), replayed("SessionMC", "SessionGen", "latreplay"), traced("session", "SessionTrace"),
                traced("session", "SessionTrace", "race", race=True)]),
    "C07": dict(
        level="model_checking",
        rule="All entries of up to 3 parts of speech and 5 other features (thorough: more under more designations) under all designations up to the "
             "fourth feature, generated by TLC; the same words in several dictionaries, shrunk ones included; tokens of analyses with random dictionaries (random metadata, contents of random length), dictionaries with few distinct "
             "features, and real dictionaries; every token observed through all methods, everything handed out overwritten, observed "
             "again; random pairs compared. A record is one analysed text.",
        assumptions=[DICT, GO],
        stages=[generated("TokenViewMC", "TokenViewMC", "view", "TokenViewTrace")]),
    "C08": dict(
        level="model_checking",
        rule="Option vectors up to length 3 (nothing, omit, two user dictionaries, missing user dictionary, failing option) with and "
             "without system dictionary; through each tokenizer random entry points and modes, undefined ones included, graphs also "
             "to writers that fail. A record is one tokenizer with its views of one text.",
        assumptions=[DICT, GO],
        stages=[model("ViewsMC"), traced("views", "ViewsTrace")]),
    "C09": dict(
        level="model_checking",
        rule="All 25200 combinations of a small dictionary (known words, homographs, user words, unknown words of several entries, categories) "
             "and a text of up to 2 (thorough: 3) characters, with the graphs of all their cheapest segmentations in the three modes, generated and "
             "executed; recorded graphs: as C01 with at most 4000 bytes, and dictionaries and texts of characters with a meaning in the dot language; the graphs are "
             "parsed by a parser of its own and compared as bags of labelled nodes (with their degrees) and edges. A record is one graph.",
        assumptions=[DICT, GO, "graphs with equal bags of nodes (label, highlighting, degrees) and edges count as the same graph"],
        stages=[replayed("GraphMC", "GraphGen", "anreplay"), traced("graph", "LatticeTrace")]),
    "C10": dict(
        level="model_checking",
        rule="All lists of up to 4 patterns of length up to 2, and of 2 patterns of length up to 3, over two features and Any, generated "
             "with the full set of matching vectors (length up to 3 over four strings) and replayed on both filter types; recorded "
             "filters with up to 140 patterns of up to 26 features sharing prefixes, with features joined keys would confuse, the patterns "
             "overwritten afterwards, asked in random order, then again by three goroutines; the same under the race detector.",
        assumptions=[GO],
        stages=[replayed("FeatureFilterMC", "FeatureFilterMC", "featreplay"), replayed("FeatureFilterMC", "FeatureFilterMC2", "featreplay"),
                traced("features", "FeatureFilterTrace"), traced("features", "FeatureFilterTrace", "race", race=True)]),
    "C11": dict(
        level="model_checking",
        rule="All token sequences up to length 4 over three kinds of tokens with all sequences of two filters, generated and replayed with "
             "predicate, word and part-of-speech filters; recorded sequences of up to three filters on tokens of real analyses, fresh and used ones, also by several goroutines "
             "and under the race detector.",
        assumptions=[GO],
        stages=[replayed("TokenFilterMC", "TokenFilterMC", "tokreplay"), traced("tokfilter", "TokenFilterTrace"),
                traced("tokfilter", "TokenFilterTrace", "race", race=True)]),
    "C12": dict(
        level="model_checking",
        rule="Every default stop word and stop tag and near misses of them as words of synthetic dictionaries, real texts and random "
             "dictionaries with random options; Yield and Drop compared with the specification's.",
        assumptions=[GO, "the default lists are those of the pinned commit (spec/ja_defaults.json)", "POS and base form of a token are judged by C07"],
        stages=[replayed("JaFilterMC", "JaFilterMC", "jareplay"),
                traced("ja", "JaFilterTrace", SPEC + "/ja_defaults.json")]),
    "C13": dict(
        level="model_checking",
        rule="All texts up to 3 characters over {a, space, LF, delimiter, closing bracket, truncated character} with every way of "
             "cutting them into pieces for 7 settings, generated by TLC and replayed; recorded scans of enumerated and random texts "
             "under random settings, each read whole, byte by byte, cut once at every offset, and in random pieces.",
        assumptions=[GO],
        stages=[model("SplitterMC"), replayed("SplitterMC", "SplitterGen", "splitreplay", match="C13"),
                traced("split", "SplitterTrace", match="^C13")]),
    "C14": dict(
        level="model_checking",
        rule="as C13; the sentences have to be those of the specification's machine",
        assumptions=[GO],
        stages=[model("SplitterMC"), replayed("SplitterMC", "SplitterGen", "splitreplay", match="C14"),
                traced("split", "SplitterTrace", match="^C14")]),
    "C15": dict(
        level="model_checking",
        rule="Runs of the executable with random dictionary files, ipa and uni, user dictionaries, modes, -simple, -split and -json on "
             "random texts (empty lines, CRLF, invalid bytes, no final line feed), from files and in pieces from standard input; missing "
             "and broken files, over-long lines. A record is one run.",
        assumptions=[DICT, GO, "the analysis of each piece is the library's, judged by C01 to C09"],
        stages=[executed("command", "CommandTrace", "tokenize", match="^C15")]),
    "C19": dict(
        level="model_checking",
        rule="The model of handler, pipe and an arbitrary renderer, liveness included. All programs of renderers of up to two (thorough: three) "
             "of ten actions and four ends, generated by TLC and run as the server's graph command, one request each, those that never end "
             "or leave children behind all at once with other requests meanwhile; slow ones that succeed; pages given up by their clients, after which, and after all answers, no renderer may be left; no, broken and real renderers; texts with markup. A record is one page.",
        assumptions=[DICT, GO, "the rows are the library's tokens, judged by C01 to C07"],
        stages=[model("DemoMC"),
                lambda run: run.judge("DemoTrace", run.driver("demo", run.generate("DemoMC", "DemoGen.thorough.cfg" if thorough() else "DemoGen.cfg"),
                                                              run.build(".", repo=True)) + "/trace.json")]),
    "C20": dict(
        level="model_checking",
        rule="All argument vectors up to length 2 (thorough: 3) over a vocabulary of about 35, 23, 29 and 18 arguments for the four commands "
             "and about 35 for the whole command line, and up to length 4 (5) over five or six of them, parsed by the specification's machine and replayed: through the option checks all of them, through the executable all that are "
             "refused and, of those that are accepted, all that need no large dictionary and a sample of the others.",
        assumptions=[GO],
        stages=[lambda run: run.replay("options", run.generate("OptionsMC", "OptionsGen.thorough.cfg" if thorough() else "OptionsGen.cfg"),
                                       run.build(".", repo=True))]),
    "C21": dict(
        level="model_checking",
        rule="Runs of the executable: sentences of random texts from files and in pieces from standard input; graphs of random arguments in "
             "all modes with user dictionaries, to standard output and over existing files, verbose or not; missing and unwritable files.",
        assumptions=[DICT, GO, "the graph and the tokens are the library's, judged by C08 and C09"],
        stages=[executed("command", "CommandTrace", "others", match="^C21")]),
    "C16": dict(
        level="model_checking",
        rule="The model with two connections of two requests over nine forms of requests, liveness included. All 186 forms of requests (body, "
             "sentence and mode each absent, null, of another type, ...) and pairs of them on one connection (quick: a sample), generated by "
             "TLC and sent to three servers (ipa, with user dictionary, uni) in turn or at once, in pieces, with length or chunked, as strings "
             "escaped in different ways; 16 concurrent clients with large texts while others break off; also under the race detector. A record "
             "is one connection.",
        assumptions=[DICT, GO, "the token data of each text is the library's, judged by C01 to C07"],
        stages=[model("ApiMC"),
                lambda run: run.judge("ApiTrace", run.driver("api", run.bins.setdefault(("gen", "ApiGen"), run.generate("ApiMC", "ApiGen.cfg")),
                                                             run.build(".", repo=True), name="api") + "/trace.json"),
                lambda run: run.judge("ApiTrace", run.driver("api", run.bins[("gen", "ApiGen")], run.build(".", repo=True), "race",
                                                             race=True, name="api-race") + "/trace.json")]),
    "C22": dict(
        level="model_checking",
        rule="The model with a writer that may fall silent at any time, liveness included; it also shows that nothing determined is left out. "
             "Texts up to 3 characters with all ways of cutting them into up to 3 (thorough: 5) pieces, generated by TLC and fed to the "
             "executable, the output observed after each piece while the input stays open; random texts, also beyond the size of buffers, "
             "byte by byte and in pieces. A record is one run.",
        assumptions=[DICT, GO, "what has not been printed after 20 s is withheld"],
        stages=[model("StreamMC"),
                lambda run: run.judge("StreamTrace", run.driver("stream", run.generate("StreamMC", "StreamGen.thorough.cfg" if thorough() else "StreamGen.cfg"),
                                                                run.build(".", repo=True)) + "/trace.json")]),
    "C17": dict(
        level="model_checking",
        rule="The model with three requests, fairness included. All plans of two (thorough: three) requests whose handling begins and ends "
             "before or after the server is told to stop, generated by TLC and followed with the real server in-process (cancellation) and as "
             "executable (three signals); many requests at once; restarts; addresses in use, invalid options, missing dictionaries; stops "
             "while starting. A record is one server's life.",
        assumptions=[GO, "requests end within the server's shutdown limit of 30 s", "a handler that asks for the body of a request is running"],
        stages=[model("Server", "ServerMC"),
                lambda run: run.judge("ServerTrace", run.driver("server", run.generate("Server", "ServerGen.thorough.cfg" if thorough() else "ServerGen.cfg"),
                                                                run.build(".", repo=True)) + "/trace.json")]),
    "C18": dict(
        level="model_checking",
        rule="All schedules of 6 Get/Put steps by two users on two pools, generated by TLC and executed in lockstep by goroutines; free "
             "running users (2 to 15) on up to three pools with garbage collections and foreign objects; both also under the race "
             "detector. A record is one run, its events ordered by a counter drawn after Get and before Put.",
        assumptions=[GO],
        stages=[model("PoolMC"), generated("PoolMC", "PoolGen", "pool", "PoolTrace"),
                generated("PoolMC", "PoolGen", "pool", "PoolTrace", "race", race=True)]),
}

NOTES = ("Model checking of the TLA+ specification within the stated bounds, plus validation by TLC of recorded executions of the real "
         "code built from the working tree: for the executions recorded the verdict is exact, beyond them it is a sample. Trusts TLC, "
         "the driver's recording, the Go toolchain and the kagome-dict module.")
