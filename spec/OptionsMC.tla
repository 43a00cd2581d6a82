----------------------------- MODULE OptionsMC ------------------------------
(* All argument vectors up to MaxLen over a vocabulary per command, parsed by *)
(* the machine of Options; the outcome is printed for replay.                 *)
(* "@x" stands for the path of a file, see the driver.                        *)
EXTENDS Options, TLC
CONSTANTS MaxLen, MaxFew
W(n) == [d |-> 0, n |-> n, e |-> FALSE, v |-> ""]
F(n) == [d |-> 1, n |-> n, e |-> FALSE, v |-> ""]
FF(n) == [d |-> 2, n |-> n, e |-> FALSE, v |-> ""]
E(n, v) == [d |-> 1, n |-> n, e |-> TRUE, v |-> v]
EE(n, v) == [d |-> 2, n |-> n, e |-> TRUE, v |-> v]
Common == {W("x"), F(""), FF(""), E("", "x"), [d |-> 3, n |-> "json", e |-> FALSE, v |-> ""], F("unknown"), F("h"), FF("help"), W("")}
Vocabulary(cmd) ==
  Common \cup
  CASE cmd = "tokenize" -> {F("file"), EE("file", "@in"), E("dict", "@dict"), F("dict"), E("udict", "@udict"), W("@in"), W("@dict"),
                            E("sysdict", "ipa"), E("sysdict", "xxx"), E("sysdict", ""), E("mode", "search"), F("mode"), W("extended"),
                            E("mode", "Search"), E("mode", ""), E("mode", "norm"), E("mode", "search "), E("mode", "extended,search"),
                            E("sysdict", "unidic"), E("sysdict", "IPA"), E("sysdict", "ipadic"), E("sysdict", " uni"), E("sysdict", "none"), F("simple"), EE("simple", "maybe"), E("simple", "false"), F("split"),
                            F("json"), FF("json"), E("json", "T"), E("json", ""), F("http"), E("output", "x"), F("v")}
    [] cmd = "server"   -> {F("http"), E("http", "@addr"), W("@addr"), E("dict", "ipa"), E("dict", "uni"), EE("dict", "@dict"), E("dict", ""), F("dict"), E("dict", "unidic"), E("dict", "UNI"), E("dict", "ipadic"), E("dict", "ipa "),
                            E("userdict", "@udict"), E("udict", "@udict"), F("userdict"), F("mode"), F("json"), W("ipa")}
    [] cmd = "lattice"  -> {E("udict", "@udict"), F("udict"), E("userdict", "x"), E("dict", "ipa"), E("dict", "xxx"), E("dict", ""), F("dict"), W("ipa"),
                            E("mode", "search"), E("mode", "extend"), E("mode", ""), F("mode"), W("normal"), E("mode", "Normal"), E("mode", "all"), E("mode", "searchx"), E("dict", "unidic"), E("dict", "Ipa"), E("dict", "ipa,uni"), E("output", "@out"), F("output"),
                            F("v"), EE("v", "0"), E("v", "yes"), F("vv"), F("n")}
    [] cmd = "sentence" -> {F("file"), FF("file"), E("file", "@in"), E("file", ""), W("@in"), F("json"), E("mode", "normal"), F("split"), F("dict")}
(* the whole command line: names, what looks like names, and other things *)
Top == {W(n) : n \in Names} \cup
       {W("toke"), W("tokenizer"), W("Tokenize"), W("tokenize "), W("serv"), W("servers"), W("latt"), W("Lattice"), W("sent"), W("SENTENCE"), W("vers"), W("Version"),
        W("help"), W("demo"), W("wakati"), W(""), W("x"), FF("tokenize"), F("version"), F("sentence"), E("tokenize", "x"), F(""), FF(""), F("json"), E("file", "@in"),
        E("http", "@addr"), E("mode", "normal"), E("mode", "Normal"), E("dict", "@dict"), F("h")}
(* longer vectors have only a few different arguments *)
Few(c) ==
  CASE c = "main"     -> {W("sentence"), W("version"), W("tokenize"), W("x"), E("file", "@in"), FF("")}
    [] c = "tokenize" -> {F("file"), W("@in"), E("dict", "@dict"), E("mode", "search"), F("mode"), E("split", "false")}
    [] c = "server"   -> {F("http"), W("@addr"), E("dict", "ipa"), F("userdict"), W("ipa")}
    [] c = "lattice"  -> {F("dict"), W("ipa"), W("x"), F("v"), FF(""), E("mode", "")}
    [] c = "sentence" -> {F("file"), W("@in"), E("file", "@in"), FF(""), F("split")}
(* argv is the whole command line, or <<>> if cmd is given *)
VARIABLES cmd, args, s, ph, argv
vars == <<cmd, args, s, ph, argv>>
Init == cmd \in Commands \cup {"main"} /\ args = <<>> /\ ph = "args" /\ argv = <<>> /\ s = Start(IF cmd = "main" THEN "tokenize" ELSE cmd)
Others == IF Len(args) < MaxLen THEN (IF cmd = "main" THEN Top ELSE Vocabulary(cmd))
          ELSE IF Len(args) < MaxFew /\ \A k \in 1..Len(args) : args[k] \in Few(cmd) THEN Few(cmd)
          ELSE {}
More == ph = "args" /\ \E a \in Others : args' = Append(args, a) /\ UNCHANGED <<cmd, s, ph, argv>>
Go == /\ ph = "args"
      /\ IF cmd = "main"
         THEN LET D == Dispatch(args) IN
              /\ args # <<>>
              /\ argv' = args /\ cmd' = D[1] /\ args' = D[2]
              /\ ph' = (IF D[1] = "version" THEN "done" ELSE "parse")
              /\ s' = (IF D[1] = "version" THEN s ELSE Start(D[1]))
         ELSE ph' = "parse" /\ UNCHANGED <<cmd, args, s, argv>>
Parse == ph = "parse" /\ ~Parsed(args, s) /\ s' = Step(cmd, args, s) /\ UNCHANGED <<cmd, args, ph, argv>>
Done == ph = "parse" /\ Parsed(args, s) /\ ph' = "done" /\ UNCHANGED <<cmd, args, s, argv>>
Next == More \/ Go \/ Parse \/ Done
Spec == Init /\ [][Next]_vars
Texts(l) == [k \in 1..Len(l) |-> Text(l[k])]
Fine == IF cmd = "version" THEN TRUE ELSE Accepted(cmd, s)
Sane == cmd \in Commands =>
        /\ s.k <= Len(args) + 1
        /\ (ph = "done" /\ s.ok) => s.k = Len(args) + 1
        /\ ~s.open => \A k \in 1..Len(s.pos) : \E j \in 1..Len(args) : s.pos[k] = Text(args[j])
(* the arguments of a command are those of the command line, but for its name *)
Passed == (argv # <<>>) => (args = argv /\ cmd = "tokenize") \/ (args = Tail(argv) /\ Text(argv[1]) = cmd)
Generate == ph = "done" => PrintT("G|" \o ToString(<<cmd, Texts(args), Fine, s.val, s.pos, Texts(argv)>>))
=============================================================================
