------------------------------ MODULE ViewsMC -------------------------------
(* All ways of creating a tokenizer with up to MaxOpts options, and all views *)
(* of all small analyses: the laws the views obey.                            *)
EXTENDS Views, FiniteSets, TLC
CONSTANT MaxOpts
Opts == {"nop", "omit", "user1", "user2", "usernil", "fail"}
Tok(i, x) == [ix |-> i, id |-> x, sf |-> x]
(* a small analysis: BOS, up to two words, EOS; one per mode *)
Bodies == {<<>>, <<1>>, <<2, 1>>}
Full(b) == <<Tok(0, BosEos)>> \o [k \in 1..Len(b) |-> Tok(k, b[k])] \o <<Tok(Len(b) + 1, BosEos)>>
VARIABLES sys, conf, applied, canon, mode
vars == <<sys, conf, applied, canon, mode>>
Init == /\ sys \in BOOLEAN /\ conf = Config0(sys) /\ applied = <<>>
        /\ canon \in {<<Full(a), Full(b), Full(c)>> : a, b, c \in Bodies} /\ mode \in {-1, 0, 1, 2, 3, 4}
Next == /\ Len(applied) < MaxOpts
        /\ \E o \in Opts : conf' = Apply(conf, o) /\ applied' = Append(applied, o)
        /\ UNCHANGED <<sys, canon, mode>>
Spec == Init /\ [][Next]_vars
Used(o) == \E k \in 1..Len(applied) : applied[k] = o
Refused == conf.ok = (sys /\ ~Used("usernil") /\ ~Used("fail"))
OmitSticks == conf.ok => (conf.omit = Used("omit"))
LastUserWins == conf.ok => conf.user = (IF ~(Used("user1") \/ Used("user2")) THEN 0
  ELSE LET k == CHOOSE k \in 1..Len(applied) : applied[k] \in {"user1", "user2"} /\ \A j \in (k + 1)..Len(applied) : applied[j] \notin {"user1", "user2"}
       IN IF applied[k] = "user1" THEN 1 ELSE 2)
NopIsNothing == Configured(Config0(sys), SelectSeq(applied, LAMBDA o : o # "nop")) = conf
Laws == /\ TokensOf(canon, conf, "tokenize", mode) = TokensOf(canon, conf, "analyze", NormalMode)
        /\ TokensOf(canon, conf, "dot", mode) = TokensOf(canon, conf, "graph", NormalMode)
        /\ (mode \notin 1..3 => TokensOf(canon, conf, "analyze", mode) = TokensOf(canon, conf, "analyze", NormalMode))
        /\ WordsOf(TokensOf(canon, conf, "analyze", mode)) # <<>> \/ Len(canon[EffMode(mode)]) = 2
        /\ \A k \in 1..Len(TokensOf(canon, conf, "analyze", mode)) : TokensOf(canon, conf, "analyze", mode)[k].ix = k - 1
=============================================================================
