------------------------------ MODULE Options -------------------------------
(* The command line.                                                          *)
(* An argument is [d, n, e, v]: d dashes, a name, and if e an equals sign and *)
(* a value.  Parsing is a machine over the arguments; its state is            *)
(*   [k, val, pos, ok, open]: next argument, values of the flags so far,      *)
(*   positional arguments, whether all is well, whether flags are still read. *)
EXTENDS Integers, Sequences

Dashes(d) == CASE d = 0 -> "" [] d = 1 -> "-" [] d = 2 -> "--" [] d = 3 -> "---"
Text(a) == Dashes(a.d) \o a.n \o (IF a.e THEN "=" \o a.v ELSE "")

(* flags: <<name, kind, default>> in a fixed order *)
Flags(cmd) ==
  CASE cmd = "tokenize" -> << <<"file", "s", "">>, <<"dict", "s", "">>, <<"udict", "s", "">>, <<"sysdict", "s", "ipa">>,
                              <<"simple", "b", "false">>, <<"mode", "s", "normal">>, <<"split", "b", "false">>, <<"json", "b", "false">> >>
    [] cmd = "server"   -> << <<"http", "s", ":6060">>, <<"userdict", "s", "">>, <<"dict", "s", "ipa">> >>
    [] cmd = "lattice"  -> << <<"udict", "s", "">>, <<"dict", "s", "ipa">>, <<"mode", "s", "normal">>, <<"output", "s", "">>, <<"v", "b", "false">> >>
    [] cmd = "sentence" -> << <<"file", "s", "">> >>
Commands == {"tokenize", "server", "lattice", "sentence"}

Index(cmd, n) == LET K == {k \in 1..Len(Flags(cmd)) : Flags(cmd)[k][1] = n} IN IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE
Start(cmd) == [k |-> 1, val |-> [j \in 1..Len(Flags(cmd)) |-> Flags(cmd)[j][3]], pos |-> <<>>, ok |-> TRUE, open |-> TRUE]

Trues == {"1", "t", "T", "true", "True"}
Falses == {"0", "f", "F", "false", "False"}

IsFlag(a) == a.d > 0 /\ ~(a.d = 1 /\ a.n = "" /\ ~a.e)      \* neither a word nor a single dash
IsEnd(a) == a.d = 2 /\ a.n = "" /\ ~a.e                     \* "--"
Malformed(a) == a.d > 2 \/ a.n = ""

Reject(s) == [s EXCEPT !.ok = FALSE]
Step(cmd, args, s) ==
  LET a == args[s.k]
      j == Index(cmd, a.n)
  IN IF ~s.open THEN [s EXCEPT !.k = @ + 1, !.pos = Append(@, Text(a))]
     ELSE IF ~IsFlag(a) THEN [s EXCEPT !.open = FALSE]
     ELSE IF IsEnd(a) THEN [s EXCEPT !.k = @ + 1, !.open = FALSE]
     ELSE IF Malformed(a) \/ j = 0 THEN Reject(s)
     ELSE IF Flags(cmd)[j][2] = "b"
          THEN IF ~a.e THEN [s EXCEPT !.k = @ + 1, !.val[j] = "true"]
               ELSE IF a.v \in Trues THEN [s EXCEPT !.k = @ + 1, !.val[j] = "true"]
               ELSE IF a.v \in Falses THEN [s EXCEPT !.k = @ + 1, !.val[j] = "false"]
               ELSE Reject(s)
     ELSE IF a.e THEN [s EXCEPT !.k = @ + 1, !.val[j] = a.v]
     ELSE IF s.k = Len(args) THEN Reject(s)
     ELSE [s EXCEPT !.k = @ + 2, !.val[j] = Text(args[s.k + 1])]
Parsed(args, s) == ~s.ok \/ s.k > Len(args)

Value(cmd, s, n) == s.val[Index(cmd, n)]
ModeOK(m) == m \in {"", "normal", "search", "extended"}
DictOK(d) == d \in {"", "ipa", "uni"}
Accepted(cmd, s) ==
  /\ s.ok
  /\ CASE cmd = "tokenize" -> s.pos = <<>> /\ ModeOK(Value(cmd, s, "mode")) /\ DictOK(Value(cmd, s, "sysdict"))
       [] cmd = "server"   -> s.pos = <<>> /\ DictOK(Value(cmd, s, "dict"))
       [] cmd = "lattice"  -> s.pos # <<>> /\ ModeOK(Value(cmd, s, "mode")) /\ DictOK(Value(cmd, s, "dict"))
       [] cmd = "sentence" -> s.pos = <<>>

(* which command runs, with which arguments *)
Names == Commands \cup {"version"}
Dispatch(argv) == IF Len(argv) > 0 /\ argv[1].d = 0 /\ ~argv[1].e /\ argv[1].n \in Names
                  THEN <<argv[1].n, Tail(argv)>> ELSE <<"tokenize", argv>>
=============================================================================
