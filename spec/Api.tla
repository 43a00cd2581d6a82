-------------------------------- MODULE Api ---------------------------------
(* The tokenize web API.  A request is known by its form:                     *)
(*   k  what the body is: an "object", or some other text                     *)
(*   s  what the object says as sentence, m as mode ("absent": nothing)       *)
(*   x  does it have further members?                                         *)
(* A connection carries requests one after the other; the server handles them *)
(* in order and independently of all other connections.                       *)
EXTENDS Integers, Sequences, TLC

SentForms == {"absent", "null", "empty", "text", "number", "array", "bool", "object"}
ModeForms == {"absent", "null", "empty", "Normal", "Search", "Extended", "search", "EXTENDED", "junk", "number", "array"}
Other == {"null", "array", "number", "string", "bool", "nothing", "blank", "cut", "garbage", "openstring"}
Forms == [k : {"object"}, s : SentForms, m : ModeForms, x : BOOLEAN]
         \cup [k : Other, s : {"absent"}, m : {"absent"}, x : {FALSE}]

StringOrNothing(S) == S \ {"number", "array", "bool", "object"}
Decodable(q) == q.k = "object" /\ q.s \in StringOrNothing(SentForms) /\ q.m \in StringOrNothing(ModeForms)
(* whether null counts as an object without members is left open *)
Open(q) == q.k = "null"
ModeOf(q) == CASE q.m = "Search" -> 2 [] q.m = "Extended" -> 3 [] OTHER -> 1

(* the answer: code, status, and the mode in which the sentence is analysed;  *)
(* mode 0: an empty list                                                      *)
Answer(q) == IF Decodable(q) THEN [code |-> 200, status |-> TRUE, mode |-> IF q.s = "text" THEN ModeOf(q) ELSE 0]
             ELSE [code |-> 400, status |-> FALSE, mode |-> 0]
Answers(q) == {Answer(q)} \cup IF Open(q) THEN {[code |-> 200, status |-> TRUE, mode |-> 0]} ELSE {}
=============================================================================
