------------------------------- MODULE ApiMC --------------------------------
(* Connections with requests under way: sent[c] the requests sent so far,     *)
(* todo[c] how many of them have not been handled, got[c] the answers.        *)
EXTENDS Api
CONSTANTS Conns, Per, Small, History
VARIABLES sent, work, got
vars == <<sent, work, got>>
Use == IF Small = 2 THEN {q \in Forms : (q.k = "object" /\ ~q.x /\ q.m \in {"absent", "Search"} /\ q.s \in {"text", "empty", "number"}) \/ q.k \in {"null", "cut"}} ELSE IF Small = 1 THEN {q \in Forms : (q.k = "object" /\ ~q.x /\ q.m = "Search" /\ q.s \in {"text", "empty"}) \/ q.k \in {"null", "cut"}} ELSE Forms
None == [k |-> "none"]
Init == sent = [c \in Conns |-> <<>>] /\ work = [c \in Conns |-> None] /\ got = [c \in Conns |-> <<>>]
Send(c, q) == Len(sent[c]) < Per /\ (History => Len(got[c]) = Len(sent[c])) /\ sent' = [sent EXCEPT ![c] = Append(@, q)] /\ UNCHANGED <<work, got>>
Take(c) == work[c] = None /\ Len(got[c]) < Len(sent[c]) /\ work' = [work EXCEPT ![c] = sent[c][Len(got[c]) + 1]] /\ UNCHANGED <<sent, got>>
Reply(c) == work[c] # None /\ \E a \in Answers(work[c]) : got' = [got EXCEPT ![c] = Append(@, a)] /\ work' = [work EXCEPT ![c] = None] /\ UNCHANGED sent
Next == \E c \in Conns : Take(c) \/ Reply(c) \/ \E q \in Use : Send(c, q)
Spec == Init /\ [][Next]_vars /\ \A c \in Conns : WF_vars(Take(c)) /\ WF_vars(Reply(c))

(* every answer belongs to its request, whatever else is under way *)
Own == \A c \in Conns : Len(got[c]) <= Len(sent[c]) /\ \A i \in 1..Len(got[c]) : got[c][i] \in Answers(sent[c][i])
Total == \A q \in Forms : Answers(q) # {} /\ \A a \in Answers(q) : a.code \in {200, 400} /\ (a.code = 200) = a.status
Answered == \A c \in Conns : \A i \in 1..Per : (Len(sent[c]) >= i) ~> (Len(got[c]) >= i)
Row(q) == <<q.k, q.s, q.m, IF q.x THEN 1 ELSE 0>>
Generate == (History /\ \A c \in Conns : Len(got[c]) = Per /\ work[c] = None) =>
   \A c \in Conns : PrintT("G|" \o ToString([i \in 1..Per |-> Row(sent[c][i])]))
=============================================================================
