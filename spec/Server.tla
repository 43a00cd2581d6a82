------------------------------- MODULE Server -------------------------------
(* The life of the server and of the requests to it.                          *)
(*   ph      "starting", "serving", "stopping", "returned"                    *)
(*   open    is the address listened at?                                      *)
(*   req[r]  "none", "running" (being handled), "ready" (all of the request   *)
(*           has arrived), "answered", "refused", "cut"                       *)
(*   asked   has the server been told to stop?                                *)
(* The handler of a request runs from its header on and needs the rest of the *)
(* request to answer.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Reqs, History, MaxLen
VARIABLES ph, open, req, asked, hist
vars == <<ph, open, req, asked, hist>>
Log(x) == hist' = IF History THEN Append(hist, x) ELSE hist
Room == History => Len(hist) < MaxLen

Init == ph = "starting" /\ open = FALSE /\ req = [r \in Reqs |-> "none"] /\ asked = FALSE /\ hist = <<>>

Listen == /\ ph = "starting" /\ ~asked /\ ph' = "serving" /\ open' = TRUE /\ UNCHANGED <<req, asked, hist>>
(* the environment: <<1, r>> begins r, <<2, r>> sends the rest, <<3, 0>> tells the server to stop *)
Begin(r) == /\ Room /\ ph # "starting" /\ req[r] = "none"
            /\ (History => (asked => ~open))    \* replay waits until stopping has taken effect
            /\ req' = [req EXCEPT ![r] = IF open THEN "running" ELSE "refused"]
            /\ Log(<<1, r>>) /\ UNCHANGED <<ph, open, asked>>
Rest(r) == /\ Room /\ req[r] = "running" /\ req' = [req EXCEPT ![r] = "ready"] /\ Log(<<2, r>>) /\ UNCHANGED <<ph, open, asked>>
Ask == /\ Room /\ ph = "serving" /\ ~asked /\ asked' = TRUE /\ Log(<<3, 0>>) /\ UNCHANGED <<ph, open, req>>
(* telling it again changes nothing: AskAgain == asked /\ UNCHANGED vars is a stuttering step *)
(* the server *)
Answer(r) == /\ req[r] = "ready" /\ ph # "returned" /\ req' = [req EXCEPT ![r] = "answered"] /\ UNCHANGED <<ph, open, asked, hist>>
Close == /\ asked /\ ph \in {"starting", "serving"} /\ ph' = "stopping" /\ open' = FALSE /\ UNCHANGED <<req, asked, hist>>
Return == /\ ph = "stopping" /\ \A r \in Reqs : req[r] \notin {"running", "ready"}
          /\ ph' = "returned" /\ UNCHANGED <<open, req, asked, hist>>
Next == Listen \/ Ask \/ Close \/ Return \/ \E r \in Reqs : Begin(r) \/ Rest(r) \/ Answer(r)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Listen) /\ WF_vars(Close) /\ WF_vars(Return) /\ \A r \in Reqs : WF_vars(Answer(r)) /\ WF_vars(Rest(r))

-----------------------------------------------------------------------------
Released == ph = "returned" => ~open
NothingCut == ph = "returned" => \A r \in Reqs : req[r] \in {"none", "answered", "refused"}
StopsOnlyWhenAsked == ph \in {"stopping", "returned"} => asked
ServesUntilAsked == (ph = "serving" /\ ~asked) => open
EveryRequestEnds == \A r \in Reqs : (req[r] = "running") ~> (req[r] = "answered")
StopLeadsToReturn == asked ~> (ph = "returned")
Over == ph = "returned" /\ \A r \in Reqs : req[r] \in {"answered", "refused"}
Generate == (History /\ Over) => PrintT("G|" \o ToString(hist))
=============================================================================
