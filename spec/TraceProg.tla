----------------------------- MODULE TraceProg -----------------------------
(***************************************************************************)
(* Validates sessions recorded from the real code.  Every session is a     *)
(* program and the operations that it went through, with what they         *)
(* returned; a session is accepted when RtEngine produces the same         *)
(* results, step after step.                                               *)
(*                                                                         *)
(* A session is [prog, steps]; a step is one of                            *)
(*   [k |-> "recv", batch, res, err, dbg]  a batch of messages and what    *)
(*       came out: <<id, port, messages>>; err = 1 when it was refused;    *)
(*       dbg = 1 when everything was asked for, not only the output        *)
(*   [k |-> "save"]  the program was saved and restored, at no effect      *)
(*   [k |-> "feed", batch]  a batch whose results come later, in           *)
(*   [k |-> "totals", res]  all that came out since the last totals; the   *)
(*       code received the messages of different ports in another order    *)
(*                                                                         *)
(* Sessions that fail are written out (Emit) with what was expected; those *)
(* that come to a comparison that rounding leaves open are cut there.      *)
(***************************************************************************)
EXTENDS RtEngine

VARIABLES ti, l, ops, mag, sum, verdict
vars == <<ti, l, ops, mag, sum, verdict>>

AllTraces == Traces
Linked == TLCEval([i \in 1..Len(AllTraces) |-> Link(AllTraces[i].prog)])

Steps == AllTraces[ti].steps
Prog == AllTraces[ti].prog
W == Linked[ti]

Init == /\ ti \in 1..Len(AllTraces)
        /\ l = 1
        /\ ops = InitNet(W)
        /\ mag = "1"
        /\ sum = <<>>
        /\ verdict = [v |-> "open"]

Got(step) == [k \in {<<step.res[i][1], step.res[i][2]>> : i \in 1..Len(step.res)} |->
               LET i == CHOOSE i \in 1..Len(step.res) : step.res[i][1] = k[1] /\ step.res[i][2] = k[2] IN step.res[i][3]]
SameMsgs(want, got) == /\ Len(want) = Len(got)
                       /\ \A i \in 1..Len(want) : want[i][1] = got[i][1] /\ NClose(want[i][2], got[i][2], mag')
Same(want, got) == /\ DOMAIN want = DOMAIN got
                   /\ \A k \in DOMAIN want : SameMsgs(want[k], got[k])
AsList(res) == LET ks == SetToSeq(DOMAIN res) IN [i \in 1..Len(ks) |-> <<ks[i][1], ks[i][2], res[ks[i]]>>]

\* (bound by \E, not LET: TLC would evaluate a LET again wherever an action refers to it)
Receive(step) ==
  \E R \in {ReceiveAll(W, Start(ops), Prog.entry, step.batch)} :
  \E want \in {TLCEval(Filtered(IF step.dbg = 1 THEN <<>> ELSE Prog.filter, Result(R.log)))} :
  \E got \in {TLCEval(Got(step))} :
      /\ ops' = R.ops
      /\ mag' = NMax(<<mag>> \o [i \in 1..Len(R.log) |-> NAbs(R.log[i][3][2])])
      /\ verdict' = CASE R.err = "amb" -> [v |-> "cut", at |-> l]
                      [] NHuge(mag') -> [v |-> "cut", at |-> l]
                      [] R.err = "error" -> IF step.err = 1 THEN [v |-> "refused", at |-> l]
                                            ELSE [v |-> "bad", at |-> l, want |-> "an error"]
                      [] OTHER -> IF step.err = 1 \/ ~Same(want, got)
                                    THEN [v |-> "bad", at |-> l, want |-> AsList(want)]
                                    ELSE [v |-> "open"]
      /\ UNCHANGED sum
Feed(step) ==
  \E R \in {ReceiveAll(W, Start(ops), Prog.entry, step.batch)} :
      /\ ops' = R.ops
      /\ mag' = NMax(<<mag>> \o [i \in 1..Len(R.log) |-> NAbs(R.log[i][3][2])])
      /\ sum' = sum \o R.log
      /\ verdict' = IF R.err # "" \/ NHuge(mag') THEN [v |-> "cut", at |-> l] ELSE verdict
Totals(step) ==
  \E want \in {TLCEval(Result(sum))} : \E got \in {TLCEval(Got(step))} :
      /\ sum' = <<>>
      /\ mag' = mag
      /\ verdict' = IF Same(want, got) THEN verdict ELSE [v |-> "bad", at |-> l, want |-> AsList(want)]
      /\ UNCHANGED ops
Next == /\ verdict.v = "open"
        /\ l <= Len(Steps)
        /\ l' = l + 1
        /\ UNCHANGED ti
        /\ CASE Steps[l].k = "recv" -> Receive(Steps[l])
             [] Steps[l].k = "save" -> UNCHANGED <<ops, mag, sum, verdict>>
             [] Steps[l].k = "feed" -> Feed(Steps[l])
             [] Steps[l].k = "totals" -> Totals(Steps[l])

Spec == Init /\ [][Next]_vars

Reported ==
  CASE verdict.v # "open" -> Emit([trace |-> ti, verdict |-> verdict])
    [] l > Len(Steps) -> Emit([trace |-> ti, verdict |-> [v |-> "accepted", at |-> l]])
    [] OTHER -> TRUE
=============================================================================
