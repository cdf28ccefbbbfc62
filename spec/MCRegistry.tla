----------------------------- MODULE MCRegistry -----------------------------
(***************************************************************************)
(* The registry of programs: create, delete, save, buffered and direct     *)
(* messages, over several ids.  reg[id] is <<>> or the program             *)
(*   [prog, ops, buf]  buf: the messages pending, a sequence of            *)
(*                     <<port, message>> in order of arrival               *)
(* slot holds the bytes of a saved program.                                *)
(*                                                                         *)
(* What is visited is every state of the registry (VIEW leaves the history *)
(* out); every transition out of every state is written out with a history *)
(* that leads to it and what a following round of questions answers.       *)
(***************************************************************************)
EXTENDS RtEngine

Depth == EnvI("RT_LEN", 5)
RegIds == {"p", "q"}
O(type, id) == [type |-> type, id |-> id]
In(n) == [type |-> "Input", id |-> "in", numPorts |-> n]
Progs == <<
  [ops |-> <<In(1), O("CumulativeSum", "sum"), O("Count", "cnt")>>,
   conns |-> << <<"in", "o1", "sum", "i1">>, <<"sum", "o1", "cnt", "i1">> >>, entry |-> "in", filter |-> <<>>],
  [ops |-> <<[In(2) EXCEPT !.id = "src"], O("Minus", "dif")>>,
   conns |-> << <<"src", "o1", "dif", "i1">>, <<"src", "o2", "dif", "i2">> >>, entry |-> "src", filter |-> << <<"dif", <<"o1">>>> >>] >>
Bad == {"nojson", "noentry", "notype", "noconn", "ctlentry"}
Linked == TLCEval([i \in 1..Len(Progs) |-> Link(Progs[i])])

VARIABLES reg, slot, hist
vars == <<reg, slot, hist>>
Absent == [prog |-> 0]
Alive(r, id) == r[id].prog # 0

Init == /\ reg = [id \in RegIds |-> Absent]
        /\ slot = Absent
        /\ hist = <<>>

Clock == Len(hist) \div 2 + 1

(***************************************************************************)
(* Operations: [do, r, reg, slot]                                          *)
(***************************************************************************)
\* r: what it reports, <<"ok">>, <<"refused">>, <<"true">>, <<"false">>, <<"any">>, <<"fails">> or <<"log", messages>>
Same(a, r) == [do |-> a, r |-> r, reg |-> reg, slot |-> slot]
Create(id, p) == [Same(<<"create", id, p>>, IF Alive(reg, id) THEN <<"any">> ELSE <<"ok">>) EXCEPT
                   !.reg = IF Alive(reg, id) THEN reg
                           ELSE [reg EXCEPT ![id] = [prog |-> p, ops |-> InitNet(Linked[p]), buf |-> <<>>]]]
CreateBad(id, how) == Same(<<"bad", id, how>>, <<"refused">>)
CreateBytes(id) == IF Alive(reg, id) THEN Same(<<"bytes", id>>, <<"refused">>)
                   ELSE [Same(<<"bytes", id>>, <<"ok">>) EXCEPT !.reg = [reg EXCEPT ![id] = [slot EXCEPT !.buf = <<>>]]]
Save(id) == IF Alive(reg, id) THEN [Same(<<"save", id>>, <<"ok">>) EXCEPT !.slot = reg[id]] ELSE Same(<<"save", id>>, <<"refused">>)
Delete(id) == [Same(<<"del", id>>, IF Alive(reg, id) THEN <<"true">> ELSE <<"false">>) EXCEPT !.reg = [reg EXCEPT ![id] = Absent]]
AddMsg(id, port, t, v) ==
  IF Alive(reg, id) THEN [Same(<<"add", id, port, t, v>>, <<"ok">>) EXCEPT !.reg = [reg EXCEPT ![id].buf = Append(@, <<port, <<t, v>>>>)]]
  ELSE Same(<<"add", id, port, t, v>>, <<"refused">>)

ByPort(buf) == LET on(p) == LET x == SelectSeq(buf, LAMBDA e : e[1] = p) IN [i \in 1..Len(x) |-> x[i][2]]
                   all == SelectSeq(<<"i1", "i2", "i9">>, LAMBDA p : on(p) # <<>>)
               IN  [i \in 1..Len(all) |-> <<all[i], on(all[i])>>]
Selected(pr, dbg, log) == IF dbg THEN log ELSE SelectSeq(log, LAMBDA e : InFilter(pr.filter, <<e[1], e[2]>>))
Receive(r, id, batch, dbg) == \* [r, reg]
  IF ~Alive(r, id) THEN [r |-> <<"refused">>, reg |-> r]
  ELSE LET R == ReceiveAll(Linked[r[id].prog], Start(r[id].ops), Progs[r[id].prog].entry, batch)
       IN  [r |-> IF OK(R) THEN <<"log", Selected(Progs[r[id].prog], dbg, R.log)>> ELSE <<"fails">>, reg |-> [r EXCEPT ![id].ops = R.ops]]
Process(id, dbg) ==
  LET a == <<"proc", id, dbg>> IN
  IF ~Alive(reg, id) THEN Same(a, <<"refused">>)
  ELSE LET x == Receive([reg EXCEPT ![id].buf = <<>>], id, ByPort(reg[id].buf), dbg)
       IN  [Same(a, x.r) EXCEPT !.reg = x.reg]
Batch(id, es, dbg) == \* entries <<port, t, v>> are added, then all that is pending is processed
  LET a == <<"batch", id, es, dbg>> IN
  IF ~Alive(reg, id) THEN Same(a, <<"refused">>)
  ELSE LET b == reg[id].buf \o [i \in 1..Len(es) |-> <<es[i][1], <<es[i][2], es[i][3]>>>>]
           x == Receive([reg EXCEPT ![id].buf = <<>>], id, ByPort(b), dbg)
       IN  [Same(a, x.r) EXCEPT !.reg = x.reg]
Direct(id, batch, dbg) ==
  LET x == Receive(reg, id, batch, dbg) IN [Same(<<"map", id, batch, dbg>>, x.r) EXCEPT !.reg = x.reg]

(***************************************************************************)
(* A round of questions at the end, for all the ids                        *)
(***************************************************************************)
Info(r, id) == IF ~Alive(r, id) THEN <<"refused">>
               ELSE LET p == Progs[r[id].prog] IN <<"info", [entry |-> p.entry, ports |-> [k \in 1..NumIn(OpOf(p, p.entry)) |-> IPort(k)], filter |-> p.filter]>>
Probe(r, t) ==
  LET one(id) == LET b == IF Alive(r, id) THEN ByPort(r[id].buf) ELSE <<>>
                     x == Receive(r, id, b, TRUE)
                     m == << <<"i1", << <<t, NI(7)>> >> >> >> \o
                          (IF Alive(r, id) /\ NumIn(OpOf(Progs[r[id].prog], Progs[r[id].prog].entry)) = 2 THEN << <<"i2", << <<t, NI(3)>> >> >> >> ELSE <<>>)
                     y == Receive(x.reg, id, m, TRUE)
                 IN  [id |-> id, info |-> Info(r, id), pending |-> x.r, sent |-> m, got |-> y.r]
  IN  <<one("p"), one("q")>>

Do(y) == \E x \in {y} : \* bound, so that it is evaluated once
         /\ reg' = x.reg
         /\ slot' = x.slot
         /\ hist' = Append(hist, <<x.do, x.r>>)
         /\ Emit([hist |-> hist', probe |-> Probe(x.reg, Clock + 5)])
         /\ Count("transitions")
Next == /\ Len(hist) < Depth
        /\ \E id \in RegIds :
             \/ \E p \in 1..Len(Progs) : Do(Create(id, p))
             \/ \E how \in Bad : Do(CreateBad(id, how))
             \/ slot # Absent /\ Do(CreateBytes(id))
             \/ Do(Save(id))
             \/ Do(Delete(id))
             \/ \E port \in {"i1", "i2", "i9"} : Do(AddMsg(id, port, Clock, NI(Len(hist) + 1)))
             \/ \E dbg \in BOOLEAN : Do(Process(id, dbg))
             \/ \E dbg \in BOOLEAN : \E b \in {<< <<"i1", << <<Clock, NI(Len(hist) + 1)>> >> >> >>,
                                               << <<"i1", << <<Clock, NI(Len(hist) + 1)>>, <<Clock + 1, NI(9)>> >> >>, <<"i2", << <<Clock, NI(2)>> >> >> >>} :
                  Do(Direct(id, b, dbg))
             \/ \E port \in {"i1", "i9"} : Do(Batch(id, << <<port, Clock + 1, NI(Len(hist) + 1)>>, <<"i1", Clock, NI(4)>> >>, port = "i1"))
Spec == Init /\ [][Next]_vars
View == <<reg, slot, Len(hist)>>

(***************************************************************************)
(* What must hold                                                          *)
(***************************************************************************)
Ops(id) == SelectSeq(hist, LAMBDA h : h[1][2] = id)
\* a program exists exactly between a successful creation and its deletion
Exists(id) == LET x == Ops(id)
                  I == {i \in 1..Len(x) : x[i][1][1] \in {"create", "del"} \/ (x[i][1][1] = "bytes" /\ x[i][2] = <<"ok">>)}
              IN  I # {} /\ x[CHOOSE i \in I : \A j \in I : j <= i][1][1] # "del"
LivesFromCreateToDelete == \A id \in RegIds : Alive(reg, id) <=> Exists(id)
Isolated == [][\A id \in RegIds : hist'[Len(hist')][1][2] # id => reg'[id] = reg[id]]_vars
RefusedChangesNothing == [][hist'[Len(hist')][2] = <<"refused">> => reg' = reg /\ slot' = slot]_vars
PendingOnlyOfTheLiving == \A id \in RegIds : Alive(reg, id) => \A i \in 1..Len(reg[id].buf) :
                            \E j \in 1..Len(hist) : hist[j][1][1] = "add" /\ hist[j][1][2] = id /\ hist[j][1][4] = reg[id].buf[i][2][1]
=============================================================================
