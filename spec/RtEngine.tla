------------------------------ MODULE RtEngine ------------------------------
(***************************************************************************)
(* Layer 2 of a whole program: how messages travel between operators.      *)
(*                                                                         *)
(* A program is a record                                                   *)
(*   ops    sequence of operators (RtSem); a Pipeline holds a program      *)
(*          without entry in its field prog                                *)
(*   conns  sequence of <<from, fromPort, to, toPort>>; an empty port      *)
(*          stands for the only port there is                              *)
(*   entry  id of the operator that receives the messages                  *)
(*   filter sequence of <<id, ports>>: what receive returns; <<>> for all  *)
(* The state of a program is a function from id to the state of the        *)
(* operator.  A run is a record [ops, log, err]: log is the sequence of    *)
(* emissions <<id, port, message>> in the order in which they happened.    *)
(***************************************************************************)
EXTENDS RtOps, RtIO

(***************************************************************************)
(* Wiring                                                                  *)
(***************************************************************************)
Ids(P) == {P.ops[i].id : i \in 1..Len(P.ops)}
OpOf(P, id) == P.ops[CHOOSE i \in 1..Len(P.ops) : P.ops[i].id = id]

RECURSIVE PipeIn(_)
RECURSIVE PipeOut(_)
NumIn(c) == IF c.type = "Pipeline" THEN Len(PipeIn(c.prog)) ELSE NIn(c)
NumOut(c) == IF c.type = "Pipeline" THEN Len(PipeOut(c.prog)) ELSE NOut(c)
NumCtl(c) == IF c.type = "Pipeline" THEN 0 ELSE NCtl(c)
HasIn(c, p) == \E k \in 1..NumIn(c) : IPort(k) = p
HasCtl(c, p) == \E k \in 1..NumCtl(c) : CPort(k) = p
HasOut(c, p) == \E k \in 1..NumOut(c) : OPort(k) = p
FromPort(c, p) == IF p = "" /\ NumOut(c) = 1 THEN "o1" ELSE p
ToPort(c, p) == IF p = "" /\ NumIn(c) = 1 /\ NumCtl(c) = 0 THEN "i1" ELSE p
Wire(P) == [i \in 1..Len(P.conns) |->
             LET k == P.conns[i]
             IN  <<k[1], FromPort(OpOf(P, k[1]), k[2]), k[3], ToPort(OpOf(P, k[3]), k[4])>>]

\* the ports of a pipeline are the free ports of the operators inside, sorted by their names "id:port"
SortKeys(S) == SetToSortSeq(S, LAMBDA a, b : StrLt(a[1], b[1]))
PipeIn(P) ==
  LET used == {<<Wire(P)[i][3], Wire(P)[i][4]>> : i \in 1..Len(P.conns)}
  IN  SortKeys({<<c.id \o ":" \o IPort(k), c.id, IPort(k)>> :
                  <<c, k>> \in {x \in UNION {{P.ops[i]} \X (1..NumIn(P.ops[i])) : i \in 1..Len(P.ops)} :
                                 <<x[1].id, IPort(x[2])>> \notin used}})
PipeOut(P) ==
  LET used == {<<Wire(P)[i][1], Wire(P)[i][2]>> : i \in 1..Len(P.conns)}
  IN  SortKeys({<<c.id \o ":" \o OPort(k), c.id, OPort(k)>> :
                  <<c, k>> \in {x \in UNION {{P.ops[i]} \X (1..NumOut(P.ops[i])) : i \in 1..Len(P.ops)} :
                                 <<x[1].id, OPort(x[2])>> \notin used}})

\* P with everything that the engine looks up: w.cfg[id], w.tg[<<id, port>>] = targets in order of declaration
RECURSIVE Link(_)
Link(P) ==
  LET wire == Wire(P)
      from == {<<wire[i][1], wire[i][2]>> : i \in 1..Len(wire)}
      ids == Ids(P)
      pipes == {id \in ids : OpOf(P, id).type = "Pipeline"}
  IN  [cfg |-> [id \in ids |-> OpOf(P, id)],
       tg |-> [f \in from |-> LET s == SelectSeq(wire, LAMBDA k : k[1] = f[1] /\ k[2] = f[2])
                              IN  [i \in 1..Len(s) |-> <<s[i][3], s[i][4]>>]],
       sub |-> [id \in pipes |-> Link(OpOf(P, id).prog)],
       pin |-> [id \in pipes |-> PipeIn(OpOf(P, id).prog)],
       pout |-> [id \in pipes |-> PipeOut(OpOf(P, id).prog)]]

RECURSIVE InitNet(_)
InitNet(w) == [id \in DOMAIN w.cfg |-> IF w.cfg[id].type = "Pipeline" THEN [ops |-> InitNet(w.sub[id]), pend |-> {}]
                                       ELSE InitOp(w.cfg[id])]

(***************************************************************************)
(* Steps                                                                   *)
(***************************************************************************)
OK(R) == R.err = ""
RECURSIVE Recv(_, _, _, _, _)
Recv(w, ops, id, port, m) ==
  IF w.cfg[id].type = "Pipeline"
    THEN LET k == CHOOSE k \in 1..Len(w.pin[id]) : IPort(k) = port
             to == w.pin[id][k]
         IN  [ops EXCEPT ![id] = [ops |-> Recv(w.sub[id], ops[id].ops, to[2], to[3], m), pend |-> ops[id].pend \cup {k}]]
    ELSE [ops EXCEPT ![id] = OpRecv(w.cfg[id], ops[id], port, m)]

RECURSIVE Exec(_, _, _)
RECURSIVE Emits(_, _, _, _)
RECURSIVE ExecAll(_, _, _)
RECURSIVE RunInner(_, _, _)
\* one message leaves the port of an operator: all the targets receive it, then all execute
EmitOne(w, R, id, port, m) ==
  LET R1 == [R EXCEPT !.log = Append(@, <<id, port, m>>)]
      key == <<id, port>>
  IN  IF key \notin DOMAIN w.tg THEN R1
      ELSE LET tg == w.tg[key]
               R2 == [R1 EXCEPT !.ops = FoldLeft(LAMBDA o, t : Recv(w, o, t[1], t[2], m), @, tg)]
           IN  ExecAll(w, R2, tg)
ExecAll(w, R, tg) == IF tg = <<>> \/ ~OK(R) THEN R ELSE ExecAll(w, Exec(w, R, Head(tg)[1]), Tail(tg))
\* out: sequence of <<port, messages>>
Emits(w, R, id, out) ==
  IF out = <<>> \/ ~OK(R) THEN R
  ELSE IF Head(out)[2] = <<>> THEN Emits(w, R, id, Tail(out))
  ELSE LET o == Head(out)
       IN  Emits(w, EmitOne(w, R, id, o[1], Head(o[2])), id, << <<o[1], Tail(o[2])>> >> \o Tail(out))
RunInner(w, R, ids) == IF ids = <<>> \/ ~OK(R) THEN R ELSE RunInner(w, Exec(w, R, Head(ids)), Tail(ids))
Exec(w, R, id) ==
  IF w.cfg[id].type = "Pipeline"
    THEN LET s == R.ops[id]
             keys == SetToSortSeq(s.pend, <)
             inner == RunInner(w.sub[id], [ops |-> s.ops, log |-> <<>>, err |-> ""],
                               [i \in 1..Len(keys) |-> w.pin[id][keys[i]][2]])
             R1 == [R EXCEPT !.ops[id] = [ops |-> inner.ops, pend |-> IF OK(inner) THEN {} ELSE s.pend], !.err = inner.err]
             outs(k) == LET x == SelectSeq(inner.log, LAMBDA e : e[1] = w.pout[id][k][2] /\ e[2] = w.pout[id][k][3])
                        IN  [i \in 1..Len(x) |-> x[i][3]]
             ks == SelectSeq(LexOrder(Len(w.pout[id])), LAMBDA k : outs(k) # <<>>)
         IN  IF OK(inner) THEN Emits(w, R1, id, [i \in 1..Len(ks) |-> <<OPort(ks[i]), outs(ks[i])>>]) ELSE R1
    ELSE LET r == OpExec(w.cfg[id], R.ops[id])
             R1 == [R EXCEPT !.ops[id] = r.s, !.err = r.err]
         IN  IF r.err = "" THEN Emits(w, R1, id, r.out) ELSE R1

\* a message for the program; R starts with the log of what happened before within the same operation
ReceiveOne(w, R, entry, port, m) ==
  IF ~OK(R) THEN R
  ELSE IF ~HasIn(w.cfg[entry], port) THEN [R EXCEPT !.err = "error"]
  ELSE Exec(w, [R EXCEPT !.ops = Recv(w, @, entry, port, m)], entry)
\* batch: sequence of <<port, messages>> sorted by port
RECURSIVE ReceiveAll(_, _, _, _)
ReceiveAll(w, R, entry, batch) ==
  IF batch = <<>> \/ ~OK(R) THEN R
  ELSE LET b == Head(batch)
       IN  ReceiveAll(w, FoldLeft(LAMBDA r, m : ReceiveOne(w, r, entry, b[1], m), R, b[2]), entry, Tail(batch))
Start(ops) == [ops |-> ops, log |-> <<>>, err |-> ""]

(***************************************************************************)
(* Results                                                                 *)
(***************************************************************************)
Keys(log) == {<<log[i][1], log[i][2]>> : i \in 1..Len(log)}
Stream(log, k) == LET x == SelectSeq(log, LAMBDA e : e[1] = k[1] /\ e[2] = k[2]) IN [i \in 1..Len(x) |-> x[i][3]]
\* a function from <<id, port>> to the messages that it emitted
Result(log) == [k \in Keys(log) |-> Stream(log, k)]
InFilter(filter, k) == filter = <<>> \/ \E i \in 1..Len(filter) : filter[i][1] = k[1] /\ \E j \in 1..Len(filter[i][2]) : filter[i][2][j] = k[2]
Filtered(filter, res) == [k \in {x \in DOMAIN res : InFilter(filter, x)} |-> res[k]]
=============================================================================
