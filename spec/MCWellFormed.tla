---------------------------- MODULE MCWellFormed ----------------------------
(***************************************************************************)
(* Which programs are accepted: sound programs, with one thing (or two)    *)
(* about them changed at every possible place.                             *)
(*   WellFormed   operators of known types with an id, connections between *)
(*                existing operators and ports (a port left out only when  *)
(*                there is just one), an entry operator that exists and    *)
(*                has no control ports; the same inside pipelines          *)
(* A program that is accepted answers a few messages as RtEngine does.     *)
(***************************************************************************)
EXTENDS RtSound

Two == EnvI("RT_TWO", 0) = 1
In(n) == [type |-> "Input", id |-> "in", numPorts |-> n]
O(type, id) == [type |-> type, id |-> id]
Ov(type, id, v) == [type |-> type, id |-> id, value |-> v]
Op(type, id, n) == [type |-> type, id |-> id, numPorts |-> n]
Pipe(id, ops, conns) == [type |-> "Pipeline", id |-> id, prog |-> [ops |-> ops, conns |-> conns]]
Base == <<
  [ops |-> <<In(2), Ov("Add", "a", "10"), O("Minus", "m"), Op("Join", "j", 2)>>,
   conns |-> << <<"in", "o1", "a", "">>, <<"a", "", "m", "i1">>, <<"in", "o2", "m", "i2">>, <<"m", "o1", "j", "i1">> >>, entry |-> "in"],
  [ops |-> <<Ov("Variable", "v", "1"), Op("Demultiplexer", "d", 1), In(3), O("Count", "k")>>,
   conns |-> << <<"in", "o1", "d", "i1">>, <<"in", "o2", "d", "c1">>, <<"in", "o3", "v", "i1">>, <<"d", "", "k", "">> >>, entry |-> "in"],
  [ops |-> <<Pipe("p", <<O("Plus", "s"), Ov("Scale", "t", "2")>>, << <<"s", "", "t", "">> >>), In(2), O("Identity", "z")>>,
   conns |-> << <<"in", "o1", "p", "i1">>, <<"in", "o2", "p", "i2">>, <<"p", "", "z", "">> >>, entry |-> "in"],
  [ops |-> <<In(1), Pipe("p", <<O("Count", "s"), Ov("Scale", "t", "2")>>, << <<"s", "o1", "t", "i1">> >>), O("Identity", "z")>>,
   conns |-> << <<"in", "o1", "p", "i1">>, <<"p", "o1", "z", "i1">> >>, entry |-> "in"] >>

(***************************************************************************)
(* Changes                                                                 *)
(***************************************************************************)
Words == {"", "o1", "o2", "o4", "i1", "i2", "i4", "c1", "c2"}
Names(P) == {P.ops[i].id : i \in 1..Len(P.ops)} \cup {"nobody", ""}
\* a change: <<what, where, to>>; where may go into the pipeline with the index of the operator
ConnChanges(P) == {<<"conn", <<i, f>>, w>> : i \in 1..Len(P.conns), f \in {2, 4}, w \in Words}
                  \cup {<<"conn", <<i, f>>, w>> : i \in 1..Len(P.conns), f \in {1, 3}, w \in Names(P)}
                  \cup {<<"unconn", <<i, f>>, "">> : i \in 1..Len(P.conns), f \in {1, 3}}
                  \cup {<<"more", <<>>, k>> : k \in {<<"in", "o1", "nobody", "i1">>, <<"nobody", "", "j", "i1">>, <<"in", "o9", "nobody", "">>}}
OpChanges(P) == {<<"type", i, w>> : i \in 1..Len(P.ops), w \in {"Nothing", "input", ""}}
                \cup {<<"drop", i, "">> : i \in 1..Len(P.ops)}
                \cup {<<"noid", i, "">> : i \in 1..Len(P.ops)} \cup {<<"notype", i, "">> : i \in 1..Len(P.ops)}
EntryChanges(P) == {<<"entry", 0, w>> : w \in Names(P)} \cup {<<"noentry", 0, "">>, <<"noops", 0, "">>, <<"noconns", 0, "">>, <<"nothing", 0, "">>}
PipeChanges(P) == UNION {{<<"inside", i, c>> : c \in ConnChanges(P.ops[i].prog) \cup OpChanges(P.ops[i].prog) \cup {<<"noops", 0, "">>, <<"noconns", 0, "">>}} :
                          i \in {j \in 1..Len(P.ops) : P.ops[j].type = "Pipeline"}}
Changes(P) == {<<"same", 0, "">>} \cup ConnChanges(P) \cup OpChanges(P) \cup EntryChanges(P) \cup PipeChanges(P)

\* P with a change; parts that are gone are noted in P.gone
Mark(P, g) == [P EXCEPT !.gone = Append(@, g)]
RECURSIVE Change(_, _)
Change(P, c) ==
  CASE c[1] \in {"same"} -> P
    [] c[1] = "conn" -> IF c[2][1] <= Len(P.conns) THEN [P EXCEPT !.conns[c[2][1]][c[2][2]] = c[3]] ELSE P
    [] c[1] = "unconn" -> Mark(P, <<IF c[2][2] = 1 THEN "from" ELSE "to", c[2][1]>>)
    [] c[1] = "more" -> [P EXCEPT !.conns = Append(@, c[3])]
    [] c[1] = "type" -> IF c[2] <= Len(P.ops) THEN [P EXCEPT !.ops[c[2]].type = c[3]] ELSE P
    [] c[1] = "drop" -> IF c[2] <= Len(P.ops) THEN [P EXCEPT !.ops = RemoveAt(@, c[2])] ELSE P
    [] c[1] = "noid" -> Mark(P, <<"id", c[2]>>)
    [] c[1] = "notype" -> Mark(P, <<"type", c[2]>>)
    [] c[1] = "entry" -> [P EXCEPT !.entry = c[3]]
    [] c[1] = "noentry" -> Mark(P, <<"entryOperator", 0>>)
    [] c[1] = "noops" -> Mark(P, <<"operators", 0>>)
    [] c[1] = "noconns" -> Mark(P, <<"connections", 0>>)
    [] c[1] = "nothing" -> Mark(P, <<"text", 0>>)
    [] c[1] = "inside" -> LET x == Change([P.ops[c[2]].prog EXCEPT !.conns = @] @@ [gone |-> <<>>], c[3])
                          IN  [P EXCEPT !.ops[c[2]].prog = x]

Messages == << <<"i1", 1, "5">>, <<"i2", 1, "1">>, <<"i1", 2, "3">>, <<"i3", 2, "1">>, <<"i2", 2, "0">>, <<"i2", 3, "-2">> >>
RECURSIVE Feed(_, _, _, _)
Feed(w, R, id, ms) == \* a log for each message; it ends at the first error
  IF ms = <<>> THEN <<>>
  ELSE LET m == Head(ms)
           x == ReceiveOne(w, [R EXCEPT !.log = <<>>], id, m[1], <<m[2], m[3]>>)
       IN  IF OK(x) THEN << <<"log", x.log>> >> \o Feed(w, x, id, Tail(ms)) ELSE << <<"fails">> >>

VARIABLES bi, c1, c2
vars == <<bi, c1, c2>>
Init == /\ bi \in 1..Len(Base)
        /\ c1 \in Changes(Base[bi])
        /\ c2 \in IF Two /\ c1[1] \in {"conn", "entry"} THEN ConnChanges(Base[bi]) \cup EntryChanges(Base[bi]) ELSE {<<"same", 0, "">>}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

P == Change(Change(Base[bi] @@ [gone |-> <<>>, filter |-> <<>>], c1), c2)
PortsOf(id) == LET o == OpOf(P, id) IN [k \in 1..NumIn(o) |-> IPort(k)]
Decided == LET ok == WellFormed(P)
               run == ok /\ Runnable(P)
           IN  Emit([prog |-> P, ok |-> ok, run |-> run, msgs |-> Messages,
                     ports |-> IF ok THEN PortsOf(P.entry) ELSE <<>>,
                     answers |-> IF run THEN Feed(Link(P), Start(InitNet(Link(P))), P.entry, Messages) ELSE <<>>])
BaseIsSound == c1[1] = "same" /\ c2[1] = "same" => WellFormed(P) /\ Runnable(P)
=============================================================================
