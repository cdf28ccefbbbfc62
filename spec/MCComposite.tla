---------------------------- MODULE MCComposite ----------------------------
(***************************************************************************)
(* How a Composite is built: every sequence of create and connection calls *)
(* over a few names, most of which are refused; what was accepted is a     *)
(* graph (RtEngine) that then receives a few messages.                     *)
(* VIEW leaves the history out; every transition is written out.           *)
(***************************************************************************)
EXTENDS RtEngine

Depth == EnvI("RT_LEN", 5)
O(type, id) == [type |-> type, id |-> id]
\* what may be created, under which names
Kinds == <<[type |-> "Input", numPorts |-> 2], [type |-> "Output", numPorts |-> 2], [type |-> "Add", value |-> "10"],
           [type |-> "Minus"], [type |-> "Join", numPorts |-> 3], [type |-> "Demultiplexer", numPorts |-> 1]>>
Named(k, id) == Kinds[k] @@ [id |-> id]

VARIABLES ops, conns, hist
vars == <<ops, conns, hist>>
Init == ops = <<>> /\ conns = <<>> /\ hist = <<>>

Index(id) == LET I == {i \in 1..Len(ops) : ops[i].id = id} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
HasType(t) == \E i \in 1..Len(ops) : ops[i].type = t
Taken(id) == Index(id) # 0
Names == <<"bb", "a", "c", "ab", "d", "aa", "z", "y", "w", "v", "u", "t", "s", "r">>

CanCreate(k, id) == /\ ~Taken(id)
                    /\ Kinds[k].type \in {"Input", "Output"} => ~HasType(Kinds[k].type)
Real(f, p) == FromPort(OpOf([ops |-> ops], f), p)
RealTo(t, p) == ToPort(OpOf([ops |-> ops], t), p)
CanConnect(f, fp, t, tp) ==
  /\ Taken(f) /\ Taken(t)
  /\ LET a == OpOf([ops |-> ops], f)
         b == OpOf([ops |-> ops], t)
         p == FromPort(a, fp)
         q == ToPort(b, tp)
     IN  HasOut(a, p) /\ (HasIn(b, q) \/ HasCtl(b, q))
\* one output for an input, no cycle, nothing into the input and out of the output
Sensible(f, fp, t, tp) ==
  CanConnect(f, fp, t, tp) => /\ Index(f) < Index(t)
                              /\ OpOf([ops |-> ops], f).type # "Output"
                              /\ OpOf([ops |-> ops], t).type # "Input"
                              /\ \A i \in 1..Len(conns) : ~(conns[i][3] = t /\ RealTo(t, conns[i][4]) = RealTo(t, tp))

(***************************************************************************)
(* What the graph answers                                                  *)
(***************************************************************************)
InputId == LET I == {i \in 1..Len(ops) : ops[i].type = "Input"} IN IF I = {} THEN "" ELSE ops[CHOOSE i \in I : TRUE].id
Messages == << <<"i1", 1, "5">>, <<"i2", 1, "-1">>, <<"i2", 2, "3">>, <<"i1", 2, "1">>, <<"i1", 3, "0">> >>
RECURSIVE Feed(_, _, _, _)
Feed(w, R, id, ms) == \* a log for each message; it ends at the first error
  IF ms = <<>> THEN <<>>
  ELSE LET m == Head(ms)
           x == ReceiveOne(w, [R EXCEPT !.log = <<>>], id, m[1], <<m[2], m[3]>>)
       IN  IF OK(x) THEN << <<"log", x.log>> >> \o Feed(w, x, id, Tail(ms)) ELSE << <<"fails">> >>
\* something outside is connected to the first port of the output
Outside == [type |-> "Count", id |-> "ext"]
Answers(o, c) == LET I == {i \in 1..Len(o) : o[i].type = "Input"}
                     U == {i \in 1..Len(o) : o[i].type = "Output"}
                     P == [ops |-> Append(o, Outside), conns |-> IF U = {} THEN c ELSE Append(c, <<o[CHOOSE i \in U : TRUE].id, "o1", "ext", "i1">>)]
                     id == o[CHOOSE i \in I : TRUE].id
                     w == Link(P)
                 IN  IF I = {} THEN << <<"fails">> >> ELSE Feed(w, Start(InitNet(w)), id, Messages)
Ports(o) == LET I == {i \in 1..Len(o) : o[i].type = "Input"}
                U == {i \in 1..Len(o) : o[i].type = "Output"}
            IN  [in |-> IF I = {} THEN <<>> ELSE [k \in 1..o[CHOOSE i \in I : TRUE].numPorts |-> IPort(k)], ctl |-> <<>>,
                 out |-> IF U = {} THEN <<>> ELSE [k \in 1..o[CHOOSE i \in U : TRUE].numPorts |-> OPort(k)]]

Do(a, ok) == /\ hist' = Append(hist, <<a, ok>>)
             /\ Emit([hist |-> hist', ports |-> Ports(ops'), msgs |-> Messages, answers |-> Answers(ops', conns')])
             /\ Count("transitions")
Create(k, id) == /\ ops' = IF CanCreate(k, id) THEN Append(ops, Named(k, id)) ELSE ops
                 /\ UNCHANGED conns
                 /\ Do(<<"create", Named(k, id)>>, CanCreate(k, id))
Connect(f, fp, t, tp) == /\ Sensible(f, fp, t, tp)
                         /\ conns' = IF CanConnect(f, fp, t, tp) THEN Append(conns, <<f, fp, t, tp>>) ELSE conns
                         /\ UNCHANGED ops
                         /\ Do(<<"connect", f, fp, t, tp>>, CanConnect(f, fp, t, tp))
Next == /\ Len(hist) < Depth
        /\ \/ \E k \in 1..Len(Kinds) : \E id \in {ops[i].id : i \in 1..Len(ops)} \cup {Names[Len(ops) + 1]} : Create(k, id)
           \/ \E i, j \in 1..Len(ops) : \E fp \in {"", "o1", "o2", "o9"} : \E tp \in {"", "i1", "i2", "c1"} :
                i < j /\ (fp = "o9" => tp \in {"", "i1"}) /\ Connect(ops[i].id, fp, ops[j].id, tp)
           \/ \E i \in 1..Len(ops) : Connect(ops[i].id, "", "x", "") \/ Connect("x", "", ops[i].id, "") \/ Connect(ops[i].id, "o1", "x", "i1")
Spec == Init /\ [][Next]_vars
View == <<ops, conns, Len(hist)>>

OneInputOneOutput == /\ Cardinality({i \in 1..Len(ops) : ops[i].type = "Input"}) <= 1
                     /\ Cardinality({i \in 1..Len(ops) : ops[i].type = "Output"}) <= 1
UniqueIds == \A i, j \in 1..Len(ops) : ops[i].id = ops[j].id => i = j
RefusedChangesNothing == [][~hist'[Len(hist')][2] => ops' = ops /\ conns' = conns]_vars
=============================================================================
