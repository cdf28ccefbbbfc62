------------------------------- MODULE MCWire -------------------------------
(***************************************************************************)
(* Operators that are created, connected and fed by hand, as in the C++    *)
(* interface: any sequence of connections (most of them refused) and of    *)
(* messages, in any order, so that connections are made while messages     *)
(* are waiting inside of operators. Every transition is written out; a few *)
(* messages at the end show what the connections are good for.             *)
(*   conns  what is connected, as <<from, port, to, port>>                 *)
(*   net    the state of the operators (RtEngine)                          *)
(*   last   the newest time that a port fed by hand has received           *)
(***************************************************************************)
EXTENDS RtEngine, Randomization

Depth == EnvI("RT_LEN", 3)
Walk == EnvI("RT_WALK", 0) = 1
Inner == [ops |-> <<[type |-> "Add", id |-> "p", value |-> "1/2"], [type |-> "Minus", id |-> "q"]>>, conns |-> << <<"p", "", "q", "i2">> >>]
\* what is there, and how many of them are fed by hand
Pools == <<
  [ops |-> <<[type |-> "Input", id |-> "in", numPorts |-> 2], [type |-> "MovingAverage", id |-> "ma", n |-> 2],
             [type |-> "Join", id |-> "j", numPorts |-> 2], [type |-> "Output", id |-> "out", numPorts |-> 2]>>, fed |-> 1],
  [ops |-> <<[type |-> "Demultiplexer", id |-> "dm", numPorts |-> 1], [type |-> "Variable", id |-> "v", value |-> "7"],
             [type |-> "CumulativeSum", id |-> "cs"], [type |-> "Minus", id |-> "mi"]>>, fed |-> 1],
  [ops |-> <<[type |-> "Input", id |-> "b", numPorts |-> 1], [type |-> "Identity", id |-> "a"], [type |-> "Plus", id |-> "s"],
             [type |-> "Demultiplexer", id |-> "d", numPorts |-> 2], [type |-> "Difference", id |-> "df"]>>, fed |-> 2],
  [ops |-> <<[type |-> "Input", id |-> "in", numPorts |-> 1], [type |-> "Pipeline", id |-> "pipe", prog |-> Inner],
             [type |-> "Count", id |-> "n"], [type |-> "Join", id |-> "j", numPorts |-> 2]>>, fed |-> 1],
  [ops |-> <<[type |-> "Pipeline", id |-> "pipe", prog |-> Inner], [type |-> "Join", id |-> "j", numPorts |-> 3],
             [type |-> "Linear", id |-> "l", coeff |-> <<"1", "-2">>], [type |-> "Input", id |-> "z", numPorts |-> 2]>>, fed |-> 1] >>

VARIABLES pool, conns, net, last, dead, hist
vars == <<pool, conns, net, last, dead, hist>>
Ops == Pools[pool].ops
Prog(c) == [ops |-> Ops, conns |-> c]
Init == /\ pool \in 1..Len(Pools)
        /\ conns = <<>>
        /\ net = InitNet(Link(Prog(<<>>)))
        /\ last = [i \in 1..Pools[pool].fed |-> [p \in {} |-> 0]]
        /\ dead = FALSE
        /\ hist = <<>>

Taken(to, port) == \E i \in 1..Len(conns) : conns[i][3] = to /\ conns[i][4] = port
Exists(f, fp, t, tp) == HasOut(Ops[f], FromPort(Ops[f], fp)) /\ (HasIn(Ops[t], ToPort(Ops[t], tp)) \/ HasCtl(Ops[t], ToPort(Ops[t], tp)))
\* no cycles, one origin for each port; what a Variable answers depends on the order of arrival, so it is close to the origin
Sensible(f, fp, t, tp) == /\ f < t /\ t > Pools[pool].fed /\ Ops[f].type # "Output"
                          /\ Ops[t].type = "Variable" => f <= Pools[pool].fed
                          /\ ~Taken(Ops[t].id, ToPort(Ops[t], tp))
                          /\ Ops[t].type = "Demultiplexer" => f <= Pools[pool].fed
Candidates == {<<f, fp, t, tp>> \in (1..Len(Ops)) \X {"", "o1", "o2", "o7"} \X (1..Len(Ops)) \X {"", "i1", "i2", "c1", "x"} :
                 /\ Sensible(f, fp, t, tp)
                 /\ ~(fp = "o7" /\ tp = "x")}
Some(n, S) == RandomSubset(IF Cardinality(S) < n THEN Cardinality(S) ELSE n, S)
Good == {c \in Candidates : Exists(c[1], c[2], c[3], c[4])}
Chosen == IF Walk THEN Some(5, Good) \cup Some(2, Candidates \ Good) ELSE Candidates

\* an empty port stands for the only one there is
PortOf(c, kind, p) == IF p # "" THEN p
                    ELSE IF kind = "data" /\ NumIn(c) = 1 THEN "i1"
                    ELSE IF kind = "control" /\ NumCtl(c) = 1 THEN "c1"
                    ELSE "none"
Known(c, kind, p) == IF kind = "data" THEN HasIn(c, p) ELSE HasCtl(c, p)
Late(i, p) == IF p \in DOMAIN last[i] THEN last[i][p] ELSE 0
\* [log of what was emitted, next state of the operators, err]
Fed(c, state, i, port, m) == LET w == Link(Prog(c)) IN Exec(w, Start(Recv(w, state, Ops[i].id, port, m)), Ops[i].id)

(***************************************************************************)
(* What is seen at the end: every port that is fed by hand gets the next   *)
(* two times                                                               *)
(***************************************************************************)
FedPorts(i) == [k \in 1..NumIn(Ops[i]) |-> <<i, "data", IPort(k)>>] \o [k \in 1..NumCtl(Ops[i]) |-> <<i, "control", CPort(k)>>]
AllPorts == FoldLeft(LAMBDA s, i : s \o FedPorts(i), <<>>, [i \in 1..Pools[pool].fed |-> i])
Newest == CHOOSE t \in {0} \cup UNION {{last[i][p] : p \in DOMAIN last[i]} : i \in 1..Pools[pool].fed} :
            \A i \in 1..Pools[pool].fed : \A p \in DOMAIN last[i] : last[i][p] <= t
RECURSIVE Probes(_, _, _)
Probes(c, state, ms) ==
  IF ms = <<>> THEN <<>>
  ELSE LET m == Head(ms)
           r == Fed(c, state, m[1], m[3], <<m[4], m[5]>>)
       IN  IF OK(r) THEN << <<m, "log", r.log>> >> \o Probes(c, r.ops, Tail(ms)) ELSE << <<m, r.err>> >>
Probing(c, state, t) ==
  Probes(c, state, [k \in 1..Len(AllPorts) |-> AllPorts[k] \o <<t + 1, IF AllPorts[k][2] = "control" THEN "1" ELSE NI(k)>>] \o
                   [k \in 1..Len(AllPorts) |-> AllPorts[k] \o <<t + 2, IF AllPorts[k][2] = "control" THEN "0" ELSE NI(3 - 2 * k)>>])

Do(a, answer) == /\ hist' = Append(hist, <<a, answer>>)
                 /\ UNCHANGED pool
                 /\ Emit([ops |-> Ops, hist |-> hist', probes |-> IF dead' THEN <<>> ELSE Probing(conns', net', Newest')])
                 /\ Count("transitions")
Connect(f, fp, t, tp) ==
  LET ok == Exists(f, fp, t, tp)
  IN  /\ conns' = IF ok THEN Append(conns, <<Ops[f].id, FromPort(Ops[f], fp), Ops[t].id, ToPort(Ops[t], tp)>>) ELSE conns
      /\ UNCHANGED <<net, last, dead>>
      /\ Do(<<"connect", Ops[f].id, fp, Ops[t].id, tp>>, IF ok THEN <<"does">> ELSE <<"refuses">>)
Send(i, kind, p, t, v) ==
  \E port \in {PortOf(Ops[i], kind, p)} :
      IF ~Known(Ops[i], kind, port)
        THEN UNCHANGED <<conns, net, last, dead>> /\ Do(<<"send", Ops[i].id, kind, p, t, v>>, <<"refuses">>)
        ELSE \E r \in {Fed(conns, net, i, port, <<t, v>>)} :
             /\ Ops[i].type = "Input" \/ t > Late(i, port)
             /\ net' = r.ops
             /\ dead' = ~OK(r)
             /\ last' = [last EXCEPT ![i] = [q \in DOMAIN @ \cup {port} |-> IF q = port /\ t > Late(i, port) THEN t ELSE Late(i, q)]]
             /\ UNCHANGED conns
             /\ Do(<<"send", Ops[i].id, kind, p, t, v>>, IF OK(r) THEN <<"log", r.log>> ELSE <<r.err>>)
Next == /\ Len(hist) < Depth /\ ~dead
        /\ \/ \E c \in Chosen : Connect(c[1], c[2], c[3], c[4])
           \/ \E i \in 1..Pools[pool].fed : \E t \in {Newest, Newest + 1} : t > 0 /\
                \/ \E p \in {"", "i1", "i2", "x"} : Send(i, "data", p, t, NI(((Len(hist) * 3) % 5) - 1))
                \/ NumCtl(Ops[i]) > 0 /\ \E p \in {"", "c1", "i1"} : \E v \in {"0", "1"} : Send(i, "control", p, t, v)
Spec == Init /\ [][Next]_vars
View == <<pool, conns, net, last, dead, Len(hist)>>

\* a refused call changes nothing
RefusedChangesNothing == [][hist'[Len(hist')][2] = <<"refuses">> => conns' = conns /\ net' = net]_vars
\* a connection changes nothing that has been received
ConnectionKeeps == [][hist'[Len(hist')][1][1] = "connect" => net' = net]_vars
OneOrigin == \A i, j \in 1..Len(conns) : i # j => ~(conns[i][3] = conns[j][3] /\ conns[i][4] = conns[j][4])
\* only operators that can be reached from where the message came in emit something
RECURSIVE Reach(_)
Reach(S) == LET N == S \cup {conns[i][3] : i \in {k \in 1..Len(conns) : conns[k][1] \in S}} IN IF N = S THEN S ELSE Reach(N)
OnlyReached == hist = <<>> \/ LET x == hist[Len(hist)] IN
                 x[2][1] = "log" => \A k \in 1..Len(x[2][2]) : x[2][2][k][1] \in Reach({x[1][2]})
=============================================================================
