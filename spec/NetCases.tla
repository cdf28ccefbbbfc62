------------------------------ MODULE NetCases ------------------------------
(***************************************************************************)
(* Programs that MCNet explores completely, by group.  [p, gaps, vals, len]*)
(* as in OpCases; all the ports of the entry share the values.             *)
(***************************************************************************)
EXTENDS RtEngine

Deep == EnvI("RT_DEEP", 0)
L(n) == n + Deep
In(n) == [type |-> "Input", id |-> "in", numPorts |-> n]
O(type, id) == [type |-> type, id |-> id]
Ov(type, id, v) == [type |-> type, id |-> id, value |-> v]
On(type, id, n) == [type |-> type, id |-> id, n |-> n]
Op(type, id, n) == [type |-> type, id |-> id, numPorts |-> n]
Pipe(id, ops, conns) == [type |-> "Pipeline", id |-> id, prog |-> [ops |-> ops, conns |-> conns]]
C(f, fp, t, tp) == <<f, fp, t, tp>>
Prog(ops, conns) == [ops |-> ops, conns |-> conns, entry |-> "in", filter |-> <<>>]
N(ops, conns, gaps, vals, len) == [p |-> Prog(ops, conns), gaps |-> gaps, vals |-> vals, len |-> len]

(***************************************************************************)
(* Fan-out, diamonds, operators with several ports                         *)
(***************************************************************************)
FanCases == <<
  \* a diamond with branches of different length, and a tap on each
  N(<<In(1), Ov("Add", "aa", "1"), Ov("Scale", "bb", "3"), O("Count", "cc"), O("Minus", "dd"), O("CumulativeSum", "ee")>>,
    <<C("in", "o1", "aa", ""), C("aa", "", "bb", ""), C("in", "o1", "dd", "i2"), C("bb", "", "dd", "i1"), C("dd", "o1", "ee", "i1"),
      C("aa", "o1", "cc", "i1")>>, {0, 1, 2}, {"1", "-2"}, L(4)),
  \* both ports of one operator from the same output
  N(<<In(1), O("Plus", "aa"), O("Multiplication", "bb"), Op("Join", "cc", 2)>>,
    <<C("in", "o1", "aa", "i1"), C("in", "o1", "aa", "i2"), C("aa", "o1", "bb", "i1"), C("in", "o1", "bb", "i2"),
      C("bb", "o1", "cc", "i1"), C("aa", "o1", "cc", "i2")>>, {1, 3}, {"1", "-2"}, L(4)),
  \* branches that lose messages meet again
  N(<<In(1), Ov("GreaterThan", "aa", "0"), Ov("LessThan", "bb", "2"), Op("Join", "cc", 2), O("Minus", "dd"), On("MovingAverage", "ee", 2)>>,
    <<C("in", "o1", "aa", ""), C("in", "o1", "bb", ""), C("aa", "o1", "cc", "i1"), C("bb", "o1", "cc", "i2"),
      C("cc", "o1", "dd", "i1"), C("cc", "o2", "dd", "i2"), C("bb", "o1", "ee", "i1")>>, {1}, {"-1", "1", "3"}, L(5)),
  \* a window and a resampler against the raw stream
  N(<<In(1), On("MovingAverage", "aa", 2), O("Minus", "bb"), [type |-> "ConstantResampler", id |-> "cc", interval |-> 2], O("Plus", "dd")>>,
    <<C("in", "o1", "aa", ""), C("in", "o1", "bb", "i1"), C("aa", "o1", "bb", "i2"), C("in", "o1", "cc", ""), C("cc", "o1", "dd", "i1"),
      C("bb", "o1", "dd", "i2")>>, {1, 2, 3}, {"2", "-4"}, L(5)),
  \* two entry ports, joined twice
  N(<<In(2), O("Plus", "aa"), Op("Join", "bb", 3), O("Difference", "cc"), [type |-> "Linear", id |-> "dd", coeff |-> <<"1", "-2", "3">>]>>,
    <<C("in", "o1", "aa", "i1"), C("in", "o2", "aa", "i2"), C("in", "o1", "bb", "i2"), C("in", "o2", "bb", "i3"), C("aa", "o1", "bb", "i1"),
      C("in", "o2", "cc", ""), C("bb", "o1", "dd", "i1"), C("bb", "o2", "dd", "i2"), C("bb", "o3", "dd", "i3")>>, {0, 1, 2}, {"1", "-2"}, L(4)),
  \* many messages from one: a resampler feeds a fan-out
  N(<<In(1), [type |-> "ConstantResampler", id |-> "aa", interval |-> 1], O("CumulativeSum", "bb"), On("MovingAverage", "cc", 2), O("Minus", "dd")>>,
    <<C("in", "o1", "aa", ""), C("aa", "o1", "bb", ""), C("aa", "o1", "cc", ""), C("bb", "o1", "dd", "i1"), C("cc", "o1", "dd", "i2")>>,
    {1, 3}, {"2", "-4"}, L(4)) >>

(***************************************************************************)
(* Control ports                                                           *)
(***************************************************************************)
RouteCases == <<
  \* even and odd: each message goes to one side, the sides are summed apart
  N(<<In(2), Op("Demultiplexer", "aa", 2), O("CumulativeSum", "bb"), O("Count", "cc"), Ov("EqualTo", "ee", "1"), O("And", "ff"), O("Or", "gg")>>,
    <<C("in", "o1", "ff", "i1"), C("in", "o2", "ff", "i2"), C("in", "o1", "gg", "i1"), C("in", "o2", "gg", "i2"), C("in", "o1", "aa", "i1"),
      C("ff", "o1", "aa", "c1"), C("gg", "o1", "aa", "c2"), C("aa", "o1", "bb", ""), C("aa", "o2", "cc", ""), C("in", "o2", "ee", "")>>,
    {1, 2}, {"0", "1"}, L(4)),
  N(<<In(2), Op("Demultiplexer", "aa", 1), Ov("Add", "bb", "5")>>,
    <<C("in", "o1", "aa", "i1"), C("in", "o2", "aa", "c1"), C("aa", "o1", "bb", "")>>, {1, 2}, {"0", "1"}, L(4)),
  N(<<In(2), Ov("Variable", "aa", "1/2"), O("Plus", "bb")>>,
    <<C("in", "o1", "aa", "i1"), C("in", "o2", "aa", "c1"), C("aa", "o1", "bb", "i1"), C("in", "o2", "bb", "i2")>>, {1, 2}, {"3", "-1"}, L(4)) >>

(***************************************************************************)
(* Pipelines                                                               *)
(***************************************************************************)
PipeCases == <<
  \* one in, one out
  N(<<In(1), Pipe("pp", <<Ov("Add", "aa", "1"), O("CumulativeSum", "bb")>>, <<C("aa", "", "bb", "")>>), O("Minus", "cc")>>,
    <<C("in", "o1", "pp", ""), C("in", "o1", "cc", "i1"), C("pp", "", "cc", "i2")>>, {0, 1, 2}, {"1", "-2"}, L(4)),
  \* two in, two out, the names in another order than the declaration
  N(<<In(2), Pipe("pp", <<O("Plus", "zz"), Ov("Scale", "mm", "2"), O("Count", "aa")>>, <<C("zz", "", "mm", ""), C("zz", "", "aa", "")>>),
      O("Minus", "cc")>>,
    <<C("in", "o1", "pp", "i1"), C("in", "o2", "pp", "i2"), C("pp", "o1", "cc", "i1"), C("pp", "o2", "cc", "i2")>>, {1, 2}, {"1", "-2"}, L(4)),
  \* two chains side by side in one pipeline, fed by two ports and by the same port
  N(<<In(1), Pipe("pp", <<Ov("Add", "bb", "5"), On("MovingAverage", "aa", 2)>>, <<>>), Op("Join", "cc", 2), Pipe("qq", <<Ov("Scale", "ss", "-1")>>, <<>>)>>,
    <<C("in", "o1", "pp", "i2"), C("in", "o1", "pp", "i1"), C("pp", "o1", "cc", "i1"), C("pp", "o2", "cc", "i2"), C("cc", "o2", "qq", "i1")>>,
    {1, 2}, {"4", "-2"}, L(5)),
  \* nested, with a join inside
  N(<<In(2), Pipe("pp", <<Pipe("nn", <<O("Minus", "ss"), O("Count", "tt")>>, <<C("ss", "o1", "tt", "i1")>>), Op("Join", "jj", 2)>>,
                  <<C("nn", "o1", "jj", "i1")>>), Ov("Add", "xx", "1")>>,
    <<C("in", "o1", "pp", "i2"), C("in", "o2", "pp", "i3"), C("in", "o1", "pp", "i1"), C("pp", "o2", "xx", "")>>, {1, 2}, {"1", "-2"}, L(4)),
  \* control ports that are connected inside, next to data ports that are not
  N(<<In(2), Pipe("pp", <<O("Or", "aa"), Op("Demultiplexer", "dd", 1), O("Count", "zz")>>, <<C("aa", "o1", "dd", "c1"), C("dd", "o1", "zz", "")>>),
      O("CumulativeSum", "cc")>>,
    <<C("in", "o1", "pp", "i1"), C("in", "o2", "pp", "i2"), C("in", "o1", "pp", "i3"), C("pp", "o1", "cc", "")>>, {1, 2}, {"0", "1"}, L(4)),
  N(<<In(2), Pipe("pp", <<Ov("Variable", "vv", "1/2"), Ov("Scale", "aa", "2")>>, <<C("aa", "o1", "vv", "c1")>>), O("CumulativeSum", "cc")>>,
    <<C("in", "o1", "pp", "i2"), C("in", "o2", "pp", "i1"), C("pp", "o1", "cc", "")>>, {1, 3}, {"4", "-2"}, L(4)),
  \* several messages at once out of a pipeline, silent ports
  N(<<In(1), Pipe("pp", <<[type |-> "ConstantResampler", id |-> "rr", interval |-> 1], Ov("GreaterThan", "gg", "0"), Ov("LessThan", "ll", "0")>>,
                  <<C("rr", "o1", "gg", ""), C("rr", "o1", "ll", "")>>), O("Count", "cc"), O("CumulativeSum", "dd")>>,
    <<C("in", "o1", "pp", ""), C("pp", "o1", "cc", ""), C("pp", "o2", "dd", "")>>, {1, 3}, {"4", "-2"}, L(4)) >>

Nets == LET g == Env("RT_GROUP", "fan") IN CASE g = "fan" -> FanCases [] g = "route" -> RouteCases [] g = "pipe" -> PipeCases

(***************************************************************************)
(* The same program in other words                                         *)
(***************************************************************************)
Rotate(s) == IF s = <<>> THEN s ELSE Append(Tail(s), Head(s))
Backwards(P) == [P EXCEPT !.ops = Reverse(@), !.conns = Reverse(@)]
Turned(P) == [P EXCEPT !.ops = Rotate(Rotate(@)), !.conns = Rotate(@)]

\* the operators of a pipeline in the place of it
Name(pipe, id) == pipe \o "_" \o id
PortNo(p) == CHOOSE k \in 1..MaxPorts : IPort(k) = p \/ OPort(k) = p
RECURSIVE InEnd(_, _)
InEnd(c, k) == \* the operator and port that the k-th input of the pipeline c leads to
  LET e == PipeIn(c.prog)[k]
      o == OpOf(c.prog, e[2])
  IN  IF o.type = "Pipeline" THEN LET x == InEnd(o, PortNo(e[3])) IN <<Name(c.id, x[1]), x[2]>> ELSE <<Name(c.id, e[2]), e[3]>>
RECURSIVE OutEnd(_, _)
OutEnd(c, k) ==
  LET e == PipeOut(c.prog)[k]
      o == OpOf(c.prog, e[2])
  IN  IF o.type = "Pipeline" THEN LET x == OutEnd(o, PortNo(e[3])) IN <<Name(c.id, x[1]), x[2]>> ELSE <<Name(c.id, e[2]), e[3]>>
RECURSIVE FlatOps(_)
FlatOps(P) == FlattenSeq([i \in 1..Len(P.ops) |->
                LET c == P.ops[i] IN
                IF c.type # "Pipeline" THEN <<c>>
                ELSE LET f == FlatOps(c.prog) IN [j \in 1..Len(f) |-> [f[j] EXCEPT !.id = Name(c.id, @)]]])
RECURSIVE FlatConns(_)
FlatConns(P) ==
  LET wire == Wire(P)
      outer == [i \in 1..Len(wire) |->
                 LET k == wire[i]
                     f == OpOf(P, k[1])
                     t == OpOf(P, k[3])
                     fe == IF f.type = "Pipeline" THEN OutEnd(f, PortNo(k[2])) ELSE <<k[1], k[2]>>
                     te == IF t.type = "Pipeline" THEN InEnd(t, PortNo(k[4])) ELSE <<k[3], k[4]>>
                 IN  <<fe[1], fe[2], te[1], te[2]>>]
      inner(c) == LET k == FlatConns(c.prog)
                  IN  [j \in 1..Len(k) |-> <<Name(c.id, k[j][1]), k[j][2], Name(c.id, k[j][3]), k[j][4]>>]
  IN  FlattenSeq([i \in 1..Len(P.ops) |-> IF P.ops[i].type = "Pipeline" THEN inner(P.ops[i]) ELSE <<>>]) \o outer
Flat(P) == [P EXCEPT !.ops = FlatOps(P), !.conns = FlatConns(P)]
\* where the emission <<id, port>> of P is found in Flat(P)
FlatKey(P, k) == LET c == OpOf(P, k[1]) IN IF c.type = "Pipeline" THEN OutEnd(c, PortNo(k[2])) ELSE k
=============================================================================
