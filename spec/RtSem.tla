------------------------------- MODULE RtSem -------------------------------
(***************************************************************************)
(* Layer 1: what every operator means, as a function from the whole        *)
(* streams received on its ports to the whole streams it has emitted.      *)
(* Nothing here says how an operator computes its output, what it buffers  *)
(* or in which order things happen.  The other layers are checked against  *)
(* these definitions.                                                      *)
(*                                                                         *)
(* A message is <<t, v>>: t an integer time, v a number (RtNum).           *)
(* An operator is a record [type, id, ...parameters].                      *)
(* Streams of an operator: a function from port name to sequence.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, RtNum
LOCAL INSTANCE TLC

T(m) == m[1]
V(m) == m[2]
Vals(xs) == [i \in 1..Len(xs) |-> V(xs[i])]
Times(xs) == {T(xs[i]) : i \in 1..Len(xs)}
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

\* the names of the ports
MaxPorts == 100
PortNames(letter) == TLCEval([k \in 1..MaxPorts |-> letter \o ToString(k)])
INames == PortNames("i")
ONames == PortNames("o")
CNames == PortNames("c")
Num2Str(k) == ToString(k)
IPort(k) == INames[k]
OPort(k) == ONames[k]
CPort(k) == CNames[k]

(***************************************************************************)
(* Families                                                                *)
(***************************************************************************)
MapTypes    == {"Add", "Scale", "Constant", "Power", "Identity", "Function", "TimeShift", "Count", "CumulativeSum",
                "AutoRegressive"}                    \* one output for each input
FilterTypes == {"LessThan", "GreaterThan", "EqualTo"}
WindowTypes == {"MovingAverage", "StandardDeviation", "FiniteImpulseResponse", "PeakDetector", "Difference",
                "RelativeStrengthIndex"}             \* computed over the last messages
ResamplerTypes == {"ConstantResampler", "CosineResampler", "HermiteResampler"}
BinaryTypes == {"Minus", "Plus", "Multiplication", "Division", "And", "Or", "GreaterThanStream", "LessThanStream"}
SyncTypes   == BinaryTypes \cup {"Join", "Linear"}   \* synchronize their ports by time

(***************************************************************************)
(* Shape: the ports of an operator                                         *)
(***************************************************************************)
NIn(c) == CASE c.type \in {"Input", "Output", "Join"} -> c.numPorts
            [] c.type = "Linear" -> Len(c.coeff)
            [] c.type \in BinaryTypes -> 2
            [] OTHER -> 1
NOut(c) == CASE c.type \in {"Input", "Output", "Join", "Demultiplexer"} -> c.numPorts [] OTHER -> 1
NCtl(c) == CASE c.type = "Demultiplexer" -> c.numPorts [] c.type = "Variable" -> 1 [] OTHER -> 0

DataPorts(c) == {IPort(k) : k \in 1..NIn(c)}
CtlPorts(c)  == {CPort(k) : k \in 1..NCtl(c)}
OutPorts(c)  == {OPort(k) : k \in 1..NOut(c)}

(***************************************************************************)
(* Values of one message                                                   *)
(***************************************************************************)
Seg(ps, x) == \* the segment of the table of points that decides the value at x
  LET I == {i \in 1..(Len(ps) - 1) : NLe(ps[i][1], x)}
  IN  IF I = {} THEN 1 ELSE CHOOSE i \in I : \A j \in I : j <= i
Slope(ps, i, j) == NDiv(NSub(ps[j][2], ps[i][2]), NSub(ps[j][1], ps[i][1]))
Tangent(ps, i) == Slope(ps, MaxI(i - 1, 1), MinI(i + 1, Len(ps)))
Cubic(y1, y2, m1, m2, u) == \* Hermite cubic with end values y1, y2 and end tangents m1, m2 at u
  LET u2 == NMul(u, u)
      u3 == NMul(u2, u)
      h00 == NSum(<<NMul("2", u3), NMul("-3", u2), "1">>)
      h10 == NSum(<<u3, NMul("-2", u2), u>>)
      h01 == NSum(<<NMul("-2", u3), NMul("3", u2)>>)
      h11 == NSub(u3, u2)
  IN  NSum(<<NMul(h00, y1), NMul(h10, m1), NMul(h01, y2), NMul(h11, m2)>>)
FunctionAt(c, x) ==
  LET ps == SortSeq(c.points, LAMBDA a, b : NLt(a[1], b[1]))   \* the table in any order
      i == Seg(ps, x)
      u == NDiv(NSub(x, ps[i][1]), NSub(ps[i+1][1], ps[i][1]))
  IN  IF c.interpolation = "linear"
        THEN NAdd(ps[i][2], NMul(NSub(ps[i+1][2], ps[i][2]), u))
        ELSE Cubic(ps[i][2], ps[i+1][2], Tangent(ps, i), Tangent(ps, i + 1), u)

Holds(c, x) == CASE c.type = "LessThan" -> NLt(x, c.value)
                 [] c.type = "GreaterThan" -> NLt(c.value, x)
                 [] c.type = "EqualTo" -> NEq(x, c.value)

Truth(x) == NLe("1/2", x)
Bit(b) == IF b THEN "1" ELSE "0"
\* <<>> when there is no result, <<v>> otherwise
Binary(type, a, b) ==
  CASE type = "Minus" -> <<NSub(a, b)>>
    [] type = "Plus" -> <<NAdd(a, b)>>
    [] type = "Multiplication" -> <<NMul(a, b)>>
    [] type = "Division" -> IF NEq(b, "0") THEN <<>> ELSE <<NDiv(a, b)>>
    [] type = "And" -> <<Bit(Truth(a) /\ Truth(b))>>
    [] type = "Or" -> <<Bit(Truth(a) \/ Truth(b))>>
    [] type = "GreaterThanStream" -> IF NLt(b, a) THEN <<a>> ELSE <<>>
    [] type = "LessThanStream" -> IF NLt(a, b) THEN <<a>> ELSE <<>>

(***************************************************************************)
(* One output for each input                                               *)
(***************************************************************************)
RECURSIVE ArOut(_, _)
ArOut(coeff, xs) == \* y[i] = x[i] + c[1] y[i-1] + ... + c[N] y[i-N], with y = 0 before the first message
  IF xs = <<>> THEN <<>>
  ELSE LET ys == ArOut(coeff, Front(xs))
           k == MinI(Len(coeff), Len(ys))
           past == [j \in 1..k |-> ys[Len(ys) + 1 - j]]
       IN  Append(ys, NAdd(Last(xs), NDot(SubSeq(coeff, 1, k), past)))

SemMap(c, xs) ==
  CASE c.type = "AutoRegressive" ->
         LET ys == ArOut(c.coeff, Vals(xs)) IN [i \in 1..Len(xs) |-> <<T(xs[i]), ys[i]>>]
    [] OTHER ->
  [i \in 1..Len(xs) |->
    LET x == V(xs[i]) t == T(xs[i]) IN
    CASE c.type = "Add" -> <<t, NAdd(x, c.value)>>
      [] c.type = "Scale" -> <<t, NMul(x, c.value)>>
      [] c.type = "Constant" -> <<t, c.value>>
      [] c.type = "Power" -> <<t, NPow(x, c.value)>>
      [] c.type = "Identity" -> <<t, x>>
      [] c.type = "Function" -> <<t, FunctionAt(c, x)>>
      [] c.type = "TimeShift" -> <<MaxI(0, t + c.dt * c.times), x>>
      [] c.type = "Count" -> <<t, NI(i)>>
      [] c.type = "CumulativeSum" -> <<t, NSum(SubSeq(Vals(xs), 1, i))>>]

SemFilter(c, xs) == SelectSeq(xs, LAMBDA m : Holds(c, V(m)))

(***************************************************************************)
(* Windows                                                                 *)
(***************************************************************************)
WindowLen(c) == CASE c.type = "FiniteImpulseResponse" -> Len(c.coeff)
                  [] c.type = "Difference" -> 2
                  [] c.type = "RelativeStrengthIndex" -> c.n + 1
                  [] OTHER -> c.n

Gain(a, b) == IF NLt(a, b) THEN NSub(b, a) ELSE "0"
Loss(a, b) == IF NLt(b, a) THEN NSub(a, b) ELSE "0"
RECURSIVE Wilder(_, _)
Wilder(n, d) == \* Wilder's smoothed average of the changes d, Len(d) >= n
  IF Len(d) = n THEN NDiv(NSum(d), NI(n))
  ELSE NDiv(NAdd(NMul(Wilder(n, Front(d)), NI(n - 1)), Last(d)), NI(n))
Gains(v) == [j \in 1..(Len(v) - 1) |-> Gain(v[j], v[j+1])]
Losses(v) == [j \in 1..(Len(v) - 1) |-> Loss(v[j], v[j+1])]
Rsi(g, l) == IF NLt("0", l) THEN NSub("100", NDiv("100", NAdd("1", NDiv(g, l)))) ELSE "100"

\* only the interface of C++ offers the time of the older message (useOldestTime = false)
NewestTime(c) == "useOldestTime" \notin DOMAIN c \/ c.useOldestTime

\* output, if any, of the window that ends at position i of xs
SemWindowAt(c, xs, i) ==
  LET n == WindowLen(c)
      w == SubSeq(xs, i - n + 1, i)
      v == Vals(w)
      t == T(xs[i])
  IN
  CASE c.type = "MovingAverage" -> << <<t, NDiv(NSum(v), NI(n))>> >>
    [] c.type = "StandardDeviation" -> << <<t, NStd(v)>> >>
    [] c.type = "FiniteImpulseResponse" -> << <<t, NDot(c.coeff, Reverse(v))>> >>
    [] c.type = "Difference" -> << <<IF NewestTime(c) THEN t ELSE T(w[1]), NSub(v[2], v[1])>> >>
    [] c.type = "PeakDetector" ->
         LET m == w[(n \div 2) + 1] IN IF \E j \in 1..n : NLt(V(m), v[j]) THEN <<>> ELSE <<m>>
    [] c.type = "RelativeStrengthIndex" ->
         LET u == Vals(SubSeq(xs, 1, i)) IN << <<t, Rsi(Wilder(c.n, Gains(u)), Wilder(c.n, Losses(u)))>> >>

SemWindow(c, xs) == FlattenSeq([k \in 1..MaxI(0, Len(xs) - WindowLen(c) + 1) |-> SemWindowAt(c, xs, k + WindowLen(c) - 1)])

(***************************************************************************)
(* Resamplers: the grid is t0 + k dt, k = 1, 2, ...                        *)
(***************************************************************************)
GridTo(xs, dt, upto) == \* the grid points up to the time upto
  IF xs = <<>> THEN <<>> ELSE [k \in 1..MaxI(0, (upto - T(xs[1])) \div dt) |-> T(xs[1]) + k * dt]
LastAt(xs, t) == LET I == {i \in 1..Len(xs) : T(xs[i]) <= t} IN CHOOSE i \in I : \A j \in I : j <= i
SegOf(xs, t) == CHOOSE i \in 1..(Len(xs) - 1) : T(xs[i]) < t /\ t <= T(xs[i+1])

SemConstantResampler(c, xs) ==
  IF xs = <<>> THEN <<>> ELSE
  LET g == GridTo(xs, c.interval, T(Last(xs))) IN [k \in 1..Len(g) |-> <<g[k], V(xs[LastAt(xs, g[k])])>>]

SemCosine(c, xs) ==
  IF xs = <<>> THEN <<>> ELSE
  LET g == GridTo(xs, c.dt, T(Last(xs)))
  IN  [k \in 1..Len(g) |-> LET i == SegOf(xs, g[k])
                           IN  <<g[k], NCos(V(xs[i]), V(xs[i+1]), g[k] - T(xs[i]), T(xs[i+1]) - T(xs[i]))>>]

\* the value, one average gap before the first message, of the line fitted (least squares) to the first four messages
Before(xs) ==
  LET x == [i \in 1..4 |-> NI(T(xs[i]) - T(xs[1]))]
      y == Vals(SubSeq(xs, 1, 4))
      gap == (T(xs[4]) - T(xs[1])) \div 3
      sx == NSum(x)
      sy == NSum(y)
      sxx == NDot(x, x)
      sxy == NDot(x, y)
      den == NSub(NMul("4", sxx), NMul(sx, sx))
      n == NDiv(NSub(NMul(sxx, sy), NMul(sxy, sx)), den)
      m == NDiv(NSub(NMul("4", sxy), NMul(sx, sy)), den)
  IN  NAdd(NMul(m, NI(-gap)), n)
HermiteAt(y0, y1, y2, y3, p, q) == \* at the fraction p/q between y1 and y2; a central difference is the tangent
  Cubic(y1, y2, NDiv(NSub(y2, y0), "2"), NDiv(NSub(y3, y1), "2"), NDiv(NI(p), NI(q)))
SemHermite(c, xs) ==
  IF Len(xs) < 4 THEN <<>> ELSE
  LET g == GridTo(xs, c.dt, T(xs[Len(xs) - 1]))
  IN  [k \in 1..Len(g) |->
        LET i == SegOf(xs, g[k])
            y0 == IF i = 1 THEN Before(xs) ELSE V(xs[i-1])
        IN  <<g[k], HermiteAt(y0, V(xs[i]), V(xs[i+1]), V(xs[i+2]), g[k] - T(xs[i]), T(xs[i+1]) - T(xs[i]))>>]

SemResampler(c, xs) == CASE c.type = "ConstantResampler" -> SemConstantResampler(c, xs)
                         [] c.type = "CosineResampler" -> SemCosine(c, xs)
                         [] c.type = "HermiteResampler" -> SemHermite(c, xs)

(***************************************************************************)
(* Entry of a program: only newer messages pass                            *)
(***************************************************************************)
SemNewer(xs) == FoldLeft(LAMBDA acc, m : IF acc # <<>> /\ T(Last(acc)) >= T(m) THEN acc ELSE Append(acc, m), <<>>, xs)

(***************************************************************************)
(* Synchronization: one tuple for each time present on all the ports       *)
(***************************************************************************)
CommonTimes(ps, ins) == LET S == {t \in Times(ins[CHOOSE p \in ps : TRUE]) : \A p \in ps : t \in Times(ins[p])}
                        IN  SetToSortSeq(S, <)
At(xs, t) == V(xs[CHOOSE i \in 1..Len(xs) : T(xs[i]) = t])
SemSync(c, ins) ==
  LET ts == CommonTimes(DataPorts(c), ins) IN
  CASE c.type = "Join" -> [o \in OutPorts(c) |->
                            LET k == CHOOSE k \in 1..NOut(c) : OPort(k) = o
                            IN  [i \in 1..Len(ts) |-> <<ts[i], At(ins[IPort(k)], ts[i])>>]]
    [] c.type = "Linear" -> [o \in {"o1"} |->
                              [i \in 1..Len(ts) |->
                                <<ts[i], NDot(c.coeff, [k \in 1..Len(c.coeff) |-> At(ins[IPort(k)], ts[i])])>>]]
    [] OTHER -> [o \in {"o1"} |->
                  FlattenSeq([i \in 1..Len(ts) |->
                    LET r == Binary(c.type, At(ins["i1"], ts[i]), At(ins["i2"], ts[i]))
                    IN  IF r = <<>> THEN <<>> ELSE << <<ts[i], r[1]>> >>])]

(***************************************************************************)
(* Routing: a message goes out through every port whose control says 1     *)
(* for its time                                                            *)
(***************************************************************************)
SemDemux(c, ins) ==
  LET ready(m) == \A k \in 1..c.numPorts : T(m) \in Times(ins[CPort(k)])
  IN  [o \in OutPorts(c) |->
        LET k == CHOOSE k \in 1..c.numPorts : OPort(k) = o
        IN  SelectSeq(ins["i1"], LAMBDA m : ready(m) /\ NEq(At(ins[CPort(k)], T(m)), "1"))]
\* some message of the data stream has no instruction, or one that is neither 0 nor 1, on some control
MalformedControl(c, ins) ==
  \E i \in 1..Len(ins["i1"]), k \in 1..c.numPorts :
    LET t == T(ins["i1"][i]) ct == Times(ins[CPort(k)]) IN
      \/ t \notin ct /\ \E u \in ct : u > t
      \/ t \in ct /\ At(ins[CPort(k)], t) \notin {"0", "1"}

(***************************************************************************)
(* All together, for the operators that are functions of their streams     *)
(***************************************************************************)
Determinate(c) == c.type # "Variable" /\ c.type # "Pipeline"

Sem(c, ins) ==
  CASE c.type \in MapTypes -> [o \in {"o1"} |-> SemMap(c, ins["i1"])]
    [] c.type \in FilterTypes -> [o \in {"o1"} |-> SemFilter(c, ins["i1"])]
    [] c.type \in WindowTypes -> [o \in {"o1"} |-> SemWindow(c, ins["i1"])]
    [] c.type \in ResamplerTypes -> [o \in {"o1"} |-> SemResampler(c, ins["i1"])]
    [] c.type \in SyncTypes -> SemSync(c, ins)
    [] c.type = "Demultiplexer" -> SemDemux(c, ins)
    [] c.type = "Input" -> [o \in OutPorts(c) |-> LET k == CHOOSE k \in 1..NOut(c) : OPort(k) = o IN SemNewer(ins[IPort(k)])]
    [] c.type = "Output" -> [o \in OutPorts(c) |-> LET k == CHOOSE k \in 1..NOut(c) : OPort(k) = o IN ins[IPort(k)]]

(***************************************************************************)
(* A variable: definitions d and queries q, in the order of their arrival: *)
(* hist is a sequence of [k : {"d", "c"}, t, v].  A query is answered as   *)
(* soon as a definition not older than it is known, once, unless a newer   *)
(* query took its place meanwhile; the answer is the last definition not   *)
(* newer than the query.                                                   *)
(***************************************************************************)
DefsUpTo(hist, a) == {i \in 1..a : hist[i].k = "d"}
AnswerableAt(hist, j, a) == \E i \in DefsUpTo(hist, a) : hist[i].t >= hist[j].t
AnsweredAt(hist, j) == \* 0 when not answered
  LET A == {a \in j..Len(hist) : AnswerableAt(hist, j, a)}
      a == CHOOSE a \in A : \A b \in A : a <= b
  IN  IF A = {} THEN 0
      ELSE IF \E b \in (j + 1)..(a - 1) : hist[b].k = "c" THEN 0 ELSE a
AnswerTo(hist, j, a, default) ==
  LET D == {i \in DefsUpTo(hist, a) : hist[i].t <= hist[j].t}
      i == CHOOSE i \in D : \A l \in D : hist[l].t <= hist[i].t
  IN  <<hist[j].t, IF D = {} THEN default ELSE hist[i].v>>
\* the answers given at the event a
SemVariableAt(c, hist, a) ==
  LET Q == {j \in 1..a : hist[j].k = "c" /\ AnsweredAt(SubSeq(hist, 1, a), j) = a}
  IN  [i \in 1..Cardinality(Q) |-> AnswerTo(hist, SetToSortSeq(Q, <)[i], a, c.value)]
=============================================================================
