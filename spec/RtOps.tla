------------------------------- MODULE RtOps -------------------------------
(***************************************************************************)
(* Layer 2: every operator as a state machine with two kinds of steps, the *)
(* ones that the engine takes: receiving a message on a port, and          *)
(* executing (which may emit).  OpExec gives                               *)
(*   [s   |-> next state,                                                  *)
(*    out |-> <<port, messages>> for each port that emits, in port order,  *)
(*    err |-> "", "error" (the operation is rejected), or "amb" (the       *)
(*            result depends on a comparison that the specification leaves *)
(*            open because of rounding)]                                   *)
(***************************************************************************)
EXTENDS RtSem, TLC

NoOut == <<>>
Res(s, out) == [s |-> s, out |-> out, err |-> ""]
Err(s, e) == [s |-> s, out |-> NoOut, err |-> e]
One(port, msgs) == IF msgs = <<>> THEN NoOut ELSE << <<port, msgs>> >>

\* the ports in the order of their names: 1, 10, 100, 11, 12, ...
NameKey(k) == CASE k < 10 -> 121 * (k + 1)
                [] k < 100 -> 121 * ((k \div 10) + 1) + 11 * ((k % 10) + 1)
                [] OTHER -> 121 * ((k \div 100) + 1) + 11 * (((k \div 10) % 10) + 1) + (k % 10) + 1
InNames == TLCEval(SetToSortSeq(1..MaxPorts, LAMBDA a, b : NameKey(a) < NameKey(b)))
LexTable == TLCEval([n \in 1..MaxPorts |-> SelectSeq(InNames, LAMBDA k : k <= n)])
LexOrder(n) == IF n = 0 THEN <<>> ELSE LexTable[n]

KeepLast(q, n) == IF Len(q) > n THEN SubSeq(q, Len(q) - n + 1, Len(q)) ELSE q

(***************************************************************************)
(* Initial states                                                          *)
(***************************************************************************)
InitOp(c) ==
  CASE c.type = "Input" -> [buf |-> [p \in DataPorts(c) |-> <<>>], pend |-> {}, last |-> [p \in DataPorts(c) |-> <<>>]]
    [] c.type = "Output" -> [buf |-> [p \in DataPorts(c) |-> <<>>], pend |-> {}]
    [] c.type \in SyncTypes -> [q |-> [p \in DataPorts(c) |-> <<>>]]
    [] c.type = "Demultiplexer" -> [q |-> [p \in DataPorts(c) \cup CtlPorts(c) |-> <<>>]]
    [] c.type = "Variable" -> [defs |-> <<>>, query |-> <<>>, init |-> FALSE]
    [] c.type = "Count" -> [buf |-> <<>>, pend |-> FALSE, acc |-> "0"]
    [] c.type = "CumulativeSum" -> [buf |-> <<>>, pend |-> FALSE, acc |-> "0"]
    [] c.type = "AutoRegressive" -> [buf |-> <<>>, pend |-> FALSE, acc |-> [i \in 1..Len(c.coeff) |-> "0"]]
    [] c.type = "RelativeStrengthIndex" -> [buf |-> <<>>, pend |-> FALSE, acc |-> <<>>]
    [] c.type = "ConstantResampler" -> [buf |-> <<>>, pend |-> FALSE, acc |-> <<>>]
    [] c.type = "CosineResampler" -> [buf |-> <<>>, pend |-> FALSE, acc |-> 0]
    [] c.type = "HermiteResampler" -> [buf |-> <<>>, pend |-> FALSE, acc |-> [carry |-> 0, before |-> <<>>]]
    [] OTHER -> [buf |-> <<>>, pend |-> FALSE]

BufSize(c) == CASE c.type \in WindowTypes -> WindowLen(c)
                [] c.type = "CosineResampler" -> 2
                [] c.type = "HermiteResampler" -> 4
                [] OTHER -> 1

(***************************************************************************)
(* Receiving                                                               *)
(***************************************************************************)
OpRecv(c, s, port, m) ==
  CASE c.type \in {"Input", "Output"} -> [s EXCEPT !.buf[port] = <<m>>, !.pend = @ \cup {port}]
    [] c.type \in SyncTypes \cup {"Demultiplexer"} -> [s EXCEPT !.q[port] = Append(@, m)]
    [] c.type = "Variable" -> IF port = "c1" THEN [s EXCEPT !.query = <<m>>] ELSE [s EXCEPT !.defs = Append(@, m)]
    [] OTHER -> [s EXCEPT !.buf = KeepLast(Append(@, m), BufSize(c)), !.pend = TRUE]

(***************************************************************************)
(* Executing                                                               *)
(***************************************************************************)
ExecInput(c, s) ==
  LET ports == SelectSeq(LexOrder(c.numPorts), LAMBDA k : IPort(k) \in s.pend)
      newer(k) == LET m == s.buf[IPort(k)][1] IN s.last[IPort(k)] = <<>> \/ T(s.last[IPort(k)][1]) < T(m)
      pass == SelectSeq(ports, newer)
  IN  Res([s EXCEPT !.pend = {},
                    !.last = [p \in DataPorts(c) |-> IF \E i \in 1..Len(pass) : IPort(pass[i]) = p THEN s.buf[p] ELSE @[p]]],
          [i \in 1..Len(pass) |-> <<OPort(pass[i]), s.buf[IPort(pass[i])]>>])
ExecOutput(c, s) ==
  LET ports == SelectSeq(LexOrder(c.numPorts), LAMBDA k : IPort(k) \in s.pend)
  IN  Res([s EXCEPT !.pend = {}], [i \in 1..Len(ports) |-> <<OPort(ports[i]), s.buf[IPort(ports[i])]>>])

\* discard what cannot be synchronized any more: everything older than the newest front
RECURSIVE DropOld(_)
DropOld(q) ==
  IF \E p \in DOMAIN q : q[p] = <<>> THEN q
  ELSE LET newest == CHOOSE t \in {T(Head(q[p])) : p \in DOMAIN q} : \A p \in DOMAIN q : T(Head(q[p])) <= t
           q1 == [p \in DOMAIN q |-> SelectSeq(q[p], LAMBDA m : T(m) >= newest)]
       IN  IF q1 = q THEN q ELSE DropOld(q1)
\* one synchronization: [q, tuple] where tuple is <<>> when the ports are not synchronized
Ready(q) == \A p \in DOMAIN q : q[p] # <<>>
SyncAmb(c, h) ==
  CASE c.type \in {"GreaterThanStream", "LessThanStream"} -> NAmb(V(h["i1"]), V(h["i2"]))
    [] c.type = "Division" -> NAmb(V(h["i2"]), "0")
    [] c.type \in {"And", "Or"} -> NAmb(V(h["i1"]), "1/2") \/ NAmb(V(h["i2"]), "1/2")
    [] OTHER -> FALSE
SyncOut(c, h) == \* h: the synchronized message of each port
  CASE c.type = "Join" -> [i \in 1..c.numPorts |-> LET k == LexOrder(c.numPorts)[i] IN <<OPort(k), <<h[IPort(k)]>> >>]
    [] c.type = "Linear" ->
         One("o1", << <<T(h["i1"]), NDot(c.coeff, [k \in 1..Len(c.coeff) |-> V(h[IPort(k)])])>> >>)
    [] OTHER -> LET r == Binary(c.type, V(h["i1"]), V(h["i2"]))
                IN  IF r = <<>> THEN NoOut ELSE One("o1", << <<T(h["i1"]), r[1]>> >>)
RECURSIVE ExecSync(_, _)
ExecSync(c, s) ==
  LET q == DropOld(s.q) IN
  IF ~Ready(q) THEN Res([s EXCEPT !.q = q], NoOut)
  ELSE LET h == [p \in DOMAIN q |-> Head(q[p])]
           s1 == [s EXCEPT !.q = [p \in DOMAIN q |-> Tail(q[p])]]
           rest == ExecSync(c, s1)
       IN  IF SyncAmb(c, h) THEN Err(s1, "amb")
           ELSE IF rest.err # "" THEN rest
           ELSE Res(rest.s, SyncOut(c, h) \o rest.out)

ExecDemux(c, s) ==
  IF s.q["i1"] = <<>> THEN Res(s, NoOut) ELSE
  LET m == Head(s.q["i1"])
      q == [p \in DOMAIN s.q |-> IF p = "i1" THEN s.q[p] ELSE SelectSeq(s.q[p], LAMBDA x : T(x) >= T(m))]
      wrong == \E p \in CtlPorts(c) : q[p] # <<>> /\ (T(Head(q[p])) # T(m) \/
                                                      ~(NEq(V(Head(q[p])), "0") \/ NEq(V(Head(q[p])), "1")))
      amb == \E p \in CtlPorts(c) : q[p] # <<>> /\ (NAmb(V(Head(q[p])), "0") \/ NAmb(V(Head(q[p])), "1"))
      to == SelectSeq(LexOrder(c.numPorts), LAMBDA k : NEq(V(Head(q[CPort(k)])), "1"))
  IN  IF amb THEN Err(s, "amb")
      ELSE IF wrong THEN Err([s EXCEPT !.q = q], "error")
      ELSE IF \E p \in CtlPorts(c) : q[p] = <<>> THEN Res([s EXCEPT !.q = q], NoOut)
      ELSE Res([s EXCEPT !.q = [p \in DOMAIN q |-> Tail(q[p])]], [i \in 1..Len(to) |-> <<OPort(to[i]), <<m>> >>])

ExecVariable(c, s) ==
  IF s.defs = <<>> \/ s.query = <<>> THEN Res(s, NoOut) ELSE
  LET q == T(s.query[1])
      first == T(Head(s.defs))
      \* definitions before the last one that is not newer than the query are of no use any more
      known == {i \in 1..Len(s.defs) : T(s.defs[i]) <= q}
      at == CHOOSE i \in known : \A j \in known : j <= i
      defs == SubSeq(s.defs, at, Len(s.defs))
      answer(v, d, ini) == Res([defs |-> d, query |-> <<>>, init |-> ini], One("o1", << <<q, v>> >>))
  IN  IF q < first
        THEN IF s.init THEN Err(s, "error") ELSE answer(c.value, s.defs, FALSE)
      ELSE IF T(defs[1]) = q \/ Len(defs) > 1
        THEN answer(V(defs[1]), defs, TRUE)
      ELSE Res([s EXCEPT !.defs = defs, !.init = TRUE], NoOut)

ExecRsi(c, s) ==
  LET v == Vals(s.buf)
      k == Len(v)
      amb == \E i \in 1..(k-1) : NAmb(v[i], v[i+1])
      g == IF s.acc = <<>> THEN NDiv(NSum([j \in 1..c.n |-> Gain(v[j], v[j+1])]), NI(c.n))
                           ELSE NDiv(NAdd(NMul(s.acc[1], NI(c.n - 1)), Gain(v[k-1], v[k])), NI(c.n))
      l == IF s.acc = <<>> THEN NDiv(NSum([j \in 1..c.n |-> Loss(v[j], v[j+1])]), NI(c.n))
                           ELSE NDiv(NAdd(NMul(s.acc[2], NI(c.n - 1)), Loss(v[k-1], v[k])), NI(c.n))
  IN  IF amb \/ NAmb(l, "0") THEN Err(s, "amb")
      ELSE Res([s EXCEPT !.pend = FALSE, !.acc = <<g, l>>], One("o1", << <<T(Last(s.buf)), Rsi(g, l)>> >>))

ExecConstantResampler(c, s) ==
  LET m == s.buf[1] IN
  IF s.acc = <<>> THEN Res([s EXCEPT !.pend = FALSE, !.acc = <<T(m) + c.interval, V(m)>>], NoOut)
  ELSE LET next == s.acc[1]
           missed == MaxI(0, (T(m) - 1 - next + c.interval) \div c.interval)      \* grid points before the message
           grid == [i \in 1..missed |-> <<next + (i - 1) * c.interval, s.acc[2]>>]
           n1 == next + missed * c.interval
           exact == n1 = T(m)
       IN  Res([s EXCEPT !.pend = FALSE, !.acc = <<IF exact THEN n1 + c.interval ELSE n1, V(m)>>],
               One("o1", IF exact THEN Append(grid, <<n1, V(m)>>) ELSE grid))

\* grid points within the segment from m1 to m2, when carry is the time since the last grid point at m1
Points(m1, m2, dt, carry, F(_)) ==
  LET gap == T(m2) - T(m1)
      n == (gap + carry) \div dt
  IN  [pts |-> [j \in 1..n |-> <<T(m1) + j * dt - carry, F(j * dt - carry)>>], carry |-> gap + carry - n * dt]
ExecCosine(c, s) ==
  LET m1 == s.buf[1]
      m2 == s.buf[2]
      r == Points(m1, m2, c.dt, s.acc, LAMBDA p : NCos(V(m1), V(m2), p, T(m2) - T(m1)))
  IN  Res([s EXCEPT !.pend = FALSE, !.acc = r.carry], One("o1", r.pts))
ExecHermite(c, s) ==
  LET b == s.buf
      first == s.acc.before = <<>>
      y0 == Before(b)
      r1 == Points(b[1], b[2], c.dt, s.acc.carry,
                   LAMBDA p : HermiteAt(y0, V(b[1]), V(b[2]), V(b[3]), p, T(b[2]) - T(b[1])))
      r2 == Points(b[2], b[3], c.dt, IF first THEN r1.carry ELSE s.acc.carry,
                   LAMBDA p : HermiteAt(V(b[1]), V(b[2]), V(b[3]), V(b[4]), p, T(b[3]) - T(b[2])))
  IN  Res([s EXCEPT !.pend = FALSE, !.acc = [carry |-> r2.carry, before |-> IF first THEN <<y0>> ELSE @.before]],
          One("o1", (IF first THEN r1.pts ELSE <<>>) \o r2.pts))

\* one message in, one message out
ExecMap(c, s) ==
  LET m == s.buf[1]
      t == T(m)
      x == V(m)
      done(s1, t1, y) == Res([s1 EXCEPT !.pend = FALSE], One("o1", << <<t1, y>> >>))
  IN
  CASE c.type = "Count" -> LET n == NAdd(s.acc, "1") IN done([s EXCEPT !.acc = n], t, n)
    [] c.type = "CumulativeSum" -> LET n == NAdd(s.acc, x) IN done([s EXCEPT !.acc = n], t, n)
    [] c.type = "AutoRegressive" -> \* acc: the last outputs, the newest first
         LET y == NAdd(x, NDot(c.coeff, s.acc)) IN done([s EXCEPT !.acc = <<y>> \o Front(s.acc)], t, y)
    [] c.type = "Add" -> done(s, t, NAdd(x, c.value))
    [] c.type = "Scale" -> done(s, t, NMul(x, c.value))
    [] c.type = "Constant" -> done(s, t, c.value)
    [] c.type = "Power" -> done(s, t, NPow(x, c.value))
    [] c.type = "Identity" -> done(s, t, x)
    [] c.type = "Function" -> done(s, t, FunctionAt(c, x))
    [] c.type = "TimeShift" -> LET u == t + c.dt * c.times IN done(s, IF u < 0 THEN 0 ELSE u, x)
ExecFilter(c, s) ==
  LET m == s.buf[1] IN
  IF NAmb(V(m), c.value) THEN Err(s, "amb")
  ELSE Res([s EXCEPT !.pend = FALSE], One("o1", IF Holds(c, V(m)) THEN <<m>> ELSE <<>>))

ExecWindow(c, s) ==
  LET v == Vals(s.buf)
      n == Len(v)
      t == T(Last(s.buf))
      out(y) == Res([s EXCEPT !.pend = FALSE], One("o1", << <<t, y>> >>))
  IN
  CASE c.type = "MovingAverage" -> out(NDiv(NSum(v), NI(n)))
    [] c.type = "StandardDeviation" -> out(NStd(v))
    [] c.type = "FiniteImpulseResponse" -> out(NSum([i \in 1..n |-> NMul(c.coeff[i], v[n + 1 - i])]))
    [] c.type = "Difference" ->
         Res([s EXCEPT !.pend = FALSE], One("o1", << <<IF NewestTime(c) THEN t ELSE T(s.buf[1]), NSub(v[2], v[1])>> >>))
    [] c.type = "PeakDetector" ->
         LET k == (n \div 2) + 1 IN
         IF \E i \in 1..n : i # k /\ NAmb(v[i], v[k]) THEN Err(s, "amb")
         ELSE Res([s EXCEPT !.pend = FALSE], One("o1", IF \A i \in 1..n : NLe(v[i], v[k]) THEN <<s.buf[k]>> ELSE <<>>))

OpExec(c, s) ==
  CASE c.type = "Input" -> ExecInput(c, s)
    [] c.type = "Output" -> ExecOutput(c, s)
    [] c.type \in SyncTypes -> ExecSync(c, s)
    [] c.type = "Demultiplexer" -> ExecDemux(c, s)
    [] c.type = "Variable" -> ExecVariable(c, s)
    [] OTHER ->
       IF ~s.pend THEN Res(s, NoOut)
       ELSE IF Len(s.buf) < BufSize(c) THEN Res([s EXCEPT !.pend = FALSE], NoOut)
       ELSE CASE c.type \in MapTypes -> ExecMap(c, s)
              [] c.type \in FilterTypes -> ExecFilter(c, s)
              [] c.type = "RelativeStrengthIndex" -> ExecRsi(c, s)
              [] c.type = "ConstantResampler" -> ExecConstantResampler(c, s)
              [] c.type = "CosineResampler" -> ExecCosine(c, s)
              [] c.type = "HermiteResampler" -> ExecHermite(c, s)
              [] c.type \in WindowTypes -> ExecWindow(c, s)
=============================================================================
