-------------------------------- MODULE MCCli -------------------------------
(***************************************************************************)
(* The debugger of the command line: a table of what the selected          *)
(* operators put out, from the current iteration on.                       *)
(*   pos   iterations 0 (nothing shown) to the number of rows of the data  *)
(*   sel   the operators that are selected                                 *)
(*   d     the data: out of the rows of a run                              *)
(* All states are visited; every transition is written out with a history  *)
(* that leads to it and the table that it shows.                           *)
(***************************************************************************)
EXTENDS RtIO, FiniteSets, TLC

Window == 11
\* programs with and without their optional parameters, and one whose names contain what separates a name from a port
Progs == << << [id |-> "in", type |-> "Input", numPorts |-> 2], [id |-> "ma", type |-> "MovingAverage", n |-> 2], [id |-> "jn", type |-> "Join", numPorts |-> 2] >>,
            << [id |-> "jn", type |-> "Join"], [id |-> "in", type |-> "Input"], [id |-> "i", type |-> "Demultiplexer", numPorts |-> 3] >>,
            << [id |-> "a:o1", type |-> "MovingAverage", n |-> 2], [id |-> "a", type |-> "Join"], [id |-> "x:y:o2", type |-> "Demultiplexer", numPorts |-> 12] >> >>
NPorts(o) == IF "numPorts" \in DOMAIN o THEN o.numPorts ELSE IF o.type = "Join" THEN 2 ELSE 1
PortsOf(o) == [i \in 1..NPorts(o) |-> "o" \o ToString(i)]
\* a row of a run: for each operator and port that spoke what it said
M(t, v) == <<t, v>>
Row(i) == CASE i % 5 = 0 -> << <<"in", "o1", << M(i, "1.234567") >> >>, <<"ma", "o1", << M(i, "-0.004") >> >> >>
            [] i % 5 = 1 -> << <<"in", "o1", << M(i, "12") >> >>, <<"in", "o2", << M(i, "-7.5"), M(i + 1, "0.126") >> >>, <<"jn", "o2", << M(i, "100000.999") >> >> >>
            [] i % 5 = 2 -> << >>
            [] i % 5 = 3 -> << <<"jn", "o1", << M(i - 1, "3") >> >>, <<"jn", "o2", << M(i - 1, "4") >> >>, <<"ma", "o1", << M(i, "0.999"), M(i + 1, "-2.6789"), M(i + 2, "0") >> >> >>
            [] i % 5 = 4 -> << <<"in", "o2", << M(i, "-0.006") >> >> >>
Other(i) == << <<"in", "o1", << M(i, "1") >> >> >> \o (IF i % 3 = 0 THEN <<>> ELSE << <<"jn", "o1", << M(i, "2.5") >> >>, <<"jn", "o2", << M(i, "-0.25") >> >> >>)
            \o (IF i % 2 = 0 THEN << <<"i", "o1", << M(i, "6") >> >>, <<"i", "o3", << M(i, "7"), M(i + 1, "8") >> >> >> ELSE << <<"i", "o2", << M(i, "9") >> >> >>)
Colons(i) == << <<"a:o1", "o1", << M(i, "1") >> >>, <<"a", "o2", << M(i, "3") >> >> >>
             \o (IF i % 2 = 0 THEN << <<"x:y:o2", "o1", << M(i, "4"), M(i + 1, "5") >> >> >> ELSE << <<"a", "o1", << M(i, "2") >> >>, <<"x:y:o2", "o2", << M(i, "6") >> >>, <<"x:y:o2", "o10", << M(i, "7") >> >>, <<"x:y:o2", "o12", << M(i, "8") >> >> >>)
Runs == << <<1, [i \in 1..14 |-> Row(i)]>>, <<1, [i \in 1..12 |-> Row(i + 2)]>>, <<1, [i \in 1..3 |-> Row(i + 1)]>>, <<1, <<Row(1)>>>>, <<1, <<>>>>,
           <<2, [i \in 1..13 |-> Other(i)]>>, <<2, [i \in 1..2 |-> Other(i)]>>, <<3, [i \in 1..3 |-> Colons(i)]>> >>
Data == [i \in 1..Len(Runs) |-> Runs[i][2]]

\* another run is loaded after these
Then(x) == CASE x = 1 -> {3, 5, 7} [] x = 3 -> {2} [] x = 6 -> {4, 8} [] x = 8 -> {6} [] OTHER -> {}

VARIABLES d, d0, pos, sel, hist
vars == <<d, d0, pos, sel, hist>>
Init == /\ d \in 1..Len(Data)
        /\ d0 = d
        /\ pos = 0
        /\ sel = {1, 2, 3}
        /\ hist = <<>>

Ops == Progs[Runs[d][1]]
Headers(s) == LET one(k) == IF k \notin s THEN <<>> ELSE [j \in 1..Len(PortsOf(Ops[k])) |-> <<Ops[k].id, PortsOf(Ops[k])[j]>>]
              IN  one(1) \o one(2) \o one(3)
Said(row, h) == LET x == SelectSeq(row, LAMBDA e : <<e[1], e[2]>> = h) IN IF x = <<>> THEN <<>> ELSE x[1][3]
Shown(p) == IF p = 0 THEN <<>> ELSE LET last == IF p + Window - 1 < Len(Data[d]) THEN p + Window - 1 ELSE Len(Data[d])
                                    IN  [i \in 1..(last - p + 1) |-> p + i - 2]
Table(p, s) == [headers |-> Headers(s), rows |-> [i \in 1..Len(Shown(p)) |-> [at |-> Shown(p)[i], cells |-> [j \in 1..Len(Headers(s)) |-> Said(Data[d][Shown(p)[i] + 1], Headers(s)[j])]]]]

Take(a, p, s) == /\ pos' = p
                 /\ sel' = s
                 /\ d' = d
                 /\ d0' = d0
                 /\ hist' = Append(hist, a)
                 /\ Emit([d |-> d, d0 |-> d0, hist |-> hist', pos |-> p, table |-> Table(p, s)])
Next == \/ Take(<<"forward">>, IF pos < Len(Data[d]) THEN pos + 1 ELSE pos, sel)
        \/ Take(<<"backward">>, IF pos > 0 THEN pos - 1 ELSE 0, sel)
        \/ \E k \in 1..3 : Take(<<"select", Ops[k].id, TRUE>>, pos, sel \union {k})
        \/ \E k \in 1..3 : Take(<<"select", Ops[k].id, FALSE>>, pos, sel \ {k})
        \* a new run starts with everything selected
        \/ \E x \in Then(d) : /\ d0 = d
                             /\ sel # {1, 3}
                             /\ d' = x
                             /\ d0' = d0
                             /\ pos' = 0
                             /\ sel' = {1, 2, 3}
                             /\ hist' = Append(hist, <<"load", x>>)
Given == Emit([data |-> Data, progs |-> [i \in 1..Len(Runs) |-> Progs[Runs[i][1]]]])
Spec == Init /\ [][Next]_vars
View == <<d, d0, pos, sel>>
ASSUME Given

Within == pos \in 0..Len(Data[d])
\* nothing but the current rows is shown, without holes, and nothing is shown twice
Aligned == \A i \in 1..Len(Shown(pos)) : Shown(pos)[i] = pos - 2 + i /\ Shown(pos)[i] \in 0..Len(Data[d]) - 1
=============================================================================
