------------------------------ MODULE MCDebug ------------------------------
(***************************************************************************)
(* The debug command: a file with a program, a file with rows of text, a   *)
(* scale for times and one for values; it writes, to a file or to the      *)
(* screen, what every operator put out for every row, or shows it.         *)
(*   rows   the rows of the data file                                      *)
(* From every file (up to RT_LEN rows; beyond, along random walks) the     *)
(* command is started in several ways; each start is written out.          *)
(***************************************************************************)
EXTENDS RtSound

Depth == EnvI("RT_LEN", 2)
Walk == EnvI("RT_WALK", 0) = 1
\* along a walk the command is started after every so many rows
Pace == EnvI("RT_STEP", 11)

(* rows: the text, <<4 * time, value>> of those that say something         *)
Cells == << [text |-> "1,2", is |-> <<4, "2">>], [text |-> "2.5,-1.5", is |-> <<10, "-3/2">>], [text |-> "2.25,1,7", is |-> <<9, "1">>],
            [text |-> "4.75,0", is |-> <<19, "0">>], [text |-> "7,1e2", is |-> <<28, "100">>], [text |-> "0,5", is |-> <<0, "5">>], [text |-> "", is |-> <<>>], [text |-> "t,v", is |-> <<>>],
            [text |-> ",5", is |-> <<>>], [text |-> "6,", is |-> <<>>], [text |-> "8", is |-> <<>>], [text |-> "250000.5,0.25", is |-> <<1000002, "1/4">>] >>
\* in a walk times go on
Later(n) == [text |-> ToString(n) \o "." \o (<<"0", "25", "5", "75">>[1 + (n % 4)]) \o "," \o ToString(((7 * n) % 11) - 5), is |-> <<4 * n + (n % 4), ToString(((7 * n) % 11) - 5)>>]
\* twice the scale; the scale of values
TimeScales == << <<2, "">>, <<4, "2">>, <<1, "0.5">>, <<2000, "1000">> >>
ValueScales == << <<"1", "">>, <<"-1/2", "-0.5">> >>
Ways == << <<"file">>, <<"screen">>, <<"file", "verbose">>, <<"screen", "verbose">>, <<"show">>, <<"show", "verbose">> >>

Inp == [type |-> "Input", id |-> "in", numPorts |-> 1]
Ma == [type |-> "MovingAverage", id |-> "ma", n |-> 2]
Df == [type |-> "Difference", id |-> "df"]
Jn == [type |-> "Join", id |-> "jn", numPorts |-> 2]
Dx == [type |-> "Demultiplexer", id |-> "dx", numPorts |-> 1]
Prog(o, c, e) == [ops |-> o, conns |-> c, entry |-> e, filter |-> <<>>]
Programs == << Prog(<<Inp, Ma, Df, Jn>>, << <<"in", "o1", "ma", "i1">>, <<"in", "o1", "df", "i1">>, <<"ma", "o1", "jn", "i2">>, <<"df", "o1", "jn", "i1">> >>, "in"),
               Prog(<<Ma, Df>>, << <<"ma", "o1", "df", "i1">> >>, "ma"),
               Prog(<<Inp, Dx>>, << <<"in", "o1", "dx", "i1">>, <<"in", "o1", "dx", "c1">> >>, "in"),
               Prog(<<Inp>>, << <<"in", "o1", "nobody", "i1">> >>, "in"),
               Prog(<<Inp, [type |-> "Sum", id |-> "s"]>>, << >>, "in"),
               Prog(<<Inp, [type |-> "MovingAverage", id |-> "s"]>>, << >>, "in") >>
\* 0 - n: the files that are not there or hold something else
Files == 1..Len(Programs) \union {0 - 1, 0 - 2, 0 - 3}
\* the engine refuses another than the published types and parameters
Good(f) == f > 0 /\ f # 6 /\ (f = 5 \/ WellFormed(Programs[f])) /\ f # 5

(* half of the time scale * 4 times the time, to the next integer          *)
Time(t4, s2) == (t4 * s2 + 4) \div 8
Sent(rs, st, sv) == LET s == SelectSeq(rs, LAMBDA r : r.is # <<>>)
                    IN  [i \in 1..Len(s) |-> <<Time(s[i].is[1], st), NMul(s[i].is[2], sv)>>]
\* what the program puts out for each message; <<>> at the end of a run that fails
RECURSIVE Logs(_, _, _, _)
Logs(w, s, Q, ms) == IF ms = <<>> THEN << >>
                     ELSE LET R == ReceiveAll(w, Start(s), Q.entry, << <<IPort(1), <<ms[1]>> >> >>)
                          IN  IF ~OK(R) THEN << <<"fails">> >> ELSE << <<"log", R.log>> >> \o Logs(w, R.ops, Q, Tail(ms))
Outcome(f, rs, st, sv) ==
  IF ~Good(f) THEN [what |-> "refused", sent |-> <<>>, logs |-> <<>>]
  ELSE LET w == Link(Programs[f])
           ms == Sent(rs, st, sv)
           l == Logs(w, InitNet(w), Programs[f], ms)
       IN  [what |-> IF \E i \in 1..Len(l) : l[i][1] = "fails" THEN "refused" ELSE "done", sent |-> ms, logs |-> l]

VARIABLES rows
vars == <<rows>>
Init == rows = <<>>
Say(f, st, sv, w, gone) ==
  Emit([file |-> f, prog |-> IF f > 0 THEN Programs[f] ELSE <<>>, rows |-> [i \in 1..Len(rows) |-> rows[i].text], gone |-> gone,
        scales |-> <<TimeScales[st][2], ValueScales[sv][2]>>, way |-> Ways[w],
        result |-> IF gone THEN [what |-> "refused", sent |-> <<>>, logs |-> <<>>] ELSE Outcome(f, rows, TimeScales[st][1], ValueScales[sv][1])])
Started == /\ \A st \in 1..Len(TimeScales), sv \in 1..Len(ValueScales), w \in 1..Len(Ways) : (Walk => Len(rows) % Pace = 0) => \A f \in {1, 2, 3} : (Pace > 50 => f < 3 /\ st = 2 /\ sv = 1) => Say(f, st, sv, w, FALSE)
           /\ \A f \in Files \ {1, 2, 3}, w \in 1..Len(Ways) : Walk \/ Say(f, 1, 1, w, FALSE)
           /\ \A w \in 1..Len(Ways) : Walk \/ Say(1, 1, 1, w, TRUE)
Next == \/ /\ ~Walk
           /\ Len(rows) < Depth
           /\ \E k \in 1..Len(Cells) : rows' = Append(rows, Cells[k])
        \/ /\ Walk
           /\ Len(rows) < Depth
           /\ \E k \in 0..2 : rows' = Append(rows, IF k = 2 THEN Cells[6 + (Len(rows) % 5)] ELSE Later(2 * Len(rows) + k))
Spec == Init /\ [][Next]_vars

\* scaled times are within half a unit, and keep their order
Rounded == Len(rows) > 60 \/ \A r \in 1..Len(rows), s \in 1..Len(TimeScales) : rows[r].is # <<>> =>
             LET x == Time(rows[r].is[1], TimeScales[s][1]) IN 8 * x - rows[r].is[1] * TimeScales[s][1] \in (0 - 3)..4
Ordered == Len(rows) > 60 \/ \A i, j \in 1..Len(rows), s \in 1..Len(TimeScales) : (rows[i].is # <<>> /\ rows[j].is # <<>> /\ rows[i].is[1] <= rows[j].is[1])
             => Time(rows[i].is[1], TimeScales[s][1]) <= Time(rows[j].is[1], TimeScales[s][1])
\* every row that says something is answered, unless the run fails
Answered == (Walk => Len(rows) % Pace = 0) => \A f \in {1, 2} : LET r == Outcome(f, rows, 2, "1") IN Len(r.logs) = Len(SelectSeq(rows, LAMBDA x : x.is # <<>>)) /\ r.what = "done"
=============================================================================
