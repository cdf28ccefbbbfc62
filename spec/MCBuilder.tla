----------------------------- MODULE MCBuilder -----------------------------
(***************************************************************************)
(* The programs that are built, read, written and run from python          *)
(* (RT_LANG = "py") and from javascript ("js").                            *)
(*   ops, conns   what was added and not removed, in order                 *)
(*   entry, out   the entry operator ("" for none) and the selected output *)
(*   meta         title, author and so on were given                       *)
(* Every transition out of every state is written out with a history that  *)
(* leads to it, with the program that it describes and what its runs give. *)
(***************************************************************************)
EXTENDS RtSound

Depth == EnvI("RT_LEN", 5)
Py == Env("RT_LANG", "py") = "py"
Js == ~Py
Pool == << [type |-> "Input", id |-> "in", numPorts |-> 2], [type |-> "MovingAverage", id |-> "ma", n |-> 2], [type |-> "Minus", id |-> "mi"],
           [type |-> "Demultiplexer", id |-> "dx", numPorts |-> 1], [type |-> "Count", id |-> "ma"], [type |-> "Input", id |-> "in2", numPorts |-> 1] >>
Usable == IF Py THEN {1, 2, 3, 4, 5} ELSE {1, 2, 3, 4, 6}
\* <<from, fromPort, to, toPort>>; "" leaves the port to its default
Links == { <<"in", "", "ma", "">>, <<"in", "o2", "mi", "i2">>, <<"ma", "", "mi", "i1">>, <<"in", "o1", "dx", "">>, <<"in", "o2", "dx", "c1">>,
           <<"in", "o2", "ma", "i1">>, <<"nobody", "", "ma", "">>, <<"ma", "", "nobody", "i1">> }
Full(k) == <<k[1], IF k[2] = "" THEN "o1" ELSE k[2], k[3], IF k[4] = "" THEN "i1" ELSE k[4]>>

VARIABLES ops, conns, entry, out, meta, hist
vars == <<ops, conns, entry, out, meta, hist>>
IdsOf(s) == {Pool[s[i]].id : i \in 1..Len(s)}
Init == /\ ops = <<>>
        /\ conns = <<>>
        /\ entry \in {"", "in"} \cup (IF Js THEN {"ma"} ELSE {})
        /\ out = <<>>
        /\ meta \in BOOLEAN
        /\ hist = << <<<<"new", entry, meta>>, "ok">> >>

(***************************************************************************)
(* What the program is and gives                                           *)
(***************************************************************************)
Program_(o, c, e, u) == [ops |-> [i \in 1..Len(o) |-> Pool[o[i]]], conns |-> c, entry |-> e, filter |-> u]
Rows == << << <<1, "5", "1">>, <<2, "3", "0">>, <<2, "9", "1">>, <<4, "-2", "1">>, <<5, "1/2", "0">> >>,
           << <<3, "1", "1">>, <<4, "2", "3">>, <<6, "1", "0">> >>,
           << <<1, "7">>, <<2, "-1">>, <<7, "5">>, <<8, "5">>, <<8, "5">>, <<8, "5">> >>,
           <<>> >>
Batch(row, n) == LET k == IF Len(row) - 1 < n THEN Len(row) - 1 ELSE n IN [i \in 1..k |-> <<IPort(i), << <<row[1], row[i + 1]>> >> >>]
\* the log of each row, until one fails
RECURSIVE Logs(_, _, _, _, _)
Logs(w, s, P, rows, n) ==
  IF rows = <<>> THEN <<>>
  ELSE LET row == Head(rows)
           R == ReceiveAll(w, Start(s), P.entry, Batch(row, n))
       IN  \* python has a value for each port or fewer; with more it fails
           IF (Py /\ Len(row) - 1 > n) \/ ~OK(R) THEN << <<"fails">> >>
           ELSE << <<"log", R.log>> >> \o Logs(w, R.ops, P, Tail(rows), n)
Kept(P, log) == SelectSeq(log, LAMBDA e : InFilter(P.filter, <<e[1], e[2]>>))
Runs(P) == IF ~WellFormed(P) THEN [i \in 1..Len(Rows) |-> <<"refused">>]
           ELSE IF ~Runnable(P) THEN [i \in 1..Len(Rows) |-> <<"any">>]
           ELSE LET n == NumIn(OpOf(P, P.entry))
                    w == Link(P)
                    one(rows) == IF Js /\ \E i \in 1..Len(rows) : Len(rows[i]) - 1 < n THEN <<"any">>
                                 ELSE <<"rows", Logs(w, InitNet(w), P, rows, n)>>
                IN  [i \in 1..Len(Rows) |-> one(Rows[i])]

(***************************************************************************)
(* Steps: <<what is done, "ok" or "refused">>                              *)
(***************************************************************************)
St(o, c, e, u) == [o |-> o, c |-> c, e |-> e, u |-> u]
Here == St(ops, conns, entry, out)
\* the schema wants an entry operator
Readable == Js \/ entry # ""
\* the arrows of the diagram: operator, port, port, operator
Arrows(P) == [i \in 1..Len(P.conns) |-> LET k == P.conns[i] IN <<OpOf(P, k[1]), k[2], k[4], OpOf(P, k[3])>>]
Take(a, r, s) ==
  /\ ops' = s.o
  /\ conns' = s.c
  /\ entry' = s.e
  /\ out' = s.u
  /\ meta' = meta
  /\ hist' = Append(hist, <<a, r>>)
  /\ \E P \in {Program_(s.o, s.c, s.e, s.u)} :
         Emit([hist |-> hist', prog |-> P, meta |-> meta, arrows |-> Arrows(P), rows |-> Rows, runs |-> Runs(P)])
  /\ Count("transitions")
Add(k) == LET id == Pool[k].id IN
  IF Py /\ id \in IdsOf(ops) THEN Take(<<"add", k>>, "refused", Here)
  ELSE /\ id \notin IdsOf(ops)
       /\ Take(<<"add", k>>, "ok", St(Append(ops, k), conns, IF Js /\ Pool[k].type = "Input" THEN id ELSE entry, out))
Connect(k) ==
  LET f == Full(k) IN
  IF f[1] \notin IdsOf(ops) \/ f[3] \notin IdsOf(ops) \/ (Js /\ \E i \in 1..Len(conns) : conns[i] = f)
    THEN Take(<<"conn", k>>, "refused", Here)
    ELSE Take(<<"conn", k>>, "ok", St(ops, Append(conns, f), entry, out))
DeleteOp(id) == Take(<<"delop", id>>, "ok", St(SelectSeq(ops, LAMBDA k : Pool[k].id # id), SelectSeq(conns, LAMBDA k : k[1] # id /\ k[3] # id), entry, out))
DeleteConn(k) == Take(<<"delconn", k>>, "ok", St(ops, SelectSeq(conns, LAMBDA x : x # Full(k)), entry, out))
Next ==
  /\ Len(hist) <= Depth
  /\ \/ \E k \in Usable : Add(k)
     \/ \E k \in Links : Connect(k)
     \/ Py /\ Take(<<"addbad">>, "refused", Here)
     \/ Take(<<"reload">>, IF Readable THEN "ok" ELSE "refused", Here)
     \/ Py /\ entry # "mi" /\ Take(<<"entry", "mi">>, "ok", St(ops, conns, "mi", out))
     \/ Py /\ out = <<>> /\ LET u == << <<"mi", <<"o1">>>> >> IN Take(<<"output", u>>, "ok", St(ops, conns, entry, u))
     \/ Js /\ \E id \in {"in", "ma", "mi", "nobody"} : DeleteOp(id)
     \/ Js /\ \E k \in Links : (IF k[1] = "nobody" THEN TRUE ELSE \E i \in 1..Len(conns) : conns[i][1] = k[1] /\ conns[i][3] = k[3]) /\ DeleteConn(k)
Spec == Init /\ [][Next]_vars
View == <<ops, conns, entry, out, meta, Len(hist)>>

(***************************************************************************)
(* What must hold                                                          *)
(***************************************************************************)
IdsAreUnique == \A i, j \in 1..Len(ops) : i # j => Pool[ops[i]].id # Pool[ops[j]].id
ConnectionsHaveEnds == \A i \in 1..Len(conns) : conns[i][1] \in IdsOf(ops) /\ conns[i][3] \in IdsOf(ops)
NoTwins == Js => \A i, j \in 1..Len(conns) : i # j => conns[i] # conns[j]
RefusedChangesNothing == [][hist'[Len(hist')][2] = "refused" => <<ops', conns', entry', out'>> = <<ops, conns, entry, out>>]_vars
\* a deletion removes what it names and nothing else
DeletesOnlyThat == [][LET a == hist'[Len(hist')][1] IN
                      /\ a[1] = "delop" => IdsOf(ops') = IdsOf(ops) \ {a[2]} /\ \A i \in 1..Len(conns) : (a[2] \notin {conns[i][1], conns[i][3]}) => \E j \in 1..Len(conns') : conns'[j] = conns[i]
                      /\ a[1] = "delconn" => ops' = ops /\ Len(conns') >= Len(conns) - 1
                      /\ a[1] \in {"add", "conn"} => Len(ops') >= Len(ops) /\ Len(conns') >= Len(conns)]_vars
=============================================================================
