------------------------------- MODULE MCRedis ------------------------------
(***************************************************************************)
(* The redis module: series[k] is <<>> or [last, at]: the time series of   *)
(* the key k, at is a sequence of <<time, value>>; pipes[i][o] is the      *)
(* pipeline from the series i to the series o; said[o] is what was         *)
(* published for o.                                                        *)
(*   ts.add     adds a sample to a series; it goes through the pipelines   *)
(*              of its key to other series, and so on                      *)
(*   rtbot.run  makes a pipeline, has all the samples of the input go      *)
(*              through it into a new series, and keeps it or not          *)
(*   rtbot.xrun keeps it                                                   *)
(* The engine behind it is the stand-in of MCRust.                         *)
(***************************************************************************)
EXTENDS RtIO, FiniteSets, SequencesExt, TLC

Depth == EnvI("RT_LEN", 5)
Walk == EnvI("RT_WALK", 0) = 1
Keys == {"a", "b", "c"}
Order == <<"a", "b", "c">>
Ways == { <<"b", "a">>, <<"b", "c">>, <<"a", "c">> }
\* "even" is silent when the sum is odd, "twice" says it and then its double, "raw" takes any time
Good == {"sum", "even", "twice", "raw"}
Faulty == {"refused", "noentry", "notjson", "missing"}
None == [kind |-> "none"]
New(kind) == [kind |-> kind, last |-> 0, sum |-> 0]
Gone == [is |-> FALSE]

VARIABLES st, hist
vars == <<st, hist>>
Init == /\ st = [series |-> [k \in Keys |-> Gone], pipes |-> [i \in Keys |-> [o \in Keys |-> None]], said |-> [k \in Keys |-> <<>>]]
        /\ hist = <<>>

Accepts(p, t) == p.kind = "raw" \/ (p.kind # "none" /\ t > p.last)
Fed(p, t, v) == IF Accepts(p, t) THEN [p EXCEPT !.last = t, !.sum = @ + v] ELSE p
Said(p, t, v) == CASE ~Accepts(p, t) -> <<>>
                   [] p.kind = "even" /\ ((p.sum + v) % 2) # 0 -> <<>>
                   [] p.kind = "twice" -> << <<t, p.sum + v>>, <<t, 2 * (p.sum + v)>> >>
                   [] OTHER -> << <<t, p.sum + v>> >>

\* a sample into a series: the later of two at the same time stays where the series was made so, else it is refused
Sampled(x, t, v) ==
  IF ~x.is THEN [is |-> TRUE, wins |-> FALSE, at |-> << <<t, v>> >>]
  ELSE IF x.at = <<>> \/ t > x.at[Len(x.at)][1] THEN [x EXCEPT !.at = Append(@, <<t, v>>)]
  ELSE LET old == SelectSeq(x.at, LAMBDA e : e[1] < t)
           new == SelectSeq(x.at, LAMBDA e : e[1] > t)
       IN  [x EXCEPT !.at = old \o << <<t, v>> >> \o new]
Taken(x, t) == x.is /\ ~x.wins /\ x.at # <<>> /\ t <= x.at[Len(x.at)][1] /\ \E i \in 1..Len(x.at) : x.at[i][1] = t

RECURSIVE Added(_, _, _, _), Through(_, _, _, _), Deliver(_, _, _)
Added(s, k, t, v) ==
  IF Taken(s.series[k], t) THEN s
  ELSE LET x == Sampled(s.series[k], t, v)
           newest == x.at[Len(x.at)]
       IN  Through([s EXCEPT !.series[k] = x], k, newest[1], newest[2])
To(s, k, o, t, v) == LET m == Said(s.pipes[k][o], t, v) IN [i \in 1..Len(m) |-> <<o, m[i][1], m[i][2]>>]
\* what goes through the pipelines of a key
Through(s, k, t, v) == Deliver([s EXCEPT !.pipes[k] = [o \in Keys |-> Fed(s.pipes[k][o], t, v)]], To(s, k, "a", t, v) \o To(s, k, "b", t, v) \o To(s, k, "c", t, v), TRUE)
Deliver(s, todo, publish) ==
  IF todo = <<>> THEN s
  ELSE LET d == Head(todo)
           s1 == Added(s, d[1], d[2], d[3])
       IN  Deliver(IF publish THEN [s1 EXCEPT !.said[d[1]] = Append(@, <<d[2], d[3]>>)] ELSE s1, Tail(todo), publish)
\* the samples that were there before a pipeline
Past(s, k, o, at) == FoldLeft(LAMBDA x, e : TLCEval(Deliver([x EXCEPT !.pipes[k][o] = Fed(@, e[1], e[2])], To(x, k, o, e[1], e[2]), FALSE)), s, at)
\* many samples
Filled(s, k, n) == FoldLeft(LAMBDA x, i : TLCEval(Added(x, k, i, 1 + (i % 2))), s, [i \in 1..n |-> i])
Ran(s, kind, i, o, keep) ==
  LET s1 == [s EXCEPT !.series[o] = [is |-> TRUE, wins |-> TRUE, at |-> <<>>], !.pipes[i][o] = New(kind)]
      s2 == Past(s1, i, o, s.series[i].at)
  IN  IF keep THEN s2 ELSE [s2 EXCEPT !.pipes[i][o] = None]

Seen(s) == [series |-> [j \in 1..3 |-> <<Order[j], s.series[Order[j]]>>], said |-> [j \in 1..3 |-> <<Order[j], s.said[Order[j]]>>],
            alive |-> Cardinality({w \in Keys \X Keys : s.pipes[w[1]][w[2]] # None})]
\* a walk that starts with very many samples is short
End(h) == IF Walk /\ h # <<>> /\ h[1][1][3] > 1000 THEN 5 ELSE Depth
\* a walk starts with samples up to there
Most == IF Walk THEN 1500 ELSE 0
Take(a, r, s) ==
  /\ st' = s
  /\ hist' = Append(hist, <<a, r>>)
  /\ LET f == Added(Added(s, "b", Most + 60, 1), "a", Most + 70, 3)
     IN  (~Walk \/ Len(hist') \in {End(hist'), Depth \div 2}) => Emit([hist |-> hist', now |-> Seen(s), later |-> Seen(f), after |-> <<Most + 60, Most + 70>>])
Clock == Most + Len(hist) + 1
Free(i, o) == \A k \in Keys : k # i => st.pipes[k][o] = None
Next ==
  /\ Len(hist) < End(hist)
  /\ IF Walk /\ hist = <<>> THEN \E n \in (1..10) \cup {40, 1100} : Take(<<"adds", "b", n>>, "ok", Filled(st, "b", n))
     ELSE
     \/ \E k \in Keys : LET v == 1 + (Len(hist) % 2) IN Take(<<"add", k, Clock, v>>, "ok", Added(st, k, Clock, v))
     \/ \E w \in Ways, kind \in Good, how \in {"once", "once2", "keep", "xrun"} :
          /\ kind # "sum" => how \in {"once", "xrun"}
          /\ Free(w[1], w[2])
          /\ IF ~st.series[w[1]].is \/ st.pipes[w[1]][w[2]] # None THEN Take(<<"run", kind, w[1], w[2], how>>, "refused", st)
             ELSE Take(<<"run", kind, w[1], w[2], how>>, "ok", Ran(st, kind, w[1], w[2], how \in {"keep", "xrun"}))
     \/ \E kind \in Faulty, how \in {"once", "keep", "xrun"} : Free("b", "a") /\ Take(<<"run", kind, "b", "a", how>>, "refused", st)
     \/ Take(<<"run", "sum", "b", "a", "unclear">>, "refused", st)
     \/ Take(<<"run", "sum", "b", "", "once">>, "refused", st)
Spec == Init /\ [][Next]_vars
View == <<st, Len(hist)>>

\* times of a series go up
Ordered == \A k \in Keys : st.series[k].is => \A i \in 1..Len(st.series[k].at) - 1 : st.series[k].at[i][1] < st.series[k].at[i + 1][1]
\* what is published for a key was at some time in its series
RefusedChangesNothing == [][hist'[Len(hist')][2] = "refused" => st' = st]_vars
\* a pipeline that is not kept is gone, one that is kept stays
Kept == [][LET a == hist'[Len(hist')][1] IN
           /\ a[1] = "run" /\ hist'[Len(hist')][2] = "ok" => (st'.pipes[a[3]][a[4]] # None) = (a[5] \in {"keep", "xrun"})
           /\ a[1] = "add" => \A i, o \in Keys : (st'.pipes[i][o] # None) = (st.pipes[i][o] # None)]_vars
=============================================================================
