------------------------------- MODULE MCRust -------------------------------
(***************************************************************************)
(* The registry of pipelines of the rust library: which pipelines there    *)
(* are from an input key to an output key.  The engine behind it is a      *)
(* stand-in: a program keeps the sum of the values that arrive in order of *)
(* time; one of kind "even" is silent when the sum is odd, "twice" says it *)
(* and then its double.                                                    *)
(***************************************************************************)
EXTENDS RtIO, FiniteSets, TLC

Depth == EnvI("RT_LEN", 5)
Walk == EnvI("RT_WALK", 0) = 1
Ins == IF Walk THEN {"a", "b", "c"} ELSE {"a", "b"}
Outs == IF Walk THEN {"x", "y", "z"} ELSE {"x", "y"}
Kinds == {"sum", "even", "refused"} \cup (IF Walk THEN {"twice"} ELSE {})
None == [kind |-> "none"]
New(kind) == [kind |-> kind, last |-> 0, sum |-> 0]

VARIABLES reg, hist
vars == <<reg, hist>>
Init == /\ reg = [i \in Ins |-> [o \in Outs |-> None]]
        /\ hist = <<>>
Sorted(S) == SelectSeq(<<"x", "y", "z">>, LAMBDA o : o \in S)
Alive(r, i) == {o \in Outs : r[i][o] # None}

Accepts(p, t) == p.kind # "none" /\ t > p.last
Fed(p, t, v) == IF Accepts(p, t) THEN [p EXCEPT !.last = t, !.sum = @ + v] ELSE p
Said(p, t, v) == CASE ~Accepts(p, t) -> <<>>
                   [] p.kind = "even" /\ ((p.sum + v) % 2) # 0 -> <<>>
                   [] p.kind = "twice" -> << <<t, p.sum + v>>, <<t, 2 * (p.sum + v)>> >>
                   [] OTHER -> << <<t, p.sum + v>> >>
ReceiveReg(r, i, t, v) == [r EXCEPT ![i] = [o \in Outs |-> Fed(r[i][o], t, v)]]
ReceiveRes(r, i, t, v) == LET s == Sorted(Alive(r, i)) IN <<"got", [k \in 1..Len(s) |-> <<s[k], Said(r[i][s[k]], t, v)>>]>>

Take(a, res, r) ==
  /\ reg' = r
  /\ hist' = Append(hist, <<a, res>>)
  /\ LET each == SelectSeq(<<"a", "b", "c">>, LAMBDA i : i \in Ins)
     IN  Emit([hist |-> hist', got |-> [j \in 1..Len(each) |-> <<each[j], ReceiveRes(r, each[j], 60, 1)>>],
               alive |-> [j \in 1..Len(each) |-> <<each[j], Sorted(Alive(r, each[j]))>>]])
Clock == Len(hist) + 1
Next ==
  /\ Len(hist) < Depth
  /\ \/ \E k \in Kinds, i \in Ins, o \in Outs :
          IF k = "refused" \/ reg[i][o] # None THEN Take(<<"create", k, i, o>>, <<"refused">>, reg)
          ELSE Take(<<"create", k, i, o>>, <<"ok">>, [reg EXCEPT ![i][o] = New(k)])
     \/ \E i \in Ins, o \in Outs :
          IF reg[i][o] = None THEN Take(<<"del", i, o>>, <<"refused">>, reg)
          ELSE Take(<<"del", i, o>>, <<"ok">>, [reg EXCEPT ![i][o] = None])
     \/ \E i \in Ins : Take(<<"delin", i>>, <<"count", Cardinality(Alive(reg, i))>>, [reg EXCEPT ![i] = [o \in Outs |-> None]])
     \/ \E i \in Ins, t \in {Clock, 2} : Take(<<"recv", i, t, 1 + (Len(hist) % 2)>>, ReceiveRes(reg, i, t, 1 + (Len(hist) % 2)), ReceiveReg(reg, i, t, 1 + (Len(hist) % 2)))
Spec == Init /\ [][Next]_vars
View == <<reg, Len(hist)>>

\* a creation makes one pipeline, a deletion removes those that it names, a message changes none of another key
OnlyThat == [][LET a == hist'[Len(hist')][1]
                   r == hist'[Len(hist')][2]
               IN  /\ r = <<"refused">> => reg' = reg
                   /\ a[1] = "create" => \A i \in Ins, o \in Outs : <<i, o>> # <<a[3], a[4]>> => reg'[i][o] = reg[i][o]
                   /\ a[1] = "del" => \A i \in Ins, o \in Outs : <<i, o>> # <<a[2], a[3]>> => reg'[i][o] = reg[i][o]
                   /\ a[1] = "delin" => Alive(reg', a[2]) = {} /\ \A i \in Ins \ {a[2]} : reg'[i] = reg[i]
                   /\ a[1] = "recv" => (\A i \in Ins \ {a[2]} : reg'[i] = reg[i]) /\ \A i \in Ins : Alive(reg', i) = Alive(reg, i)]_vars
=============================================================================
