------------------------------- MODULE MCNet -------------------------------
(***************************************************************************)
(* A whole program under every sequence of messages.                       *)
(*   NetConforms    every operator emits what it means (RtSem) for the     *)
(*                  streams that its connections bring, each message of    *)
(*                  which arrives once and in order                        *)
(*   OrderConforms  other declarations of the program emit the same        *)
(*   FlatConforms   a program with its pipelines unfolded emits the same   *)
(* Complete behaviours are written out for the driver.                     *)
(***************************************************************************)
EXTENDS NetCases

VARIABLES ni, ev, all, out, log, err
vars == <<ni, ev, all, out, log, err>>

Words(P) == <<P, Backwards(P), Turned(P), Flat(P)>>
Linked == TLCEval([i \in 1..Len(Nets) |-> LET w == Words(Nets[i].p) IN [j \in 1..4 |-> Link(w[j])]])
P == Nets[ni].p
W == Linked[ni]

Init == /\ ni \in 1..Len(Nets)
        /\ ev = <<>>
        /\ all = [j \in 1..4 |-> InitNet(Linked[ni][j])]   \* the state of each wording
        /\ log = [j \in 1..4 |-> <<>>]
        /\ out = <<>>
        /\ err = ""

LastTime(p) == LET I == {i \in 1..Len(ev) : ev[i][1] = p}
               IN  IF I = {} THEN 0 ELSE ev[CHOOSE i \in I : \A j \in I : j <= i][2]
Step(p, t, v) ==
  \E R \in {TLCEval([j \in 1..4 |-> ReceiveOne(W[j], Start(all[j]), P.entry, p, <<t, v>>)])} :
  /\ ev' = Append(ev, <<p, t, v>>)
  /\ all' = [j \in 1..4 |-> R[j].ops]
  /\ log' = [j \in 1..4 |-> log[j] \o R[j].log]
  /\ out' = Append(out, R[1].log)
  /\ err' = R[1].err
  /\ \A j \in 2..4 : R[j].err = R[1].err
  /\ UNCHANGED ni
Next == /\ err = ""
        /\ Len(ev) < Nets[ni].len
        /\ \E k \in 1..NumIn(OpOf(P, P.entry)) : \E g \in Nets[ni].gaps : \E v \in Nets[ni].vals :
             LET t == LastTime(IPort(k)) + g IN t >= 1 /\ Step(IPort(k), t, v)
Spec == Init /\ [][Next]_vars

\* what arrived at a port: the messages of the entry, or what the connections brought
Sources(p, id, port) == LET w == Wire(p) IN SelectSeq(w, LAMBDA k : k[3] = id /\ k[4] = port)
Arrived(p, lg, id, port) ==
  IF id = p.entry
    THEN LET x == SelectSeq(ev, LAMBDA e : e[1] = port) IN [i \in 1..Len(x) |-> <<x[i][2], x[i][3]>>]
    ELSE LET s == Sources(p, id, port) IN IF s = <<>> THEN <<>> ELSE Stream(lg, <<s[1][1], s[1][2]>>)
OpConforms(p, lg, c) ==
  LET ports == {IPort(k) : k \in 1..NumIn(c)} \cup {CPort(k) : k \in 1..NumCtl(c)}
      want == Sem(c, [q \in ports |-> Arrived(p, lg, c.id, q)])
  IN  \A k \in 1..NumOut(c) : Stream(lg, <<c.id, OPort(k)>>) = want[OPort(k)]
NetConforms == err = "" => \A j \in {1, 4} : LET p == Words(P)[j] IN
                 \A i \in 1..Len(p.ops) : Determinate(p.ops[i]) => OpConforms(p, log[j], p.ops[i])
SameLogs(a, b, key(_)) == \A k \in Keys(a) : Stream(a, k) = Stream(b, key(k))
OrderConforms == err = "" => \A j \in {2, 3} : /\ SameLogs(log[1], log[j], LAMBDA k : k)
                                               /\ Keys(log[j]) = Keys(log[1])
FlatConforms == err = "" => SameLogs(log[1], log[4], LAMBDA k : FlatKey(P, k))

Complete == err # "" \/ Len(ev) = Nets[ni].len
Emitted == Complete => Emit([words |-> ni, ev |-> ev, out |-> out, err |-> err]) /\ Count("behaviours")
\* the wordings themselves, written once
WordsOut == ev = <<>> => Emit([words |-> ni, programs |-> Words(P),
                               flat |-> [i \in 1..Len(P.ops) |->
                                          LET c == P.ops[i] IN
                                          [k \in 1..NumOut(c) |-> <<c.id, OPort(k), FlatKey(P, <<c.id, OPort(k)>>)>>]]])
=============================================================================
