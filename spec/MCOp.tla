-------------------------------- MODULE MCOp --------------------------------
(***************************************************************************)
(* One operator and its environment: the environment sends messages to the *)
(* ports, in every order that the alphabet of the group allows.            *)
(*                                                                         *)
(*   - Conforms: the operational layer (RtOps) emits exactly what the      *)
(*     declarative layer (RtSem) says, after every step.                   *)
(*   - every complete behaviour is written out (Emit) and replayed on the  *)
(*     real operator by the driver.                                        *)
(*                                                                         *)
(* Cases: a sequence of [c : operator, ports : data ports, times : gaps    *)
(* between the messages of a port, vals : values, ctl : values of the      *)
(* control ports, len : number of steps, free : the time may also repeat   *)
(* or go back].  It comes from the group of the check, see OpCases.        *)
(***************************************************************************)
EXTENDS RtOps, RtIO, OpCases

VARIABLES ci, s, ev, out, err
vars == <<ci, s, ev, out, err>>

Case == Cases[ci]
C == Case.c

Init == /\ ci \in 1..Len(Cases)
        /\ s = InitOp(Cases[ci].c)
        /\ ev = <<>>
        /\ out = <<>>
        /\ err = ""

\* the times that may come next on a port
LastTime(p) == LET I == {i \in 1..Len(ev) : ev[i][1] = p}
               IN  IF I = {} THEN 0 ELSE ev[CHOOSE i \in I : \A j \in I : j <= i][2]
NextTimes(p) == {t \in {LastTime(p) + g : g \in Case.gaps} : t >= 1 /\ t <= Case.tmax}
PortNo(p) == IF p \in CtlPorts(C) THEN CHOOSE k \in 1..NCtl(C) : CPort(k) = p ELSE CHOOSE k \in 1..NIn(C) : IPort(k) = p
Values(p, t) == IF p \in CtlPorts(C) THEN Case.cvals
                ELSE IF Case.vals = {} THEN {NI(20 * PortNo(p) + Len(ev))} ELSE Case.vals

Step(p, t, v) ==
  \E r \in {OpExec(C, OpRecv(C, s, p, <<t, v>>))} :
  /\ s' = r.s
  /\ ev' = Append(ev, <<p, t, v>>)
  /\ out' = Append(out, r.out)
  /\ err' = r.err
  /\ UNCHANGED ci

Next == /\ err = ""
        /\ Len(ev) < Case.len
        /\ \E p \in DataPorts(C) \cup CtlPorts(C) : \E t \in NextTimes(p) : \E v \in Values(p, t) : Step(p, t, v)

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Ins == [p \in DataPorts(C) \cup CtlPorts(C) |->
          LET I == SelectSeq(ev, LAMBDA e : e[1] = p) IN [i \in 1..Len(I) |-> <<I[i][2], I[i][3]>>]]
Outs == [o \in OutPorts(C) |->
          FlattenSeq([i \in 1..Len(out) |->
            FlattenSeq([j \in 1..Len(out[i]) |-> IF out[i][j][1] = o THEN out[i][j][2] ELSE <<>>])])]
VarHist == [i \in 1..Len(ev) |-> [k |-> IF ev[i][1] = "c1" THEN "c" ELSE "d", t |-> ev[i][2], v |-> ev[i][3]]]

Conforms ==
  CASE err = "amb" -> TRUE
    [] C.type = "Demultiplexer" -> IF err = "" THEN Outs = Sem(C, Ins) ELSE MalformedControl(C, Ins)
    [] C.type = "Variable" -> err = "" => \A a \in 1..Len(ev) :
         LET answers == SemVariableAt(C, VarHist, a)
         IN  out[a] = IF answers = <<>> THEN <<>> ELSE << <<"o1", answers>> >>
    [] OTHER -> err = "" /\ Outs = Sem(C, Ins)

\* for the windows: nothing is emitted before the window is full
Complete == err # "" \/ Len(ev) = Case.len
Emitted == Complete => (Emit([c |-> C, ev |-> ev, out |-> out, err |-> err]) /\ Count(C.type))
=============================================================================
