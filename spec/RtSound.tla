------------------------------- MODULE RtSound -------------------------------
(***************************************************************************)
(* Which programs are accepted (WellFormed), and which of those can also   *)
(* be run (Runnable: no cycles and one source for each port).              *)
(***************************************************************************)
EXTENDS RtEngine

KnownTypes == {"Input", "Output", "Join", "Demultiplexer", "Add", "Scale", "Constant", "Power", "LessThan", "GreaterThan", "EqualTo", "Variable",
               "And", "Or", "Plus", "Minus", "Multiplication", "Division", "GreaterThanStream", "LessThanStream", "Identity", "Count",
               "CumulativeSum", "Difference", "MovingAverage", "StandardDeviation", "PeakDetector", "RelativeStrengthIndex",
               "FiniteImpulseResponse", "AutoRegressive", "Linear", "Function", "TimeShift", "ConstantResampler", "CosineResampler",
               "HermiteResampler", "Pipeline"}
Gone(P) == "gone" \in DOMAIN P /\ P.gone # <<>>
RECURSIVE SoundGraph(_)
SoundGraph(P) ==
  /\ ~Gone(P)
  /\ \A i \in 1..Len(P.ops) : /\ P.ops[i].type \in KnownTypes
                              /\ P.ops[i].type = "Pipeline" => SoundGraph(P.ops[i].prog)
  /\ \A i \in 1..Len(P.conns) :
       LET k == P.conns[i] IN
       /\ k[1] \in Ids(P) /\ k[3] \in Ids(P)
       /\ LET f == OpOf(P, k[1])
              t == OpOf(P, k[3])
          IN  /\ HasOut(f, FromPort(f, k[2]))
              /\ HasIn(t, ToPort(t, k[4])) \/ HasCtl(t, ToPort(t, k[4]))
WellFormed(P) == /\ SoundGraph(P)
                 /\ P.entry \in Ids(P)
                 /\ NumCtl(OpOf(P, P.entry)) = 0
\* beyond that, what may be run: no cycles, one source for each port
RECURSIVE Runnable(_)
Runnable(P) == /\ \A i, j \in 1..Len(P.conns) : i # j => <<Wire(P)[i][3], Wire(P)[i][4]>> # <<Wire(P)[j][3], Wire(P)[j][4]>>
               /\ LET R == {<<P.conns[i][1], P.conns[i][3]>> : i \in 1..Len(P.conns)}
                      RECURSIVE Reach(_, _)
                      Reach(S, n) == IF n = 0 THEN S ELSE Reach(S \cup {e[2] : e \in {x \in R : x[1] \in S}}, n - 1)
                  IN  \A id \in Ids(P) : id \notin Reach({e[2] : e \in {x \in R : x[1] = id}}, Len(P.ops))
               /\ \A i \in 1..Len(P.ops) : P.ops[i].type = "Pipeline" => Runnable(P.ops[i].prog)
=============================================================================
