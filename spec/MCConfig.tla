------------------------------ MODULE MCConfig ------------------------------
(***************************************************************************)
(* The json of a single operator: which ones are accepted, what is filled  *)
(* in, what the operator says about itself, and what the published schema  *)
(* lets through.  Every type with every combination of the values below    *)
(* for its parameters, also none at all and values of the wrong kind.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, RtIO

(***************************************************************************)
(* Values of json: [k, v] or [k, es]; numbers have int (an integer) and at (the       *)
(* number itself up to 3, to compare with a minimum)                       *)
(***************************************************************************)
Num(v, int, at) == [k |-> "num", v |-> v, int |-> int, at |-> at]
Str(v) == [k |-> "str", v |-> v]
Arr(es) == [k |-> "arr", es |-> es]
None == [k |-> "none"]
Tenth == "3602879701896397/36028797018963968"
Numbers == {Num("3/2", FALSE, 1), Num("-7", TRUE, -1), Num("0", TRUE, 0), Num(Tenth, FALSE, 0), Num("1099511627776", TRUE, 3)}
Integers_ == {Num("1", TRUE, 1), Num("2", TRUE, 2), Num("3", TRUE, 3), Num("17", TRUE, 3)}
OddIntegers == {Num("0", TRUE, 0), Num("-1", TRUE, -1), Num("5/2", FALSE, 2)}
Big == {Num("1099511627776", TRUE, 3)}
One == Num("1", TRUE, 1)
Lists == {Arr(<<>>), Arr(<<One>>), Arr(<<Num("3/2", FALSE, 1), Num("-7", TRUE, -1)>>),
          Arr(<<One, Num("2", TRUE, 2), Num(Tenth, FALSE, 0), Num("0", TRUE, 0), Num("-7", TRUE, -1), One, One, One, One, Num("5", TRUE, 3), Num("6", TRUE, 3)>>),
          Arr([i \in 1..40 |-> Num(ToString(i), TRUE, IF i < 3 THEN i ELSE 3)]),
          Arr(<<One, Str("2")>>)}
Pt(a, b) == Arr(<<a, b>>)
Points == {Arr(<<Pt(Num("0", TRUE, 0), One), Pt(Num("3/2", FALSE, 1), Num("-7", TRUE, -1))>>),
           Arr(<<Pt(Num("-7", TRUE, -1), One), Pt(Num("0", TRUE, 0), Num(Tenth, FALSE, 0)), Pt(One, One)>>),
           Arr([i \in 1..24 |-> Pt(Num(ToString(2 * i), TRUE, IF i < 2 THEN 2 ELSE 3), Num(ToString(i), TRUE, IF i < 3 THEN i ELSE 3))]),
           Arr(<<Pt(One, One)>>), Arr(<<Arr(<<One>>), Pt(Num("3", TRUE, 3), One)>>), Arr(<<One, One>>)}
Wrong == {Str("x"), None}

(***************************************************************************)
(* Types                                                                   *)
(***************************************************************************)
P(name, kind, min) == [name |-> name, kind |-> kind, req |-> TRUE, min |-> min, def |-> None]
Opt(name, kind, min, def) == [name |-> name, kind |-> kind, req |-> FALSE, min |-> min, def |-> def]
AnyInt == -1
Value == <<P("value", "num", AnyInt)>>
Types == {"Input", "Output", "Join", "Demultiplexer", "Add", "Scale", "Constant", "Power", "LessThan", "GreaterThan", "EqualTo", "Variable",
          "And", "Or", "Plus", "Minus", "Multiplication", "Division", "GreaterThanStream", "LessThanStream", "Identity", "Count",
          "CumulativeSum", "Difference", "MovingAverage", "StandardDeviation", "PeakDetector", "RelativeStrengthIndex",
          "FiniteImpulseResponse", "AutoRegressive", "Linear", "Function", "TimeShift", "ConstantResampler", "CosineResampler",
          "HermiteResampler", "Sum", "linear", ""}
Known(t) == t \notin {"Sum", "linear", ""}
Params(t) ==
  CASE t \in {"Input", "Output"} -> <<Opt("numPorts", "int", 1, One)>>
    [] t = "Demultiplexer" -> <<Opt("numPorts", "int", 1, One)>>
    [] t = "Join" -> <<Opt("numPorts", "int", 2, Num("2", TRUE, 2))>>
    [] t \in {"Add", "Scale", "Constant", "Power", "LessThan", "GreaterThan", "EqualTo"} -> Value
    [] t = "Variable" -> <<Opt("value", "num", AnyInt, Num("0", TRUE, 0))>>
    [] t \in {"MovingAverage", "StandardDeviation", "PeakDetector", "RelativeStrengthIndex"} -> <<P("n", IF t = "StandardDeviation" THEN "num" ELSE "int", AnyInt)>>
    [] t = "FiniteImpulseResponse" -> <<P("coeff", "list", 0)>>
    [] t = "AutoRegressive" -> <<P("coeff", "list", 1)>>
    [] t = "Linear" -> <<P("coeff", "list", 2)>>
    [] t = "Function" -> <<P("points", "points", 2), Opt("interpolation", "name", 0, Str("linear"))>>
    [] t = "TimeShift" -> <<Opt("dt", "int", 1, One), Opt("times", "int", AnyInt, One)>>
    [] t = "ConstantResampler" -> <<P("interval", "int", 1)>>
    [] t \in {"CosineResampler", "HermiteResampler"} -> <<P("dt", "int", AnyInt)>>
    [] OTHER -> <<>>
\* Difference, Identity, ... have none; all the types but two are in the schema
Published(t) == Known(t) /\ t # "RelativeStrengthIndex"

Candidates(t, p) ==
  CASE p.name \in {"dt", "interval"} -> Integers_ \cup Big \cup OddIntegers \cup Wrong
    [] p.name = "times" -> {One, Num("0", TRUE, 0), Num("-3", TRUE, -1), Num("5/2", FALSE, 2)} \cup Wrong
    [] p.name = "n" -> Integers_ \cup Big \cup OddIntegers \cup Wrong
    [] p.kind = "int" -> Integers_ \cup OddIntegers \cup Wrong
    [] p.kind = "num" -> Numbers \cup Wrong
    [] p.kind = "list" -> Lists \cup Wrong \cup {One}
    [] p.kind = "points" -> Points \cup Wrong
    [] p.kind = "name" -> {Str("linear"), Str("hermite"), Str("cubic"), One, None}

(***************************************************************************)
(* What the schema says of a value                                         *)
(***************************************************************************)
IsNum(v) == v.k = "num"
SchemaOk(p, v) ==
  CASE p.kind = "num" -> IsNum(v)
    [] p.kind = "int" -> IsNum(v) /\ v.int /\ (p.min # AnyInt => v.at >= p.min)
    [] p.kind = "list" -> v.k = "arr" /\ Len(v.es) >= p.min /\ \A i \in 1..Len(v.es) : IsNum(v.es[i])
    [] p.kind = "points" -> v.k = "arr" /\ Len(v.es) >= 2 /\ \A i \in 1..Len(v.es) : v.es[i].k = "arr" /\ Len(v.es[i].es) = 2 /\ \A j \in 1..2 : IsNum(v.es[i].es[j])
    [] p.kind = "name" -> v.k = "str" /\ v.v \in {"linear", "hermite"}
Absent(v) == v.k = "none"
Valid(t, a) == Published(t) /\ \A i \in 1..Len(Params(t)) : LET p == Params(t)[i] IN IF Absent(a[i]) THEN ~p.req ELSE SchemaOk(p, a[i])

(***************************************************************************)
(* What creation without the schema does: a value of another kind of json  *)
(* is refused, one that the schema alone refuses is left open              *)
(***************************************************************************)
RightKind(p, v) ==
  CASE p.kind \in {"num", "int"} -> IsNum(v)
    [] p.kind = "list" -> v.k = "arr" /\ \A i \in 1..Len(v.es) : IsNum(v.es[i])
    [] p.kind = "points" -> v.k = "arr" /\ \A i \in 1..Len(v.es) : v.es[i].k = "arr" /\ Len(v.es[i].es) >= 2 /\ \A j \in 1..Len(v.es[i].es) : IsNum(v.es[i].es[j])
    [] p.kind = "name" -> v.k = "str"
\* n of StandardDeviation is a number for the schema; only integers mean anything, and one value has no deviation
Meaningful(t, p, v) == /\ SchemaOk(p, v)
                       /\ p.name \in {"n", "dt", "interval"} => v.int /\ v.at >= 1
                       /\ t \in {"StandardDeviation", "RelativeStrengthIndex"} => v.at >= 2
                       /\ p.kind = "list" => Len(v.es) >= 1
Outcome(t, a) ==
  LET ps == Params(t)
      I == 1..Len(ps)
  IN  CASE ~Known(t) -> "refused"
        [] \E i \in I : Absent(a[i]) /\ ps[i].req -> "refused"
        [] \E i \in I : ~Absent(a[i]) /\ ~RightKind(ps[i], a[i]) -> "refused"
        [] \E i \in I : ~Absent(a[i]) /\ ~Meaningful(t, ps[i], a[i]) -> "open"
        [] OTHER -> "created"
Filled(t, a) == [i \in 1..Len(a) |-> IF Absent(a[i]) THEN Params(t)[i].def ELSE a[i]]
Small(v) == IF v.v = "17" THEN 17 ELSE v.at
Ports(t, a) == \* [in, ctl, out]
  LET f == Filled(t, a) IN
  CASE t \in {"Input", "Output", "Join"} -> <<Small(f[1]), 0, Small(f[1])>>
    [] t = "Demultiplexer" -> <<1, Small(f[1]), Small(f[1])>>
    [] t = "Linear" -> <<Len(f[1].es), 0, 1>>
    [] t = "Variable" -> <<1, 1, 1>>
    [] t \in {"And", "Or", "Plus", "Minus", "Multiplication", "Division", "GreaterThanStream", "LessThanStream"} -> <<2, 0, 1>>
    [] OTHER -> <<1, 0, 1>>

(***************************************************************************)
(* All of them                                                             *)
(***************************************************************************)
VARIABLES t, a, idk
Assignments(x) == LET ps == Params(x) IN
  CASE Len(ps) = 0 -> {<<>>}
    [] Len(ps) = 1 -> {<<u>> : u \in Candidates(x, ps[1])}
    [] Len(ps) = 2 -> {<<u, w>> : u \in Candidates(x, ps[1]), w \in Candidates(x, ps[2])}
Init == /\ t \in Types
        /\ a \in Assignments(t)
        /\ idk \in {"given", "missing"}
        /\ idk = "missing" => \A i \in 1..Len(a) : ~Absent(a[i])
Next == UNCHANGED <<t, a, idk>>
Spec == Init /\ [][Next]_<<t, a, idk>>

What == IF idk = "missing" THEN "refused" ELSE Outcome(t, a)
IsValid == idk = "given" /\ Valid(t, a)
Pairs(x) == [i \in 1..Len(x) |-> <<Params(t)[i].name, x[i]>>]
Described == Emit([type |-> t, id |-> idk, params |-> Pairs(a), what |-> What, valid |-> IsValid, known |-> Known(t), published |-> Published(t),
                   written |-> IF What = "created" THEN Pairs(Filled(t, a)) ELSE <<>>,
                   ports |-> IF What = "created" THEN Ports(t, a) ELSE <<>>])
\* filling in the defaults changes neither what is accepted nor what it means
DefaultsAreMeant == What = "created" => Outcome(t, Filled(t, a)) = "created" /\ Filled(t, Filled(t, a)) = Filled(t, a)
                                        /\ (Published(t) => Valid(t, Filled(t, a)))
ValidIsCreated == IsValid => What \in {"created", "open"}
=============================================================================
