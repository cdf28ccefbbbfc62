------------------------------- MODULE OpCases -------------------------------
(***************************************************************************)
(* The bounded instances that MCOp explores completely, by group.          *)
(*   c      the operator                                                   *)
(*   gaps   time between two messages of the same port                     *)
(*   tmax   latest time                                                    *)
(*   vals   values of the data messages; {} stands for values that         *)
(*          identify the message                                           *)
(*   cvals  values of the control messages                                 *)
(*   len    number of messages                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, RtIO
LOCAL INSTANCE TLC

K(c, gaps, tmax, vals, cvals, len) == [c |-> c, gaps |-> gaps, tmax |-> tmax, vals |-> vals, cvals |-> cvals, len |-> len]
Stream(c, vals, len) == K(c, {1}, 99, vals, {}, len)
Gapped(c, gaps, vals, len) == K(c, gaps, 99, vals, {}, len)
Op(type) == [type |-> type, id |-> "x"]

Deep == EnvI("RT_DEEP", 0)     \* the thorough tier explores longer behaviours
L(n) == n + Deep

InputCases == <<
  K([type |-> "Input", id |-> "x", numPorts |-> 1], {-1, 0, 1, 2}, 4, {"1", "-2"}, {}, L(5)),
  K([type |-> "Input", id |-> "x", numPorts |-> 2], {-1, 0, 1}, 3, {}, {}, L(5)),
  K([type |-> "Input", id |-> "x", numPorts |-> 3], {-1, 0, 2}, 4, {}, {}, L(4)),
  K([type |-> "Input", id |-> "x", numPorts |-> 11], {0, 1}, 2, {}, {}, 3) >>

OutputCases == <<
  K([type |-> "Output", id |-> "x", numPorts |-> 1], {-1, 0, 1}, 3, {"1", "5/2"}, {}, L(4)),
  K([type |-> "Output", id |-> "x", numPorts |-> 2], {0, 1}, 3, {}, {}, L(5)),
  K([type |-> "Output", id |-> "x", numPorts |-> 11], {1}, 2, {}, {}, 3) >>

JoinCases == <<
  K([type |-> "Join", id |-> "x", numPorts |-> 2], {1, 2}, 5, {}, {}, L(7)),
  K([type |-> "Join", id |-> "x", numPorts |-> 3], {1, 2}, 4, {}, {}, L(6)),
  K([type |-> "Join", id |-> "x", numPorts |-> 4], {1, 2}, 2, {}, {}, L(6)),
  \* several outdated messages
  K([type |-> "Join", id |-> "x", numPorts |-> 2], {1, 4}, 6, {}, {}, L(7)),
  K([type |-> "Join", id |-> "x", numPorts |-> 3], {1, 3}, 3, {}, {}, L(7)) >>

BinaryCase(type, vals) == K(Op(type), {1, 2}, 3, vals, {}, L(4))
BinaryCases == <<
  BinaryCase("Minus", {"3", "-1/2"}), BinaryCase("Plus", {"3", "-1/2"}),
  BinaryCase("Multiplication", {"3", "-1/2", "0"}),
  BinaryCase("Division", {"3", "-1/2", "0"}),
  BinaryCase("And", {"0", "1", "1/2"}), BinaryCase("Or", {"0", "1", "1/4"}),
  BinaryCase("GreaterThanStream", {"-1", "0", "2"}), BinaryCase("LessThanStream", {"-1", "0", "2"}),
  K([type |-> "Linear", id |-> "x", coeff |-> <<"2", "-3">>], {1, 2}, 3, {"1", "-1/2"}, {}, L(5)),
  K([type |-> "Linear", id |-> "x", coeff |-> <<"2", "-3", "5">>], {1, 2}, 3, {}, {}, L(5)),
  K(Op("Minus"), {1, 2}, 5, {}, {}, L(6)), K(Op("GreaterThanStream"), {1, 2}, 5, {}, {}, L(6)),
  K(Op("Division"), {1, 4}, 6, {"0", "2"}, {}, L(5)) >>

DemuxCases == <<
  K([type |-> "Demultiplexer", id |-> "x", numPorts |-> 1], {1, 2}, 3, {}, {"0", "1"}, L(6)),
  K([type |-> "Demultiplexer", id |-> "x", numPorts |-> 2], {1, 2}, 2, {}, {"0", "1"}, L(6)),
  K([type |-> "Demultiplexer", id |-> "x", numPorts |-> 3], {1}, 2, {}, {"0", "1"}, L(5)),
  K([type |-> "Demultiplexer", id |-> "x", numPorts |-> 1], {1}, 2, {"1"}, {"0", "1", "2", "1/2"}, L(4)),
  \* instructions that are neither one nor zero by little
  K([type |-> "Demultiplexer", id |-> "x", numPorts |-> 1], {1}, 2, {"1"}, {"0", "1", "1099511627777/1099511627776", "-1/1099511627776"}, L(4)),
  \* several outdated instructions
  K([type |-> "Demultiplexer", id |-> "x", numPorts |-> 1], {1, 3, 4}, 5, {}, {"0", "1"}, L(5)),
  K([type |-> "Demultiplexer", id |-> "x", numPorts |-> 2], {1, 3}, 3, {}, {"1"}, L(6)) >>

VariableCases == <<
  K([type |-> "Variable", id |-> "x", value |-> "-7"], {1, 2}, 6, {}, {"0"}, L(6)),
  K([type |-> "Variable", id |-> "x", value |-> "1/2"], {1, 3}, 7, {}, {"9"}, L(6)) >>

W(type, n) == [type |-> type, id |-> "x", n |-> n]
WindowCases == <<
  Stream(W("MovingAverage", 1), {"1", "-5/2", "8"}, L(5)),
  Stream(W("MovingAverage", 2), {"1", "-5/2", "8"}, L(5)),
  Stream(W("MovingAverage", 3), {"1", "-5/2", "8"}, L(6)),
  Stream(W("MovingAverage", 4), {"0", "-5/2", "8"}, L(6)),
  Stream(W("StandardDeviation", 2), {"1", "-5/2", "8"}, L(5)),
  Stream(W("StandardDeviation", 3), {"1", "-5/2", "8"}, L(6)),
  Stream(W("StandardDeviation", 4), {"1", "-5/2", "8"}, L(6)),
  Stream([type |-> "FiniteImpulseResponse", id |-> "x", coeff |-> <<"3">>], {"1", "-5/2", "8"}, L(4)),
  Stream([type |-> "FiniteImpulseResponse", id |-> "x", coeff |-> <<"1", "-2">>], {"1", "-5/2", "8"}, L(5)),
  Stream([type |-> "FiniteImpulseResponse", id |-> "x", coeff |-> <<"1", "-2", "1/4">>], {"1", "-5/2", "8"}, L(6)),
  Gapped(W("PeakDetector", 3), {1, 3}, {"-1", "0", "2"}, L(5)),
  Stream(W("PeakDetector", 3), {"-1", "0", "2", "7"}, L(6)),
  Stream(W("PeakDetector", 5), {"-1", "0", "2"}, L(7)),
  Stream(W("PeakDetector", 1), {"-1", "2"}, L(4)),
  Stream(W("PeakDetector", 4), {"-1", "0", "2"}, L(6)),
  \* messages of the same time
  Gapped(W("MovingAverage", 2), {0, 1}, {"1", "-5/2"}, L(5)), Gapped(W("StandardDeviation", 3), {0, 1}, {"1", "-5/2"}, L(5)),
  Gapped([type |-> "FiniteImpulseResponse", id |-> "x", coeff |-> <<"1", "-2">>], {0, 1}, {"1", "-5/2"}, L(5)),
  Gapped(Op("Difference"), {1, 3}, {"1", "-5/2", "8"}, L(5)) >>

AccumulatorCases == <<
  Gapped(Op("Count"), {1, 4}, {"1", "-3"}, L(7)),
  Stream(Op("CumulativeSum"), {"1", "-5/2", "8", "0"}, L(6)),
  \* messages of the same time count one by one
  Gapped(Op("CumulativeSum"), {0, 1}, {"1", "2", "-1"}, L(4)), Gapped(Op("Count"), {0, 2}, {"1"}, L(7)),
  Gapped([type |-> "AutoRegressive", id |-> "x", coeff |-> <<"1/2", "-3">>], {0, 1}, {"1", "-5/2"}, L(5)),
  Stream([type |-> "AutoRegressive", id |-> "x", coeff |-> <<"2">>], {"1", "-5/2", "8"}, L(6)),
  Stream([type |-> "AutoRegressive", id |-> "x", coeff |-> <<"1/2", "-3">>], {"1", "-5/2", "8"}, L(6)),
  Stream([type |-> "AutoRegressive", id |-> "x", coeff |-> <<"1/2", "-1", "2">>], {"1", "-5/2"}, L(7)) >>

Val(type, v) == [type |-> type, id |-> "x", value |-> v]
Some == {"0", "1", "-5/2", "8", "1/4"}
Pts == << <<"-1", "2">>, <<"0", "1/2">>, <<"2", "-3">>, <<"4", "0">> >>
Mixed == << Pts[1], Pts[3], Pts[2], Pts[4] >>
MapCases == <<
  Gapped(Val("Add", "5/2"), {1, 3}, Some, L(3)), Gapped(Val("Add", "5/2"), {0, 1}, {"1", "2"}, L(4)), Gapped(Val("Scale", "-3/2"), {0, 1}, {"1", "2"}, L(4)), Stream(Val("Add", "-8"), Some, L(3)),
  Stream(Val("Scale", "-3/2"), Some, L(3)), Stream(Val("Scale", "0"), Some, L(3)),
  Stream(Val("Constant", "13/8"), Some, L(3)), Stream(Val("Constant", "-2"), Some, L(3)),
  Stream(Val("Power", "2"), Some, L(3)), Stream(Val("Power", "3"), Some, L(3)), Stream(Val("Power", "0"), Some, L(3)),
  Stream(Val("Power", "-1"), {"1", "-2", "8", "1/4"}, L(3)), Stream(Val("Power", "1/2"), {"1", "2", "9", "1/4"}, L(3)),
  Gapped(Op("Identity"), {1, 3}, Some, L(3)),
  Stream(Val("LessThan", "1"), Some, L(4)), Stream(Val("LessThan", "-5/2"), Some, L(4)),
  Stream(Val("GreaterThan", "1"), Some, L(4)), Stream(Val("GreaterThan", "-5/2"), Some, L(4)),
  Stream(Val("EqualTo", "1"), Some, L(4)), Stream(Val("EqualTo", "0"), Some, L(4)), Stream(Val("EqualTo", "1/4"), Some, L(4)),
  Gapped(Val("LessThan", "1"), {0, 1}, {"0", "2"}, L(4)), Gapped(Val("GreaterThan", "1"), {0, 1}, {"0", "2"}, L(4)), Gapped(Val("EqualTo", "1"), {0, 1}, {"1", "2"}, L(4)),
  Gapped([type |-> "TimeShift", id |-> "x", dt |-> 2, times |-> 3], {1, 4}, {"1", "-3"}, L(4)),
  Gapped([type |-> "TimeShift", id |-> "x", dt |-> 2, times |-> -1], {1, 4}, {"1", "-3"}, L(4)),
  Gapped([type |-> "TimeShift", id |-> "x", dt |-> 1, times |-> -4], {1, 4}, {"1", "-3"}, L(4)),
  Gapped([type |-> "TimeShift", id |-> "x", dt |-> 5, times |-> 0], {1, 4}, {"1", "-3"}, L(4)),
  Stream([type |-> "Function", id |-> "x", interpolation |-> "linear", points |-> Pts], {"-3", "-1", "-1/2", "0", "1", "2", "3", "4", "6"}, 2),
  Stream([type |-> "Function", id |-> "x", interpolation |-> "hermite", points |-> Pts], {"-3", "-1", "-1/2", "0", "1", "2", "3", "4", "6"}, 2),
  Stream([type |-> "Function", id |-> "x", interpolation |-> "linear", points |-> Mixed], {"-3", "-1", "-1/2", "0", "1", "2", "3", "4", "6"}, 2),
  Stream([type |-> "Function", id |-> "x", interpolation |-> "hermite", points |-> Mixed], {"-3", "-1", "-1/2", "0", "1", "2", "3", "4", "6"}, 2),
  Stream([type |-> "Function", id |-> "x", interpolation |-> "linear", points |-> Reverse(Pts)], {"-3", "-1/2", "1", "3", "6"}, 2),
  Stream([type |-> "Function", id |-> "x", interpolation |-> "linear", points |-> SubSeq(Pts, 2, 3)], {"-3", "0", "1", "2", "3"}, 2),
  Stream([type |-> "Function", id |-> "x", interpolation |-> "hermite", points |-> SubSeq(Pts, 2, 3)], {"-3", "0", "1", "2", "3"}, 2) >>

ConstantResamplerCases == <<
  Gapped([type |-> "ConstantResampler", id |-> "x", interval |-> 1], {1, 2, 3}, {"1", "-2"}, L(5)),
  Gapped([type |-> "ConstantResampler", id |-> "x", interval |-> 2], {1, 2, 3, 5}, {"1", "-2"}, L(5)),
  Gapped([type |-> "ConstantResampler", id |-> "x", interval |-> 3], {1, 2, 4, 7}, {"1", "-2"}, L(5)),
  Gapped([type |-> "ConstantResampler", id |-> "x", interval |-> 2], {1, 151}, {"1", "-2"}, L(3)) >>

ResamplerCases == <<
  Gapped([type |-> "CosineResampler", id |-> "x", dt |-> 1], {1, 2, 3}, {"1", "-2"}, L(5)),
  Gapped([type |-> "CosineResampler", id |-> "x", dt |-> 2], {1, 2, 3, 5}, {"1", "-2"}, L(5)),
  Gapped([type |-> "CosineResampler", id |-> "x", dt |-> 3], {1, 2, 4, 7}, {"1", "-2"}, L(5)),
  Gapped([type |-> "CosineResampler", id |-> "x", dt |-> 2], {1, 150}, {"1", "-2"}, L(3)),
  Gapped([type |-> "HermiteResampler", id |-> "x", dt |-> 2], {1, 150}, {"1", "-2"}, L(3)),
  Gapped([type |-> "HermiteResampler", id |-> "x", dt |-> 1], {1, 2}, {"1", "-2"}, L(6)),
  Gapped([type |-> "HermiteResampler", id |-> "x", dt |-> 2], {1, 3}, {"1", "-2"}, L(6)),
  Gapped([type |-> "HermiteResampler", id |-> "x", dt |-> 3], {1, 2, 4, 7}, {"1"}, L(6)),
  Gapped([type |-> "HermiteResampler", id |-> "x", dt |-> 3], {2, 5}, {"0", "4"}, L(6)) >>

RsiCases == <<
  Stream(W("RelativeStrengthIndex", 1), {"1", "3", "-2"}, L(5)),
  Stream(W("RelativeStrengthIndex", 2), {"1", "3", "-2"}, L(6)),
  Stream(W("RelativeStrengthIndex", 3), {"1", "3", "-2"}, L(7)) >>

Cases ==
  LET g == Env("RT_GROUP", "input") IN
  CASE g = "input" -> InputCases
    [] g = "output" -> OutputCases
    [] g = "join" -> JoinCases
    [] g = "binary" -> BinaryCases
    [] g = "demux" -> DemuxCases
    [] g = "variable" -> VariableCases
    [] g = "window" -> WindowCases
    [] g = "accumulator" -> AccumulatorCases
    [] g = "map" -> MapCases
    [] g = "constantresampler" -> ConstantResamplerCases
    [] g = "resampler" -> ResamplerCases
    [] g = "rsi" -> RsiCases
=============================================================================
