------------------------------- MODULE RtNum -------------------------------
(***************************************************************************)
(* Message values.  rtbot computes with IEEE doubles; the specification    *)
(* computes with exact rationals, written as strings ("3", "-7/4"), and    *)
(* marks ("~v@e") the results that a double cannot hold exactly: the       *)
(* quotient 1/3, a square root, a cosine.  A marked value v@e stands for   *)
(* "some number within e of v"; the mark is sticky.  The specification     *)
(* never decides a comparison that the mark leaves open: NAmb(a, b) tells  *)
(* those apart, and a behaviour that would depend on one is cut there.     *)
(*                                                                         *)
(* TLC evaluates these operators with the Java class RtNum.java (module    *)
(* override); the definitions below are their meaning on exact values.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Undefined == "given by RtNum.java"

NI(i)        == Undefined   \* the number i, for an integer i
NAdd(a, b)   == Undefined   \* a + b
NSub(a, b)   == Undefined   \* a - b
NMul(a, b)   == Undefined   \* a * b
NDiv(a, b)   == Undefined   \* a / b, b different from 0
NNeg(a)      == Undefined   \* -a
NSqrt(a)     == Undefined   \* square root of a >= 0
NPow(a, b)   == Undefined   \* a to the power b
NLt(a, b)    == Undefined   \* a < b
NLe(a, b)    == Undefined   \* a <= b
NEq(a, b)    == Undefined   \* a = b
NAmb(a, b)   == Undefined   \* the marks leave open whether a < b, a = b or a > b
NMax(s)      == Undefined   \* the largest of a non empty sequence of numbers
NSum(s)      == Undefined   \* sum of a sequence of numbers
NDot(s, t)   == Undefined   \* sum of s[i] * t[i]
NStd(s)      == Undefined   \* sample standard deviation of a sequence, Len(s) >= 2
NCos(y1, y2, p, q) == Undefined \* y1 (1-m) + y2 m, with m = (1 - cos(pi p/q)) / 2
NExact(a)    == Undefined   \* a carries no mark
NFloor(a)    == Undefined   \* largest integer not above a (an integer, not a number)
NAbs(a)      == Undefined   \* |a|
NHuge(a)     == Undefined   \* a is so large, or so uncertain, that the doubles of the code may be off
NClose(a, x, scale) == Undefined \* the double printed as x is one that a stands for, among numbers up to scale
NSame(a, x)  == Undefined   \* the double printed as x is exactly a
=============================================================================
