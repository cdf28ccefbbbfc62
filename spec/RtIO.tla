-------------------------------- MODULE RtIO --------------------------------
(***************************************************************************)
(* Input/output of the checks (Java override RtIO.java).                   *)
(*   Emit(s)   writes the value s as one JSON line to the file named by    *)
(*             the environment variable RT_OUT; it is TRUE.                *)
(*   Count(k)  adds one to the counter k, reported in RT_OUT.counters.     *)
(*   EnvI(n,d) the environment variable n as an integer, d when not set.   *)
(*   Env(n,d)  the same as a string.                                       *)
(*   StrLt(a,b) the string a comes before the string b.                     *)
(*   Traces    the sequence of JSON values in the file named by RT_IN.     *)
(***************************************************************************)
EXTENDS Integers, Sequences
Emit(s)    == TRUE
Count(k)   == TRUE
EnvI(n, d) == d
Env(n, d)  == d
StrLt(a, b) == a = b
Traces     == <<>>
=============================================================================
