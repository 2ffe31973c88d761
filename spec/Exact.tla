------------------------------- MODULE Exact -------------------------------
(***************************************************************************)
(* Exact rational arithmetic on numbers written as strings, "n" or "n/d"   *)
(* with n an integer and d > 1 an integer without common factor.  TLC's    *)
(* own integers have 32 bits; float64 values need up to about 2100.  TLC   *)
(* evaluates these operators with java.math.BigInteger (java/Exact.java,   *)
(* part of the trusted base); the definitions here only say what they mean *)
(* in terms of the standard module Reals, and are not evaluated.           *)
(***************************************************************************)
EXTENDS Integers

LOCAL Val(s) == CHOOSE r \in {} : TRUE         \* the rational number that s denotes
LOCAL Str(r) == CHOOSE s \in STRING : Val(s) = r

RInt(i)    == Str(i)                            \* an integer as a rational
RAdd(a, b) == Str(Val(a) + Val(b))
RSub(a, b) == Str(Val(a) - Val(b))
RMul(a, b) == Str(Val(a) * Val(b))
RDiv(a, b) == Str(CHOOSE q \in {} : q * Val(b) = Val(a))
RAbs(a)    == IF Val(a) < 0 THEN Str(-Val(a)) ELSE a
RLe(a, b)  == Val(a) <= Val(b)
RLt(a, b)  == Val(a) < Val(b)
REq(a, b)  == Val(a) = Val(b)
RPow2(i)   == Str(CHOOSE q \in {} : q = 2^i)    \* 2^i for any integer i

=============================================================================
