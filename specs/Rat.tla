--------------------------------- MODULE Rat ---------------------------------
(* Exact rational arithmetic.  A rational is the pair <<n, d>>, d > 0, in     *)
(* lowest terms.  The definitions below are the meaning; TLC evaluates them   *)
(* through java/Rat.java, which implements the same operators on integers of  *)
(* any size (TLC's own integers have 32 bits).  MC_Rat.tla checks the         *)
(* override against these definitions' algebra.  Compare rationals with REq,  *)
(* RLt and RLe, never with =.                                                 *)
EXTENDS Integers, Sequences

LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

RMk(n, d) == LET g == GCD(Abs(n), Abs(d))
                 s == IF d < 0 THEN -1 ELSE 1
             IN <<s * (n \div g), s * (d \div g)>>

RAdd(a, b) == RMk(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == RMk(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMul(a, b) == RMk(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == RMk(a[1] * b[2], a[2] * b[1])
RNeg(a) == <<-a[1], a[2]>>
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
REq(a, b) == a[1] * b[2] = b[1] * a[2]
RSign(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0

RECURSIVE RPowN(_, _)
RPowN(a, k) == IF k = 0 THEN <<1, 1>> ELSE RMul(a, RPowN(a, k - 1))

RFloor(a) == <<a[1] \div a[2], 1>>

\* floor(a 2^k) / 2^k, k >= 0
RTrunc(a, k) == RDiv(RFloor(RMul(a, <<2^k, 1>>)), <<2^k, 1>>)

\* any rounding to at least b significant bits
RRound(a, b) == a

RStr(a) == "rational"

--------------------------------------------------------------------------------
R0 == <<0, 1>>
R1 == <<1, 1>>
RI(n) == <<n, 1>>
RAbs(a) == IF RSign(a) < 0 THEN RNeg(a) ELSE a
RInv(a) == RDiv(R1, a)
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
RIsZero(a) == RSign(a) = 0
RSum4(a, b, c, d) == RAdd(RAdd(a, b), RAdd(c, d))
==============================================================================
