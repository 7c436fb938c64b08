--------------------------------- MODULE Rnd ---------------------------------
(* A deterministic source of varied data: Draw(s, c, i, lo, hi) is a value of *)
(* lo..hi picked by seed s, case c and index i.                               *)
EXTENDS Integers, Sequences

LOCAL Mix(a, b) == ((((((a * 75) + (b * 131)) + 74) % 65537) * 239) + b) % 65521
LOCAL Mix3(a, b) == Mix(Mix(Mix(a, b), b % 977), a % 991)

Draw(s, c, i, lo, hi) ==
    lo + (Mix3(Mix3(Mix3((s % 5003) + 17, c), i), (i % 101) + 3) % ((hi - lo) + 1))

\* an element of the sequence q
Pick(s, c, i, q) == q[Draw(s, c, i, 1, Len(q))]
==============================================================================
