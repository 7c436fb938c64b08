------------------------------- MODULE Jacobians -------------------------------
(* Functions of one or several vector arguments evaluated for a batch, one    *)
(* batch member after the other, with their exact Jacobians: what the         *)
(* wrappers that derive Jacobians have to return.  Each member is evaluated   *)
(* from its own arguments only.                                               *)
(*   out_i = Sum of terms  k * Prod x_v^e_v * s(lin)                          *)
(* where s is 1, tanh, exp or a square of a linear form in all arguments.     *)
(* With two arguments the second one is a forcing p + q t of a time t of the  *)
(* member: a neural ODE.                                                      *)
(* The tensor helpers are specified alongside, element by element.            *)
EXTENDS Dual, Rnd, Emit

CONSTANTS Seed, Cases

VARIABLES c, cfg, k, val, jac, pc
vars == <<c, cfg, k, val, jac, pc>>

D(i, lo, hi) == Draw(Seed, c, i, lo, hi)
Val(i) == RMk(D(i, -24, 24), 16)
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE q[1] * Prod(Tail(q))

NA == Pick(Seed, c, 1, <<1, 2, 3, 2, 1, 3, 4, 5>>)
Size(a) == D(210 + a, 1, IF NA > 3 THEN 2 ELSE 4)
\* shapes a flat vector of that size can have
Shapes(n) == CASE n = 1 -> << <<>>, <<1>>, <<1, 1>> >>
               [] n = 2 -> << <<2>>, <<2, 1>>, <<1, 2>> >>
               [] n = 3 -> << <<3>>, <<3, 1>>, <<1, 3>> >>
               [] n = 4 -> << <<4>>, <<2, 2>>, <<2, 2, 1>> >>
               [] OTHER -> << <<n>> >>
Config ==
    LET na == NA
        sizes == [a \in 1..na |-> Size(a)]
        nx == FoldLeft(LAMBDA acc, s: acc + s, 0, sizes)
        m == IF na = 2 /\ D(15, 0, 3) > 0 THEN sizes[1] ELSE D(16, 1, 4)
        nbd == D(17, 0, 3)
        batch == [d \in 1..nbd |-> D(17 + d, 1, 3)]
        nb == Prod(batch)
        nterm == D(25, 1, 3)
        p == [j \in 1..4 |-> Val(30 + j)]
        q == [j \in 1..4 |-> Val(40 + j)]
        t == [b \in 1..nb |-> RMk(D(100 + b, 0, 16), 8)]
        x(b, a, j) == IF na = 2 /\ a = 2 THEN FAdd(p[j], FMul(q[j], t[b]))
                      ELSE IF D(60, 0, 2) = 0 /\ D(1000 * b + 10 * a + j, 0, 3) = 0 THEN R0
                      ELSE Val(1000 * b + 10 * a + j)
    IN [na |-> na, sizes |-> sizes, nx |-> nx, m |-> m, batch |-> batch, nb |-> nb,
        p |-> p, q |-> q, t |-> t,
        \* the shape in which a function takes each of its arguments
        ashape |-> [a \in 1..na |-> Pick(Seed, c, 900 + a, Shapes(sizes[a]))],
        xshape |-> Pick(Seed, c, 26, Shapes(sizes[1])), vshape |-> Pick(Seed, c, 27, Shapes(m)),
        x |-> [b \in 1..nb |-> [a \in 1..na |-> [j \in 1..sizes[a] |-> x(b, a, j)]]],
        terms |-> [i \in 1..m |-> [r \in 1..nterm |->
                     [k |-> Val(2000 + 50 * i + r), f |-> D(2500 + 50 * i + r, 0, 3),
                      e |-> [v \in 1..nx |-> IF D(3000 + 200 * i + 20 * r + v, 0, 2) = 0
                                             THEN D(5000 + 200 * i + 20 * r + v, 1, 2) ELSE 0],
                      w |-> [v \in 1..nx |-> IF D(7000 + 200 * i + 20 * r + v, 0, 1) = 0 THEN R0
                                             ELSE RMk(D(9000 + 200 * i + 20 * r + v, -8, 8), 16)]]]]]

\* the term's value for the dual arguments X (all arguments one after another)
RECURSIVE PowX(_, _, _)
PowX(X, e, v) == IF v > Len(X) THEN DC(R1)
                 ELSE IF e[v] = 0 THEN PowX(X, e, v + 1)
                 ELSE IF e[v] = 1 THEN DMul(X[v], PowX(X, e, v + 1))
                 ELSE DMul(DMul(X[v], X[v]), PowX(X, e, v + 1))
Lin(X, w) == DSum([v \in 1..Len(X) |-> DScale(w[v], X[v])])
Term(X, r) == LET l == Force(Lin(X, r.w))
                  s == CASE r.f = 0 -> DC(R1) [] r.f = 1 -> DTanh(l) [] r.f = 2 -> DExp(l)
                         [] r.f = 3 -> DMul(l, l)
              IN DScale(r.k, DMul(PowX(X, r.e, 1), s))
Fun(X) == Force([i \in 1..cfg.m |-> DSum([r \in 1..Len(cfg.terms[i]) |-> Term(X, cfg.terms[i][r])])])

Offset(a) == FoldLeft(LAMBDA acc, s: acc + s, 0, SubSeq(cfg.sizes, 1, a - 1))
Flat(b) == FoldLeft(LAMBDA acc, s: acc \o s, <<>>, cfg.x[b])

Init == c \in Cases /\ cfg = <<>> /\ k = 1 /\ val = <<>> /\ jac = <<>> /\ pc = "setup"
Setup == pc = "setup" /\ pc' = "eval" /\ cfg' = Force(Config) /\ UNCHANGED <<c, k, val, jac>>

\* one batch member
Eval == /\ pc = "eval" /\ k <= cfg.nb
        /\ LET X == Force([v \in 1..cfg.nx |-> DSeed(Flat(k)[v], v, cfg.nx)])
               y == Fun(X)
           IN /\ val' = Append(val, Force([i \in 1..cfg.m |-> DVal(y[i])]))
              /\ jac' = Append(jac, Force([a \in 1..cfg.na |-> [i \in 1..cfg.m |->
                                             [j \in 1..cfg.sizes[a] |-> DD(y[i], Offset(a) + j)]]]))
        /\ k' = k + 1 /\ UNCHANGED <<c, cfg, pc>>

\* the tensor helpers: matrices of a batch, with dimensions of one broadcast
Helpers ==
    LET nb1 == D(70, 0, 3)
        bs == [d \in 1..nb1 |-> D(70 + d, 1, 3)]
        cut == D(77, 0, nb1)                         \* leading dimensions the second operand lacks
        one(o, d) == IF D(80 + 5 * o + d, 0, 3) = 0 THEN 1 ELSE bs[d]
        s1 == [d \in 1..nb1 |-> one(0, d)]
        s2 == [d \in 1..(nb1 - cut) |-> one(1, d + cut)]
        full == [d \in 1..nb1 |-> IF s1[d] # 1 \/ d <= cut THEN s1[d] ELSE s2[d - cut]]
        n == D(95, 1, 3)  mm == D(96, 1, 3)  o == D(97, 1, 3)
        A(b) == [i \in 1..n |-> [j \in 1..mm |-> Val(11000 + 20 * b + 4 * i + j)]]
        B(b) == [i \in 1..mm |-> [j \in 1..o |-> Val(13000 + 20 * b + 4 * i + j)]]
        \* index (from 0) of element q of the full batch in an operand of shape s
        strides(s) == [d \in 1..Len(s) |-> Prod(SubSeq(s, d + 1, Len(s)))]
        at(q, s) == LET off == nb1 - Len(s)
                    IN FoldLeft(LAMBDA acc, d:
                         acc + (IF s[d] = 1 THEN 0
                                ELSE ((q \div Prod(SubSeq(full, d + off + 1, nb1))) % s[d]) * strides(s)[d]),
                         0, [d \in 1..Len(s) |-> d])
        N == Prod(full)
        vals == [j \in 1..6 |-> IF D(140 + j, 0, 3) = 0 THEN R0 ELSE Val(150 + j)]
        M(b) == [i \in 1..n |-> [j \in 1..n |-> Val(15000 + 20 * b + 4 * i + j)]]
    IN [s1 |-> s1, s2 |-> s2, full |-> full, n |-> n, m |-> mm, o |-> o,
        A |-> [b \in 1..Prod(s1) |-> A(b - 1)], B |-> [b \in 1..Prod(s2) |-> B(b - 1)],
        AB |-> [q \in 1..N |-> MMul(A(at(q - 1, s1)), B(at(q - 1, s2)))],
        v |-> vals, heaviside |-> [j \in 1..6 |-> RMk(RSign(vals[j]) + 1, 2)],
        macaulay |-> [j \in 1..6 |-> RMax(vals[j], R0)],
        M |-> [b \in 1..3 |-> M(b)],
        Mid |-> [b \in 1..3 |-> [i \in 1..n |-> [j \in 1..n |->
                    RAdd(M(b)[i][j], IF i = j THEN R1 ELSE R0)]]]]

Done == /\ pc = "eval" /\ k > cfg.nb /\ pc' = "done"
        /\ Emit(Force([c |-> c, cfg |-> cfg, val |-> val, jac |-> jac, help |-> Helpers]))
        /\ UNCHANGED <<c, cfg, k, val, jac>>
Next == Setup \/ Eval \/ Done
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Ready == pc = "eval" /\ k > 1
\* the derivative agrees with an (exactly evaluated) difference quotient
H == <<1, 1048576>>
Difference == Ready =>
    LET b == k - 1
        X(v, h) == [w \in 1..cfg.nx |-> DC(IF w = v THEN RAdd(Flat(b)[w], h) ELSE Flat(b)[w])]
    IN \A a \in 1..cfg.na : \A j \in 1..cfg.sizes[a] :
        LET v == Offset(a) + j
            up == Fun(X(v, H))  dn == Fun(X(v, RNeg(H)))
        IN \A i \in 1..cfg.m :
            RLe(RAbs(RSub(jac[b][a][i][j], FDiv(FSub(DVal(up[i]), DVal(dn[i])), RMul(<<2, 1>>, H)))), <<1, 1000000>>)
\* a member's values do not change when another member's arguments do
Own == Ready => \A i \in 1..cfg.m :
          REq(val[k - 1][i], DVal(Fun([v \in 1..cfg.nx |-> DC(Flat(k - 1)[v])])[i]))
==============================================================================
