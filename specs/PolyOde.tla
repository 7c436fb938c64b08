------------------------------- MODULE PolyOde -------------------------------
(* Polynomial initial value problems with parameters, batched: the problems   *)
(* the integrator is checked on, their rates and exact partial derivatives.   *)
(*                                                                            *)
(* A problem is a record                                                      *)
(*   ny, nb, nt     state size, batch size, number of time points             *)
(*   t[k][b]        time grid of batch member b                               *)
(*   y0[b][i]       initial condition                                         *)
(*   par[j]         [batched, v]: v has one value, or one per batch member    *)
(*   terms          sequence of monomials                                     *)
(*                     [row, coef, par, pe, tp, e]  meaning                   *)
(*                  ydot[row] += coef * par^pe * t^tp * Prod_i y[i]^e[i]      *)
(*                  (par = 0: no parameter)                                   *)
(*   w[k][b][i]     weights of the scalar Sum w y that is differentiated      *)
EXTENDS Mat, Rnd

ParVal(p, j, b) == IF p.par[j].batched THEN p.par[j].v[b] ELSE p.par[j].v[1]

RECURSIVE Mono(_, _, _)
Mono(e, y, i) ==   \* Prod_{l >= i} y[l]^e[l]
    IF i > Len(e) THEN R1
    ELSE IF e[i] = 0 THEN Mono(e, y, i + 1)
    ELSE FMul(RPowN(y[i], e[i]), Mono(e, y, i + 1))

\* coefficient of a term without its monomial in y
TermC(p, m, b, t) ==
    LET c == FMul(m.coef, RPowN(t, m.tp))
    IN IF m.par = 0 THEN c ELSE FMul(c, RPowN(ParVal(p, m.par, b), m.pe))

\* derivative of that coefficient with respect to the term's parameter
TermCp(p, m, b, t) ==
    FMul(FMul(m.coef, RPowN(t, m.tp)),
         FMul(RI(m.pe), RPowN(ParVal(p, m.par, b), m.pe - 1)))

SelSum(p, Row(_), F(_)) ==   \* Sum of F(term) over the terms with Row(term)
    FoldLeft(LAMBDA acc, m: IF Row(m) THEN FAdd(acc, F(m)) ELSE acc, R0, p.terms)

Rate(p, b, t, y) ==
    Force([i \in 1..p.ny |->
        SelSum(p, LAMBDA m: m.row = i, LAMBDA m: FMul(TermC(p, m, b, t), Mono(m.e, y, 1)))])

DMono(e, y, j) == FMul(RI(e[j]), Mono([e EXCEPT ![j] = e[j] - 1], y, 1))

\* d ydot / d y
RateJac(p, b, t, y) ==
    Force([i \in 1..p.ny |-> [j \in 1..p.ny |->
        SelSum(p, LAMBDA m: m.row = i /\ m.e[j] > 0,
                  LAMBDA m: FMul(TermC(p, m, b, t), DMono(m.e, y, j)))]])

\* d ydot / d parameters (columns: the parameters as batch member b sees them)
RatePar(p, b, t, y) ==
    Force([i \in 1..p.ny |-> [j \in 1..Len(p.par) |->
        SelSum(p, LAMBDA m: m.row = i /\ m.par = j,
                  LAMBDA m: FMul(TermCp(p, m, b, t), Mono(m.e, y, 1)))]])

--------------------------------------------------------------------------------
(* Generation of problems.  D(i, lo, hi) draws; every family of indices below *)
(* uses its own range of i.                                                   *)

StepSizes == <<<<1, 4>>, <<1, 8>>, <<1, 2>>, <<3, 8>>, <<1, 4>>, <<0, 1>>, <<1, 16>>>>

RECURSIVE Cumul(_, _, _)
Cumul(acc, d, k) == IF k > Len(d) THEN acc
                    ELSE Cumul(Append(acc, RAdd(acc[Len(acc)], d[k])), d, k + 1)

\* back: 0 forwards in time, 1 backwards, 2 to and fro (all grids of a member)
Grid(s, c, b, nt, zeros, shared) ==
    LET bb == IF shared THEN 1 ELSE b
        D(i, lo, hi) == Draw(s, c, 1000 + 50 * bb + i, lo, hi)
        back == Pick(s, c, 8100 + bb, <<0, 0, 0, 0, 1, 2>>)
        turn(k) == back = 1 \/ (back = 2 /\ Draw(s, c, 8200 + 60 * bb + k, 0, 1) = 1)
        \* steps back are shorter: they are unstable the other way round
        raw == Force([k \in 1..(nt - 1) |->
                 LET d == StepSizes[D(k, 1, IF zeros THEN 7 ELSE 5)]
                 IN IF turn(k) THEN RMul(<<-1, 8>>, d) ELSE d])
        t0 == <<D(40, 0, 4), 4>>
    IN Cumul(<<t0>>, raw, 1)

TermsFor(s, c, ny, np, i, linear) ==
    LET D(k, lo, hi) == Draw(s, c, 2000 + 100 * i + k, lo, hi)
        Unit(j) == [l \in 1..ny |-> IF l = j THEN 1 ELSE 0]
        Plus(e, j) == [e EXCEPT ![j] = e[j] + 1]
        jj == D(1, 1, ny)
        ll == D(2, 1, ny)
    IN << [row |-> i, coef |-> <<-D(3, 1, 4), 2>>, par |-> D(4, 0, np), pe |-> D(5, 1, 2),
           tp |-> 0, e |-> Unit(i)],
          [row |-> i, coef |-> <<Pick(s, c, 2000 + 100 * i + 6, <<-3, -1, 1, 2>>), 16>>,
           par |-> D(7, 0, np), pe |-> D(8, 1, 2), tp |-> D(9, 0, 1),
           e |-> IF linear \/ D(10, 0, 2) = 0 THEN Unit(jj) ELSE Plus(Unit(jj), ll)],
          [row |-> i, coef |-> <<Pick(s, c, 2000 + 100 * i + 11, <<-3, -2, 1, 3>>), 8>>,
           par |-> D(12, 0, np), pe |-> D(13, 1, 2), tp |-> D(14, 0, 1),
           e |-> [l \in 1..ny |-> 0]] >>

RECURSIVE TermsFrom(_, _, _, _, _, _)
TermsFrom(s, c, ny, np, i, linear) ==
    IF i > ny THEN <<>>
    ELSE TermsFor(s, c, ny, np, i, linear) \o TermsFrom(s, c, ny, np, i + 1, linear)

BaseProblem(s, c, ny, nb, nt, np, zeros, linear) ==
    LET D(i, lo, hi) == Draw(s, c, i, lo, hi)
        shared == D(1, 0, 3) = 0
        sparse == D(2, 0, 2)
    IN Force([ny |-> ny, nb |-> nb, nt |-> nt,
        t |-> LET g == Force([b \in 1..nb |-> Grid(s, c, b, nt, zeros, shared)])
              IN [k \in 1..nt |-> [b \in 1..nb |-> g[b][k]]],
        y0 |-> [b \in 1..nb |-> [i \in 1..ny |-> IF D(8300, 0, 3) = 0 THEN RI(D(8300 + 10 * b + i, -1, 1))
                                                ELSE <<D(100 + 10 * b + i, -4, 4), 4>>]],
        par |-> [j \in 1..np |->
                   LET bt == D(200 + j, 0, 1) = 1
                   IN [batched |-> bt,
                       v |-> [b \in 1..(IF bt THEN nb ELSE 1) |->
                                <<D(210 + 10 * j + b, 2, 6), 4>>]]],
        terms |-> TermsFrom(s, c, ny, np, 1, linear),
        w |-> [k \in 1..nt |-> [b \in 1..nb |-> [i \in 1..ny |->
                 IF sparse = 1 /\ D(300 + 40 * k + 10 * b + i, 0, 3) > 0 THEN R0
                 ELSE IF sparse = 2 /\ k < nt THEN R0
                 ELSE <<D(700 + 40 * k + 10 * b + i, -6, 6), 2>>]]]])

\* the same problem with time measured in another unit
Rescaled(p, e) ==
    LET f == IF e < 0 THEN RInv(RPowN(RI(2), -e)) ELSE RPowN(RI(2), e)
    IN [p EXCEPT !.t = [k \in 1..p.nt |-> [b \in 1..p.nb |-> RMul(f, p.t[k][b])]],
                 !.terms = [i \in 1..Len(p.terms) |->
                    [p.terms[i] EXCEPT !.coef = RDiv(p.terms[i].coef,
                                                     RPowN(f, 1 + p.terms[i].tp))]]]

\* a problem with the given sizes
MkProblem(s, c, ny, nb, nt, np, zeros, linear) ==
    Force(Rescaled(BaseProblem(s, c, ny, nb, nt, np, zeros, linear),
                   Pick(s, c, 8400, <<0, 0, 0, 0, -36, 24>>)))

\* p made autonomous, with shared data and a constant added to every rate such
\* that the initial condition is an equilibrium (for these parameter values
\* only: the derivatives with respect to the parameters are not zero)
Equilibrium(p) ==
    LET q == [p EXCEPT !.y0 = [b \in 1..p.nb |-> p.y0[1]],
                       !.par = [j \in 1..Len(p.par) |->
                                  [batched |-> FALSE, v |-> <<p.par[j].v[1]>>]],
                       !.terms = [i \in 1..Len(p.terms) |-> [p.terms[i] EXCEPT !.tp = 0]]]
        r == Rate(q, 1, R0, q.y0[1])
    IN Force([q EXCEPT !.terms = q.terms \o
          [i \in 1..p.ny |-> [row |-> i, coef |-> RNeg(r[i]), par |-> 0, pe |-> 1, tp |-> 0,
                               e |-> [l \in 1..p.ny |-> 0]]]])
==============================================================================
