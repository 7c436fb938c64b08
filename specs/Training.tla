-------------------------------- MODULE Training --------------------------------
(* Inference as a walk: the parameters of a deterministic model, or those of  *)
(* the guide of a hierarchical model, follow the gradient of the objective    *)
(* over a number of steps, each with one of two data sets.  The objective is  *)
(*   deterministic:  the sum of squared differences from the data             *)
(*   hierarchical:   minus the log joint density at the values of the guide   *)
(* and only the parameters of the walk move: the priors, the data, the noise  *)
(* that is not inferred and the weights stay what they were.                  *)
(*                                                                            *)
(* The response is a stand-in for an integrated material model, or a linear   *)
(* viscoelastic material integrated step by step with the backward Euler      *)
(* rule (strain- and stress-controlled): an integration whose result, and     *)
(* gradient, is a rational function of the parameters.                        *)
EXTENDS Dual, ReduceOps, Rnd, Emit

CONSTANTS Seed, Cases, Steps

VARIABLES c, cfg, U, obj, hist, k, pc
vars == <<c, cfg, U, obj, hist, k, pc>>

D(i, lo, hi) == Draw(Seed, c, i, lo, hi)
Hier == c % 4 # 0
Visco == c % 3 # 0

RECURSIVE AtanT(_, _, _, _)
AtanT(p, z2, n, acc) == IF n > 40 THEN acc
                        ELSE AtanT(FMul(p, RNeg(z2)), z2, n + 1, FAdd(acc, FDiv(p, RI(2 * n + 1))))
Atan(z) == AtanT(z, FMul(z, z), 0, R0)
Pi == FSub(RMul(RI(16), Atan(<<1, 5>>)), RMul(RI(4), Atan(<<1, 239>>)))
HalfLn2Pi == RDiv(Ln(RMul(RI(2), Pi)), RI(2))
DNormal(v, mu, s) == LET z == DDiv(DSub(v, mu), s)
                     IN DSub(DSub(DScale(<<-1, 2>>, DMul(z, z)), DLn(s)), DC(HalfLn2Pi))
DHalfNormal(v, s) == DAdd(DNormal(v, DC(R0), s), DC(Ln(RI(2))))

NP == IF Visco THEN 2 ELSE D(1, 1, 2)
NE == D(2, 1, 3)
NT == D(3, 2, 4)
Names == << <<"n", "eta">>, <<"a", "b">>, <<"E", "p_2">> >>
Pos(i, hi, den) == RMk(D(i, 1, hi), den)
Val(i) == RMk(D(i, -16, 16), 8)
StrainTypes == <<"tensile", "relaxation", "strain_cyclic", "abstract_tensile", "direct_data", "tensile">>
StressTypes == <<"creep", "stress_cyclic", "direct_data", "creep">>
CycOf(t, o, b) ==
    LET n0 == D(o + 60 + b, 0, NT - 1)
    IN CASE t \in {"strain_cyclic", "stress_cyclic"} -> [j \in 1..NT |-> (j - 1) \div (1 + D(o + 70 + b, 0, 2))]
         [] t \in {"relaxation", "creep"} -> [j \in 1..NT |-> IF j <= n0 THEN 0 ELSE 1]
         [] t = "abstract_tensile" -> [j \in 1..NT |-> IF j <= n0 THEN 0 ELSE IF j = n0 + 1 THEN 1 ELSE 2]
         [] OTHER -> [j \in 1..NT |-> 0]
\* a data set: its experiments are of other types than those of the other set
Test(s, b) ==
    LET o == 5000 * s + 200 * b
        control == D(o + 1, 0, 1)
        type == IF control = 0 THEN Pick(Seed, c, o + 2, StrainTypes) ELSE Pick(Seed, c, o + 2, StressTypes)
        gap(j) == RMk(D(o + 10 + j, 1, 8), 8)
        time == FoldLeft(LAMBDA acc, j: Append(acc, RAdd(acc[Len(acc)], gap(j))), <<RMk(D(o + 9, 0, 4), 4)>>,
                         [j \in 1..(NT - 1) |-> j])
    IN [type |-> type, code |-> Code(type), control |-> control, cyc |-> CycOf(type, o, b), time |-> time,
        T |-> [j \in 1..NT |-> RMk(D(o + 30 + j, 0, 80), 8)],
        drive |-> [j \in 1..NT |-> IF j = 1 /\ Visco THEN R0 ELSE Val(o + 40 + j)],
        \* around the response of the stand-in
        data |-> [j \in 1..NT |-> RAdd(RMk(D(o + 50 + j, -24, 24), 8),
                    IF Visco THEN R0
                    ELSE RAdd(RMul(RI(3), RMk(D(o + 30 + j, 0, 80), 8)), RAdd(RMul(RI(2), Val(o + 40 + j)), RI(5 * control))))]]
Config ==
    LET shape == [j \in 1..NP |-> IF Visco THEN <<>> ELSE Pick(Seed, c, 80 + j, << <<>>, <<1>>, <<2>>, <<2, 2>>, <<1, 2>> >>)]
        len(j) == FoldLeft(LAMBDA acc, d: acc * d, 1, shape[j])
        bytype == D(6, 0, 1) = 0
        start(i) == IF Visco THEN RMk(D(i, 16, 40), 8) ELSE Val(i)
    IN [np |-> NP, ne |-> NE, nt |-> NT, shape |-> shape, hier |-> Hier, visco |-> Visco,
        names |-> SubSeq(Names[D(9, 1, 3)], 1, NP),
        loc |-> [j \in 1..NP |-> [i \in 1..len(j) |-> start(300 + 10 * j + i)]],
        locscale |-> [j \in 1..NP |-> [i \in 1..len(j) |-> Pos(400 + 10 * j + i, 16, 8)]],
        scalescale |-> [j \in 1..NP |-> [i \in 1..len(j) |-> RMk(D(500 + 10 * j + i, 3, 16), 8)]],
        bytype |-> bytype,
        noise |-> [i \in 1..(IF bytype THEN 7 ELSE 1) |-> RMk(D(600 + i, 8, 32), 8)],
        infer |-> Hier /\ D(7, 0, 1) = 0,
        weights |-> [i \in 1..7 |-> IF D(8, 0, 2) = 0 THEN R1 ELSE RMk(D(660 + i, 1, 16), 8)],
        weighted |-> D(8, 0, 2) > 0,
        lr |-> RMk(1, IF Hier THEN 256 ELSE 2048), adjoint |-> D(10, 0, 2) > 0, block |-> D(11, 1, 5),
        method |-> Pick(Seed, c, 12, <<"thomas", "pcr", "hybrid">>),
        sets |-> [s \in 1..2 |-> [b \in 1..NE |-> Test(s, b)]],
        order |-> [i \in 1..Steps |-> D(900 + i, 1, 2)]]

--------------------------------------------------------------------------------
(* the layout of the walk's parameters                                        *)
NV(j) == Len(cfg.loc[j])
LO(j) == FoldLeft(LAMBDA acc, i: acc + Len(cfg.loc[i]), 0, [i \in 1..(j - 1) |-> i])
NL == LO(NP + 1)
ILoc(j, i) == LO(j) + i
IScl(j, i) == NL + LO(j) + i
IOwn(b, j, i) == 2 * NL + (b - 1) * NL + LO(j) + i
IEps(i) == (2 + NE) * NL + i
NU == IF ~Hier THEN NL ELSE (2 + NE) * NL + (IF cfg.infer THEN Len(cfg.noise) ELSE 0)
\* parameter and component of place m of 1..NL
Of(m) == LET j == CHOOSE q \in 1..NP : LO(q) < m /\ m <= LO(q) + NV(q) IN <<j, m - LO(j)>>
Start == Force([m \in 1..NU |->
    IF m <= NL THEN cfg.loc[Of(m)[1]][Of(m)[2]]
    ELSE IF m <= 2 * NL THEN Ln(cfg.scalescale[Of(m - NL)[1]][Of(m - NL)[2]])
    ELSE IF m <= (2 + NE) * NL
    THEN LET q == Of(((m - 1) % NL) + 1)        \* every experiment starts at the prior mean
         IN cfg.loc[q[1]][q[2]]
    ELSE Ln(cfg.noise[m - (2 + NE) * NL])])

--------------------------------------------------------------------------------
(* the response of experiment e to the parameters P[j][i]                     *)
Stub(e, P) ==
    LET mix == DSum([j \in 1..NP |-> DScale(RI(j), DSum([i \in 1..NV(j) |-> DScale(RI(i), P[j][i])]))])
    IN [j \in 1..NT |-> DAdd(DScale(RAdd(R1, e.time[j]), mix),
                             DC(RAdd(RMul(RI(3), e.T[j]), RAdd(RMul(RI(2), e.drive[j]), RI(5 * e.control)))))]
\* strain control: stress after each step; stress control: strain after each step
\* (E = P[1], eta = P[2])
ViscoStep(e, P, j, prev) ==
    LET dt == RSub(e.time[j], e.time[j - 1])
        dx == RSub(e.drive[j], e.drive[j - 1])
        E == P[1][1]  eta == P[2][1]
    IN IF e.control = 0
       THEN DDiv(DAdd(prev, DScale(dx, E)), DAdd(DC(R1), DDiv(DScale(dt, E), eta)))
       ELSE DAdd(prev, DAdd(DDiv(DC(dx), E), DDiv(DC(FMul(dt, e.drive[j])), eta)))
Material(e, P) == FoldLeft(LAMBDA acc, j: Append(acc, Force(ViscoStep(e, P, j, acc[Len(acc)]))), <<DC(R0)>>,
                           [i \in 1..(NT - 1) |-> i + 1])
Response(e, P) == IF Visco THEN Material(e, P) ELSE Stub(e, P)

\* the reductions of ReduceOps, as choices of the points that count
ArgMax(v, S) == CHOOSE j \in S : \A i \in S : RLe(v[i][1], v[j][1])
DReduced(e, v) ==
    LET pts(n) == {i \in 1..NT : e.cyc[i] = n}
        first(n) == CHOOSE i \in pts(n) : \A m \in pts(n) : i <= m
    IN CASE e.type \in {"tensile", "direct_data"} -> v
      [] e.type \in {"relaxation", "creep"} ->
            [j \in 1..NT |-> IF e.cyc[j] = 1 THEN DSub(v[j], v[first(1)]) ELSE DC(R0)]
      [] e.type \in {"strain_cyclic", "stress_cyclic"} -> [j \in 1..NT |-> v[ArgMax(v, pts(e.cyc[j]))]]
      [] e.type = "abstract_tensile" ->
            [j \in 1..NT |-> CASE e.cyc[j] = 0 -> DC(R0) [] e.cyc[j] = 1 -> v[first(1)]
                               [] e.cyc[j] = 2 -> v[ArgMax(v, 1..NT)]]
\* equal largest values: the gradient is not defined
Tie(e, v) ==
    LET S == IF e.type = "abstract_tensile" THEN 1..NT ELSE {}
        eq(A) == \E i, j \in A : i # j /\ REq(v[i][1], v[j][1]) /\ \A m \in A : RLe(v[m][1], v[i][1])
    IN IF e.type \in {"strain_cyclic", "stress_cyclic"} THEN \E n \in 0..3 : eq({i \in 1..NT : e.cyc[i] = n})
       ELSE eq(S)

Objective(s) ==
    LET X == Force([m \in 1..NU |-> DSeed(U[m], m, NU)])
        eps == Force([i \in 1..Len(cfg.noise) |-> IF cfg.infer THEN DExp(X[IEps(i)]) ELSE DC(cfg.noise[i])])
        own(b) == [j \in 1..NP |-> [i \in 1..NV(j) |-> IF Hier THEN X[IOwn(b, j, i)] ELSE X[ILoc(j, i)]]]
        exps == cfg.sets[s]
        v == Force([b \in 1..NE |-> Response(exps[b], own(b))])
        r == Force([b \in 1..NE |-> DReduced(exps[b], v[b])])
        noise(b) == IF cfg.bytype THEN eps[exps[b].code + 1] ELSE eps[1]
        scl(j, i) == DExp(X[IScl(j, i)])
        square == DSum([b \in 1..NE |-> DSum([j \in 1..NT |->
                     LET d == DSub(r[b][j], DC(exps[b].data[j])) IN DMul(d, d)])])
        top == DSum([m \in 1..NL |-> LET j == Of(m)[1]  i == Of(m)[2] IN
                  DAdd(DNormal(X[ILoc(j, i)], DC(cfg.loc[j][i]), DC(cfg.locscale[j][i])),
                       DHalfNormal(scl(j, i), DC(cfg.scalescale[j][i])))])
        ns == IF cfg.infer THEN DSum([i \in 1..Len(eps) |-> DHalfNormal(eps[i], DC(cfg.noise[i]))]) ELSE DC(R0)
        each == DSum([b \in 1..NE |-> DScale(cfg.weights[exps[b].code + 1],
                  DAdd(DSum([m \in 1..NL |-> LET j == Of(m)[1]  i == Of(m)[2] IN
                             DNormal(own(b)[j][i], X[ILoc(j, i)], scl(j, i))]),
                       DSum([j \in 1..NT |-> DNormal(DC(exps[b].data[j]), r[b][j], noise(b))])))])
    IN [o |-> IF Hier THEN DNeg(DAdd(top, DAdd(ns, each))) ELSE square,
        res |-> [b \in 1..NE |-> [j \in 1..NT |-> r[b][j][1]]],
        tie |-> \E b \in 1..NE : Tie(exps[b], v[b])]

--------------------------------------------------------------------------------
Init == c \in Cases /\ cfg = <<>> /\ U = <<>> /\ obj = <<>> /\ hist = <<>> /\ k = 1 /\ pc = "setup"
Setup == pc = "setup" /\ pc' = "start" /\ cfg' = Force(Config) /\ UNCHANGED <<c, U, obj, hist, k>>
Begin == pc = "start" /\ pc' = "score" /\ U' = Start /\ UNCHANGED <<c, cfg, obj, hist, k>>
ScoreIt == /\ pc = "score" /\ k <= Steps
           /\ obj' = Force(Objective(cfg.order[k]))
           /\ pc' = "move" /\ UNCHANGED <<c, cfg, U, hist, k>>
Far == \E m \in 1..NU : RLt(<<1, 2>>, RAbs(FMul(cfg.lr, DD(obj.o, m))))
\* one step against the gradient; the walk ends when the steps become large
Move == /\ pc = "move" /\ ~Far
        /\ LET g == Force([m \in 1..NU |-> DD(obj.o, m)])
               u == Force([m \in 1..NU |-> FSub(U[m], FMul(cfg.lr, g[m]))])
           IN /\ U' = u
              /\ hist' = Append(hist, [set |-> cfg.order[k], loss |-> obj.o[1], res |-> obj.res, grad |-> g,
                                       at |-> U, to |-> u, tie |-> obj.tie])
        /\ k' = k + 1 /\ pc' = "score" /\ UNCHANGED <<c, cfg, obj>>
Done == /\ \/ pc = "score" /\ k > Steps
           \/ pc = "move" /\ Far
        /\ pc' = "done"
        /\ Emit([c |-> c, cfg |-> cfg, hist |-> hist])
        /\ UNCHANGED <<c, cfg, U, obj, hist, k>>
Next == Setup \/ Begin \/ ScoreIt \/ Move \/ Done
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
\* a parameter that no term of the objective contains has no gradient: the noise
\* of a type that is not in the data set moves by its prior alone
Used(s) == {cfg.sets[s][b].code + 1 : b \in 1..NE}
PriorAlone == (pc = "move" /\ Hier) =>
    \A i \in 1..Len(cfg.noise) : (cfg.infer /\ cfg.bytype /\ i \notin Used(cfg.order[k])) =>
        LET e == Exp(U[IEps(i)])  s == cfg.noise[i]
        IN RLt(RAbs(FSub(DD(obj.o, IEps(i)), FDiv(FMul(e, e), FMul(s, s)))), RInv(RPowN(RI(2), 60)))
\* the first step starts at the priors: no pull of the population means
FromPriors == (pc = "move" /\ k = 1 /\ Hier) => \A m \in 1..NL : RIsZero(DD(obj.o, m))
==============================================================================
