------------------------------- MODULE StatModel -------------------------------
(* The statistical models as generative processes.  Parameters, noise and     *)
(* results are drawn one after the other and each draw adds its log-density.  *)
(*  "deterministic": no draws, the parameters are given                       *)
(*  "single": every parameter is drawn once, and shared by all experiments    *)
(*  "hierarchical": a population mean and spread for every parameter, then    *)
(*      a value per experiment; everything that belongs to one experiment     *)
(*      carries the weight of its type                                        *)
(* The material model is a stand-in whose response depends on all it is given.*)
EXTENDS RealFn, ReduceOps, Rnd, Emit, Force, SequencesExt

CONSTANTS Seed, Cases

VARIABLES c, cfg, sites, total, pred, res, pc
vars == <<c, cfg, sites, total, pred, res, pc>>

D(i, lo, hi) == Draw(Seed, c, i, lo, hi)
Kinds == <<"deterministic", "single", "hierarchical", "hierarchical", "guide">>
Kind == Kinds[1 + (c % 5)]
Hier == Kind \in {"hierarchical", "guide"}

\* log densities
RECURSIVE AtanT(_, _, _, _)
AtanT(p, z2, k, acc) == IF k > 40 THEN acc
                        ELSE AtanT(FMul(p, RNeg(z2)), z2, k + 1, FAdd(acc, FDiv(p, RI(2 * k + 1))))
Atan(z) == AtanT(z, FMul(z, z), 0, R0)
Pi == FSub(RMul(RI(16), Atan(<<1, 5>>)), RMul(RI(4), Atan(<<1, 239>>)))
HalfLn2Pi == RDiv(Ln(RMul(RI(2), Pi)), RI(2))
Normal(v, mu, s) == LET z == FDiv(FSub(v, mu), s)
                    IN FSub(FSub(FMul(<<-1, 2>>, FMul(z, z)), Ln(s)), HalfLn2Pi)
HalfNormal(v, s) == FAdd(Normal(v, R0, s), Ln(RI(2)))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN R0 ELSE FAdd(q[1], Sum(Tail(q)))

NP == D(1, 1, 3)                        \* parameters
NE == D(2, 1, 4)                        \* experiments
NT == D(3, 1, 4)                        \* times
Names == << <<"n", "eta", "R">>, <<"a", "b", "c">>, <<"p", "p_2", "zeta">> >>
Pos(i, hi, den) == RMk(D(i, 1, hi), den)
Val(i) == RMk(D(i, -40, 40), 8)
TypeOf(b) == Types[1 + (IF D(4, 0, 2) = 0 THEN D(5, 0, 6) ELSE D(20 + b, 0, 6))]
CycOf(t, b) ==
    LET n0 == D(60 + b, 0, NT - 1)
    IN CASE t \in {"strain_cyclic", "stress_cyclic"} -> [j \in 1..NT |-> (j - 1) \div (1 + D(70 + b, 0, 2))]
         [] t \in {"relaxation", "creep"} -> [j \in 1..NT |-> IF j <= n0 THEN 0 ELSE 1]
         [] t = "abstract_tensile" -> [j \in 1..NT |-> IF j <= n0 THEN 0 ELSE IF j = n0 + 1 THEN 1 ELSE 2]
         [] OTHER -> [j \in 1..NT |-> 0]

\* a parameter can be a scalar, a vector or an array: elements in row order
Shapes == << <<>>, <<>>, <<1>>, <<2>>, <<3>>, <<2, 2>>, <<2, 3>>, <<1, 3, 2>> >>
Config ==
    LET shape == [j \in 1..NP |-> Pick(Seed, c, 80 + j, Shapes)]
        len(j) == FoldLeft(LAMBDA acc, d: acc * d, 1, shape[j])
        bytype == D(6, 0, 1) = 0
        wts == D(8, 0, 2)
    IN [np |-> NP, ne |-> NE, nt |-> NT, shape |-> shape,
        names |-> SubSeq(Names[D(9, 1, 3)], 1, NP),
        suffixes |-> IF D(10, 0, 3) = 0 THEN <<"_m", "_s", "_q">> ELSE <<"_loc", "_scale", "_param">>,
        loc |-> [j \in 1..NP |-> [k \in 1..len(j) |-> Val(300 + 10 * j + k)]],
        locscale |-> [j \in 1..NP |-> [k \in 1..len(j) |-> Pos(400 + 10 * j + k, 30, 8)]],
        scalescale |-> [j \in 1..NP |-> [k \in 1..len(j) |-> Pos(500 + 10 * j + k, 30, 8)]],
        bytype |-> bytype,
        noise |-> [i \in 1..(IF bytype THEN 7 ELSE 1) |-> Pos(600 + i, 40, 4)],
        infer |-> Hier /\ D(7, 0, 1) = 0,                 \* the noise is drawn too
        weighted |-> wts > 0,
        \* 0: no weight is given for this type, and no experiment is of this type
        weights |-> [i \in 1..7 |-> IF wts = 0 THEN R1
                                    ELSE IF wts = 2 /\ D(650 + i, 0, 2) = 0 /\ \A b \in 1..NE : Code(TypeOf(b)) + 1 # i THEN R0
                                    ELSE Pos(660 + i, 20, 8)],
        exps |-> [b \in 1..NE |->
            [type |-> TypeOf(b), code |-> Code(TypeOf(b)), cyc |-> CycOf(TypeOf(b), b), control |-> D(700 + b, 0, 1),
             time |-> [j \in 1..NT |-> RMk(D(800 + 10 * b, 0, 9) + 3 * j, 8)],
             T |-> [j \in 1..NT |-> RMk(D(900 + 10 * b + j, 0, 80), 8)],
             drive |-> [j \in 1..NT |-> Val(1000 + 10 * b + j)],
             data |-> [j \in 1..NT |-> RMk(D(1100 + 10 * b + j, -400, 400), 8)]]]]

Init == c \in Cases /\ cfg = <<>> /\ sites = <<>> /\ total = R0 /\ pred = <<>> /\ res = <<>> /\ pc = 0
Setup == /\ pc = 0 /\ cfg' = Force(Config) /\ pc' = 1 /\ UNCHANGED <<c, sites, total, pred, res>>

NV(j) == Len(cfg.loc[j])
Nm(j) == cfg.names[j]
\* a draw: its value, element by element, and its log-density
Site(name, val, lp) == [name |-> name, val |-> val, lp |-> lp]
At(name) == sites[CHOOSE i \in 1..Len(sites) : sites[i].name = name]
Weight(b) == cfg.weights[cfg.exps[b].code + 1]
Population(j) ==
    LET n == NV(j)
        loc == Force([k \in 1..n |-> IF Kind = "guide" THEN cfg.loc[j][k] ELSE Val(2000 + 10 * j + k)])
        scl == Force([k \in 1..n |-> IF Kind = "guide" THEN cfg.scalescale[j][k] ELSE Pos(2100 + 10 * j + k, 30, 8)])
    IN <<Site(Nm(j) \o cfg.suffixes[1], loc, Sum([k \in 1..n |-> Normal(loc[k], cfg.loc[j][k], cfg.locscale[j][k])])),
         Site(Nm(j) \o cfg.suffixes[2], scl, Sum([k \in 1..n |-> HalfNormal(scl[k], cfg.scalescale[j][k])]))>>
Single(j) ==
    LET v == Force([k \in 1..NV(j) |-> Val(2000 + 10 * j + k)])
    IN Site(Nm(j), v, Sum([k \in 1..NV(j) |-> Normal(v[k], cfg.loc[j][k], cfg.locscale[j][k])]))
Noise == LET n == Len(cfg.noise)
             v == Force([i \in 1..n |-> IF Kind = "guide" THEN cfg.noise[i] ELSE Pos(2200 + i, 40, 4)])
         IN Site("eps", v, Sum([i \in 1..n |-> HalfNormal(v[i], cfg.noise[i])]))
PerExp(j) ==
    LET loc == At(Nm(j) \o cfg.suffixes[1]).val
        scl == At(Nm(j) \o cfg.suffixes[2]).val
        v == Force([b \in 1..NE |-> [k \in 1..NV(j) |->
                IF Kind = "guide" THEN cfg.loc[j][k] ELSE Val(3000 + 100 * b + 10 * j + k)]])
    IN Site(Nm(j), v, Sum([b \in 1..NE |-> FMul(Weight(b), Sum([k \in 1..NV(j) |-> Normal(v[b][k], loc[k], scl[k])]))]))
\* phases: population draws 1..NP, noise NP+1, parameters, response, results
Draws == /\ pc >= 1 /\ pc <= NP
         /\ sites' = Force(CASE Kind = "deterministic" -> sites
                             [] Kind = "single" -> Append(sites, Single(pc))
                             [] OTHER -> sites \o Population(pc))
         /\ pc' = pc + 1 /\ UNCHANGED <<c, cfg, total, pred, res>>
DrawNoise == /\ pc = NP + 1
             /\ sites' = IF cfg.infer THEN Append(sites, Force(Noise)) ELSE sites
             /\ pc' = pc + 1 /\ UNCHANGED <<c, cfg, total, pred, res>>
DrawOwn == /\ pc > NP + 1 /\ pc <= 2 * NP + 1
           /\ sites' = IF Hier THEN Append(sites, Force(PerExp(pc - NP - 1))) ELSE sites
           /\ pc' = pc + 1 /\ UNCHANGED <<c, cfg, total, pred, res>>
\* the value of parameter j that experiment b sees
Par(j, b) == CASE Kind = "deterministic" -> cfg.loc[j]
               [] Kind = "single" -> At(Nm(j)).val
               [] OTHER -> At(Nm(j)).val[b]
Response(b) ==
    LET e == cfg.exps[b]
        mix == Sum([j \in 1..NP |-> RMul(RI(j), Sum([k \in 1..NV(j) |-> RMul(RI(k), Par(j, b)[k])]))])
    IN [j \in 1..NT |-> FAdd(FAdd(RMul(mix, RAdd(R1, e.time[j])), RMul(RI(3), e.T[j])),
                             FAdd(RMul(RI(2), e.drive[j]), RI(5 * e.control)))]
Respond == /\ pc = 2 * NP + 2
           /\ pred' = Force([b \in 1..NE |-> Response(b)])
           /\ pc' = pc + 1 /\ UNCHANGED <<c, cfg, sites, total, res>>
Reduce == /\ pc = 2 * NP + 3
          /\ res' = Force([b \in 1..NE |-> Reduced([type |-> cfg.exps[b].type, cyc |-> cfg.exps[b].cyc, val |-> pred[b]])])
          /\ pc' = pc + 1 /\ UNCHANGED <<c, cfg, sites, total, pred>>
Spread(b) == LET q == IF cfg.infer THEN At("eps").val ELSE cfg.noise
             IN IF cfg.bytype THEN q[cfg.exps[b].code + 1] ELSE q[1]
Observe == /\ pc = 2 * NP + 4
           /\ sites' = IF Kind = "deterministic" THEN sites
                       ELSE Append(sites, Force(Site("obs", res, Sum([b \in 1..NE |->
                              FMul(IF Hier THEN Weight(b) ELSE R1,
                                   Sum([j \in 1..NT |-> Normal(cfg.exps[b].data[j], res[b][j], Spread(b))]))]))))
           /\ pc' = pc + 1 /\ UNCHANGED <<c, cfg, total, pred, res>>
Score == /\ pc = 2 * NP + 5
         /\ total' = Force(Sum([i \in 1..Len(sites) |-> sites[i].lp]))
         /\ pc' = pc + 1 /\ UNCHANGED <<c, cfg, sites, pred, res>>
Done == /\ pc = 2 * NP + 6
        /\ Emit([c |-> c, kind |-> Kind, cfg |-> cfg, sites |-> sites, total |-> total, res |-> res,
                 spread |-> [b \in 1..NE |-> Spread(b)]])
        /\ pc' = 99 /\ UNCHANGED <<c, cfg, sites, total, pred, res>>
Next == Setup \/ Draws \/ DrawNoise \/ DrawOwn \/ Respond \/ Reduce \/ Observe \/ Score \/ Done
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
\* every site is drawn once
SitesOnce == \A i, j \in 1..Len(sites) : sites[i].name = sites[j].name => i = j
AllDrawn == pc = 2 * NP + 6 =>
    {sites[i].name : i \in 1..Len(sites)} =
      (IF Kind = "deterministic" THEN {} ELSE {Nm(j) : j \in 1..NP} \cup {"obs"})
      \cup (IF Hier THEN {Nm(j) \o cfg.suffixes[1] : j \in 1..NP} \cup {Nm(j) \o cfg.suffixes[2] : j \in 1..NP} ELSE {})
      \cup (IF cfg.infer THEN {"eps"} ELSE {})
\* spreads and noise stay positive
Positive == \A i \in 1..Len(sites) :
    (sites[i].name = "eps" \/ (Hier /\ \E j \in 1..NP : sites[i].name = Nm(j) \o cfg.suffixes[2]))
        => \A k \in 1..Len(sites[i].val) : RLt(R0, sites[i].val[k])
==============================================================================
