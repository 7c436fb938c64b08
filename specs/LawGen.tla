-------------------------------- MODULE LawGen --------------------------------
(* Generation of material laws.  st draws the structure, i the parameters, so *)
(* that two laws with the same st have the same internal variables.           *)
EXTENDS ConstLaw

CONSTANTS Seed
VARIABLES c

GD(i, lo, hi) == Draw(Seed, c, i, lo, hi)
GNB == GD(1, 1, 4)

\* a positive parameter between lo/den and hi/den (lo > 0)
GP(i, lo, hi, den) ==
    LET k == GD(11 * i + 3, 0, 7)
        r(b) == RMk(GD(11 * i + 100000 * b, lo, hi), den)
    IN CASE k <= 3 -> TPConst(r(0))
         [] k <= 5 -> TPConstV(Force([b \in 1..GNB |-> r(b)]))
         [] k = 6 -> [kind |-> "poly", outer |-> "id",
                      coefs |-> <<C1(FDiv(r(0), RI(-64))), C1(r(0))>>]
         [] OTHER -> [kind |-> "piecewise", outer |-> "id", control |-> <<R0, RI(9), RI(40)>>,
                      values |-> <<C1(r(0)), C1(r(1)), C1(r(2))>>]
\* constants only, all scalar or all per member (vector-valued parameters)
GVec(i, n, lo, hi, den) ==
    LET batched == GD(i + 7, 0, 2) = 0
    IN Force([j \in 1..n |-> IF batched THEN TPConstV([b \in 1..GNB |-> RMk(GD(13 * i + j + 1000 * b, lo, hi), den)])
                       ELSE TPConst(RMk(GD(13 * i + j, lo, hi), den))])
\* exponents that need no temperature dependence
GExp(i, q) == LET v(b) == Pick(Seed, c, 17 * i + b, q)
              IN IF GD(17 * i + 9, 0, 3) = 0 THEN TPConstV(Force([b \in 1..GNB |-> v(b)])) ELSE TPConst(v(0))

GenIso(st, i) ==
    CASE GD(st + 5, 0, 2) = 0 -> [kind |-> "voce", R |-> GP(7 * i + 1, 1, 40, 2), d |-> GP(7 * i + 2, 1, 40, 4)]
      [] GD(st + 5, 0, 2) = 1 -> [kind |-> "theta", tau |-> GP(7 * i + 1, 4, 60, 2), theta |-> GP(7 * i + 2, 10, 200, 1)]
      [] OTHER -> [kind |-> "thetarec", tau |-> GP(7 * i + 1, 4, 60, 2), theta |-> GP(7 * i + 2, 10, 200, 1),
                   R0 |-> GP(7 * i + 3, 1, 20, 2), r1 |-> GP(7 * i + 4, 1, 30, 16),
                   r2 |-> GExp(7 * i + 5, <<<<1, 1>>, <<2, 1>>, <<3, 2>>, <<5, 2>>>>)]

RECURSIVE GenKin(_, _, _)
GenKin(depth, st, i) ==
    LET k == GD(st + 6, 0, IF depth > 0 THEN 7 ELSE 5)
        n == GD(st + 8, 1, 3)
    IN CASE k = 0 -> [kind |-> "none"]
         [] k = 1 -> [kind |-> "fa", C |-> GP(7 * i + 1, 20, 400, 1), g |-> GP(7 * i + 2, 1, 60, 2)]
         [] k = 2 -> [kind |-> "fanr", C |-> GP(7 * i + 1, 20, 400, 1), g |-> GP(7 * i + 2, 1, 60, 2)]
         [] k = 3 -> [kind |-> "farec", C |-> GP(7 * i + 1, 20, 400, 1), g |-> GP(7 * i + 2, 1, 60, 2),
                      b |-> GP(7 * i + 3, 1, 30, 32), r |-> GExp(7 * i + 4, <<<<1, 1>>, <<2, 1>>, <<3, 2>>, <<5, 2>>>>)]
         [] k = 4 -> [kind |-> "chab", C |-> GVec(7 * i + 1, n, 20, 400, 1), g |-> GVec(7 * i + 2, n, 1, 60, 2)]
         [] k = 5 -> [kind |-> "chabrec", C |-> GVec(7 * i + 1, n, 20, 400, 1), g |-> GVec(7 * i + 2, n, 1, 60, 2),
                      b |-> GVec(7 * i + 3, n, 1, 30, 32),
                      r |-> Force([j \in 1..n |-> TPConst(Pick(Seed, c, 7 * i + j, <<<<1, 1>>, <<2, 1>>, <<3, 2>>, <<5, 2>>>>))])]
         [] OTHER -> [kind |-> "super", models |-> Force([j \in 1..(1 + (st % 3)) |->
                         GenKin(depth - 1, 3 * st + 5 * j, 5 * i + j)])]

GN(i) == GExp(i, <<<<1, 1>>, <<2, 1>>, <<3, 1>>, <<3, 2>>, <<5, 2>>, <<9, 2>>, <<8, 1>>>>)
GKM(i) == [mu |-> (CASE GD(i, 0, 3) = 0 -> [kind |-> "const", outer |-> "affine", p |-> C1(RI(GD(i + 1, 10, 30)))]
                     [] GD(i, 0, 3) = 1 -> [kind |-> "poly", outer |-> "id", coefs |-> <<C1(<<-1, 2>>), C1(RI(GD(i + 1, 40, 60)))>>]
                     [] OTHER -> TPConst(RI(GD(i + 1, 20, 60)))),
           b |-> RMk(GD(i + 2, 4, 6), 4), k |-> RMk(GD(i + 3, 1, 8), 8),
           \* one in five switches sits at the activation energy zero, which some
           \* of the strain rates of the points meet exactly
           eps0 |-> IF GD(i + 6, 0, 4) = 0
                    THEN RAdd(Pick(Seed, c, i + 7, <<<<1, 8>>, <<1, 4>>, <<1, 64>>, <<3, 2>>>>), RMk(1, 2^20))
                    ELSE RI(GD(i + 4, 2, 40)),
           eps |-> RMk(1, 2^20), g0 |-> IF GD(i + 6, 0, 4) = 0 THEN R0 ELSE RMk(GD(i + 5, 1, 12), 8)]

RECURSIVE GenFlow(_, _, _)
GenFlow(depth, st, i) ==
    LET k == GD(st + 2, 0, IF depth > 0 THEN 9 ELSE 3)
        km == GKM(31 * i + 5)
    IN CASE k = 0 -> [kind |-> "perfect", n |-> GN(7 * i + 1), eta |-> GP(7 * i + 2, 30, 90, 1)]
         [] k \in {1, 2, 3} -> [kind |-> "isokin", n |-> GN(7 * i + 1), eta |-> GP(7 * i + 2, 30, 90, 1),
                                s0 |-> GP(7 * i + 3, 1, 30, 1), iso |-> GenIso(st + 3, 7 * i + 4),
                                kin |-> GenKin(1, st + 4, 7 * i + 5)]
         [] k \in {4, 5} -> [kind |-> "sum", models |-> Force([j \in 1..(1 + (st % 3)) |->
                              GenFlow(depth - 1, 3 * st + 7 * j, 5 * i + j)])]
         [] k = 6 -> [kind |-> "km", m1 |-> GenFlow(depth - 1, 5 * st + 1, 5 * i + 1),
                      m2 |-> GenFlow(depth - 1, 5 * st + 1, 5 * i + 2),
                      mu |-> km.mu, b |-> km.b, k |-> km.k, eps0 |-> km.eps0, eps |-> km.eps, g0 |-> km.g0]
         [] k = 7 -> [kind |-> "softkm", m1 |-> GenFlow(depth - 1, 5 * st + 1, 5 * i + 1),
                      m2 |-> GenFlow(depth - 1, 5 * st + 1, 5 * i + 2), sf |-> RMk(GD(31 * i + 1, 1, 12), 2),
                      mu |-> km.mu, b |-> km.b, k |-> km.k, eps0 |-> km.eps0, eps |-> km.eps, g0 |-> km.g0]
         [] OTHER -> [kind |-> "ri", base |-> GenFlow(depth - 1, 5 * st + 1, 5 * i + 1),
                      lambda |-> RMk(GD(31 * i + 2, 0, 32), 32), epsref |-> RMk(1, GD(31 * i + 3, 4, 64))]

GenDamage(i) ==
    CASE GD(i, 0, 3) = 0 -> [kind |-> "none"]
      [] GD(i, 0, 3) = 1 -> [kind |-> "constant", R |-> GP(7 * i + 1, 1, 30, 64)]
      [] GD(i, 0, 3) = 2 -> [kind |-> "hayhurst", A |-> GP(7 * i + 1, 40, 120, 1),
                             xi |-> GExp(7 * i + 2, <<<<2, 1>>, <<3, 1>>, <<7, 2>>, <<6, 1>>>>),
                             phi |-> GExp(7 * i + 3, <<<<1, 1>>, <<1, 2>>, <<5, 2>>, <<4, 1>>, <<7, 1>>>>)]
      [] OTHER -> [kind |-> "larson", C |-> GP(7 * i + 1, 1, 8, 4), A |-> TPConst(RI(-(GD(7 * i + 2, 30, 90)))),
                   B |-> GP(7 * i + 3, 1, 24, 1)]

GenModel(depth, st, i) ==
    LET f == GenFlow(depth, st, i)
    IN IF GD(st + 9, 0, 1) = 0 THEN [kind |-> "inelastic", E |-> GP(7 * i + 6, 60, 200, 1), flow |-> f]
       ELSE [kind |-> "damaged", E |-> GP(7 * i + 6, 60, 200, 1), flow |-> f, damage |-> GenDamage(101 * i + 7)]
==============================================================================
