--------------------------------- MODULE Laws ---------------------------------
(* One material law evaluated at a block of points, point by point.           *)
(* Focus: "iso", "kin" (hardening), "flow", "damage", "model".                *)
EXTENDS LawGen, Emit

CONSTANTS Cases, Focus, NQ, Depth, Sens

VARIABLES law, pts, q, outs, pc
vars == <<c, law, pts, q, outs, pc>>

NHist == CASE Focus = "iso" -> 1
           [] Focus = "kin" -> KinN(law)
           [] Focus = "flow" -> FlowN(law)
           [] Focus = "damage" -> 0
           [] OTHER -> FlowN(law.flow)

\* ---- points: stress, internal variables, inelastic rate, strain rate, damage
Stress(k) == IF GD(k + 1, 0, 9) = 0 THEN R0 ELSE RMk(GD(k + 2, -160, 160), 2)
Hist(k, j) == IF GD(k + 20, 0, 7) = 0 THEN R0 ELSE RMk(GD(k + 20 + 7 * j, -30, 30), 2)
Small == << <<0, 1>>, <<1, 1000>>, <<-1, 500>>, <<1, 8>>, <<-1, 4>>, <<1, 64>>, <<-1, 64>>, <<3, 2>>, <<-1, 100000>> >>
Rate(k) == Pick(Seed, c, k + 90, Small)
Dam(k) == Pick(Seed, c, k + 91, << <<0, 1>>, <<1, 8>>, <<1, 4>>, <<1, 2>>, <<1, 16>>, <<3, 4>>,
                               <<255, 256>>, <<4095, 4096>> >>)
Temp(k) == RMk(GD(k + 92, 2, 32), 2)

Point(qq, b) ==
    LET k == 1000000 + 1000 * qq + 100000 * b
    IN [s |-> Stress(k), h |-> Force([j \in 1..NHist |-> Hist(k, j)]), ep |-> Rate(k + 1),
        e |-> Rate(k), d |-> Dam(k), T |-> Temp(k)]

Init == c \in Cases /\ law = <<>> /\ pts = <<>> /\ q = 0 /\ outs = <<>> /\ pc = "new"

MkLaw == CASE Focus = "iso" -> GenIso(40 + c, 7)
           [] Focus = "kin" -> GenKin(2, 40 + c, 7)
           [] Focus = "flow" -> GenFlow(Depth, 40 + c, 7)
           [] Focus = "damage" -> GenDamage(40 + c)
           [] OTHER -> GenModel(Depth, 40 + c, 7)

Setup1 == /\ pc = "new" /\ law' = Force(MkLaw) /\ pc' = "points" /\ UNCHANGED <<c, pts, q, outs>>
Setup2 == /\ pc = "points"
          /\ pts' = Force([qq \in 1..NQ |-> [b \in 1..GNB |-> Point(qq, b)]])
          /\ q' = 1 /\ pc' = "eval" /\ UNCHANGED <<c, law, outs>>

\* ---- evaluation of one point.  Results: rate, and derivatives by seed
N(p) == Len(p.h)
Seeds(p, n) == [i \in 1..N(p) |-> DSeed(p.h[i], i, n)]
Out(r, n) == [rate |-> Force([i \in 1..Len(r) |-> DVal(r[i])]),
              der |-> Force([i \in 1..Len(r) |-> [j \in 1..n |-> DD(r[i], j)]])]

At(p, b) ==
    LET n == N(p) + 2
    IN CASE Focus = "iso" ->    \* seeds h, ep
              Out(<<IsoRate(law, b, p.T, DSeed(p.h[1], 1, 2), DAbs(DSeed(p.ep, 2, 2)))>>, 2)
         [] Focus = "kin" ->    \* seeds h, ep
              Out(KinRate(law, b, p.T, Seeds(p, N(p) + 1), DSeed(p.ep, N(p) + 1, N(p) + 1)), N(p) + 1)
         [] Focus = "flow" ->   \* seeds h, s, e
              LET f == Flow(law, b, p.T, DSeed(p.s, n - 1, n), Seeds(p, n), DSeed(p.e, n, n))
              IN Out(<<f.rate>> \o f.hist, n)
         [] Focus = "damage" -> \* seeds s, d
              Out(<<DamRate(law, b, p.T, DSeed(p.s, 1, 2), DSeed(p.d, 2, 2))>>, 2)
         [] OTHER ->            \* seeds y, e
              LET y == <<p.s>> \o p.h \o (IF law.kind = "damaged" THEN <<p.d>> ELSE <<>>)
                  a == ModelAt(law, b, p.T, y, p.e)
              IN [rate |-> a.rate, der |-> Force([i \in 1..Len(y) |-> Append(a.jac[i], a.de[i])])]

\* the derivative with respect to the (total or inelastic) strain rate is undefined
Kink(p) == CASE Focus \in {"iso", "kin"} -> RIsZero(p.ep)
             [] Focus = "flow" -> RIsZero(p.e) /\ UsesRate(law)
             [] Focus = "damage" -> FALSE
             [] OTHER -> RIsZero(p.e) /\ UsesRate(law.flow)

\* a part sits exactly on its yield surface, or at the point where the flow
\* direction flips
RECURSIVE AtYield(_, _, _, _, _)
RECURSIVE AnyAtYield(_, _, _, _, _, _)
AtYield(f, b, T, s, h) ==
    CASE f.kind = "perfect" -> FALSE
      [] f.kind = "isokin" -> LET dh == [i \in 1..Len(h) |-> DC(h[i])]
                              IN RIsZero(DVal(Over(f, b, T, DC(s), dh))) \/ RIsZero(RSub(s, DVal(KinVal(f, dh))))
      [] f.kind = "sum" -> AnyAtYield(f.models, b, T, s, h, 1)
      [] f.kind \in {"km", "softkm"} -> AtYield(f.m1, b, T, s, h) \/ AtYield(f.m2, b, T, s, h)
      [] f.kind = "ri" -> AtYield(f.base, b, T, s, h)
AnyAtYield(ms, b, T, s, h, at) ==
    IF ms = <<>> THEN FALSE
    ELSE LET n == FlowN(ms[1])
         IN AtYield(ms[1], b, T, s, SubSeq(h, at, at + n - 1)) \/ AnyAtYield(Tail(ms), b, T, s, h, at + n)
Eff(p) == IF Focus = "model" /\ law.kind = "damaged" THEN FDiv(p.s, RSub(R1, p.d)) ELSE p.s
Skip(p, b) == CASE Focus = "flow" -> AtYield(law, b, p.T, p.s, p.h)
                [] Focus = "model" -> AtYield(law.flow, b, p.T, Eff(p), p.h)
                [] OTHER -> FALSE

\* a regime switch sits exactly at its threshold: a strain rate next to e, as a
\* solver finds it, may fall on the other side
RECURSIVE AtSwitch(_, _, _, _)
AtSwitch(f, b, T, e) ==
    CASE f.kind = "km" -> \/ REq(f.g0, DVal(Energy(f, b, T, DC(e))))
                          \/ AtSwitch(f.m1, b, T, e) \/ AtSwitch(f.m2, b, T, e)
      [] f.kind = "softkm" -> AtSwitch(f.m1, b, T, e) \/ AtSwitch(f.m2, b, T, e)
      [] f.kind = "sum" -> \E j \in 1..Len(f.models) : AtSwitch(f.models[j], b, T, e)
      [] f.kind = "ri" -> AtSwitch(f.base, b, T, e)
      [] OTHER -> FALSE

\* ---- stress control: with the stress and its rate r[1] given, the state is
\* <<strain, internal variables...>> and the strain rate e follows from the
\* first equation; its derivatives come from the implicit function theorem
Control(v, b, T) ==
    LET n == Len(v.rate) je == v.der[1][n + 1]
        de(j) == RNeg(FDiv(v.der[1][j], je))
    IN IF RLt(RAbs(je), FMul(<<1, 1000>>, TPVal(law.E, b, T))) THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, lin |-> RateFree(law.flow),
             jac |-> Force([i \in 1..n |-> [j \in 1..n |->
                        IF j = 1 THEN R0
                        ELSE IF i = 1 THEN de(j)
                        ELSE FAdd(v.der[i][j], FMul(v.der[i][n + 1], de(j)))]])]

\* ---- sensitivity of the rates to the coefficients of the law: the derivative
\* along the direction in which all of them move (TempParam), as the difference
\* of the rates of two materials very close to each other
Plain(p, m) ==
    LET h == [i \in 1..N(p) |-> DC(p.h[i])]
        r == CASE Focus = "iso" -> <<IsoRate(law, m, p.T, DC(p.h[1]), DAbs(DC(p.ep)))>>
               [] Focus = "kin" -> KinRate(law, m, p.T, h, DC(p.ep))
               [] Focus = "flow" -> LET f == Flow(law, m, p.T, DC(p.s), h, DC(p.e)) IN <<f.rate>> \o f.hist
               [] Focus = "damage" -> <<DamRate(law, m, p.T, DC(p.s), DC(p.d))>>
               [] OTHER -> Model(law, m, p.T, <<DC(p.s)>> \o h \o (IF law.kind = "damaged" THEN <<DC(p.d)>> ELSE <<>>), DC(p.e))
    IN Force([i \in 1..Len(r) |-> DVal(r[i])])
Sensitivity(p, b) ==
    IF Sens = 0 THEN <<>>
    ELSE LET up == Plain(p, 1000 + b) dn == Plain(p, 2000 + b)
         IN Force([i \in 1..Len(up) |-> FDiv(FSub(up[i], dn[i]), RMul(RI(2), SensStep))])
\* a power of the law sits exactly on its zero: the difference of the two
\* materials is only accurate to a power of the step there
RECURSIVE FlatFlow(_, _, _, _)
FlatIso(i, b, T, x) == i.kind = "thetarec" /\ REq(TPVal(i.R0, b, T), x)
FlatFlow(f, b, T, h) ==
    CASE f.kind = "isokin" -> FlatIso(f.iso, b, T, h[1])
      [] f.kind = "sum" -> \E j \in 1..Len(f.models) :
            LET n == FlowN(f.models[j])
                at == LET RECURSIVE Before(_)
                          Before(k) == IF k = 0 THEN 0 ELSE FlowN(f.models[k]) + Before(k - 1)
                      IN Before(j - 1)
            IN FlatFlow(f.models[j], b, T, SubSeq(h, at + 1, at + n))
      [] f.kind \in {"km", "softkm"} -> FlatFlow(f.m1, b, T, h) \/ FlatFlow(f.m2, b, T, h)
      [] f.kind = "ri" -> FlatFlow(f.base, b, T, h)
      [] OTHER -> FALSE
Flat(p, b) == CASE Focus = "iso" -> FlatIso(law, b, p.T, p.h[1])
                [] Focus = "flow" -> FlatFlow(law, b, p.T, p.h)
                [] Focus = "model" -> FlatFlow(law.flow, b, p.T, p.h)
                [] OTHER -> FALSE
Switching(p, b) == CASE Focus = "flow" -> AtSwitch(law, b, p.T, p.e)
                     [] Focus = "model" -> AtSwitch(law.flow, b, p.T, p.e)
                     [] OTHER -> FALSE

\* magnitude of the terms a soft switch weights: a weight next to 0 or 1 cancels
\* them only to the precision of the arithmetic
MaxMag(S) == LET RECURSIVE Up(_, _)
                 Up(x, at) == IF at = 0 THEN x ELSE Up(RMax(x, RAbs(S[at])), at - 1)
             IN Up(R0, Len(S))
RECURSIVE Weighted(_, _, _, _, _, _)
Weighted(f, b, T, s, h, e) ==
    CASE f.kind = "softkm" ->
            LET n == Len(h) + 2
                mag(g) == LET o == Flow(g, b, T, DSeed(s, n - 1, n), [i \in 1..(n - 2) |-> DSeed(h[i], i, n)], DSeed(e, n, n))
                              r == <<o.rate>> \o o.hist
                          IN MaxMag([i \in 1..(Len(r) * (n + 1)) |->
                                LET j == (i - 1) % (n + 1) x == r[((i - 1) \div (n + 1)) + 1]
                                IN IF j = 0 THEN DVal(x) ELSE DD(x, j)])
                slope == FMul(f.sf, RAbs(DD(Energy(f, b, T, DSeed(e, 1, 1)), 1)))
            IN RMax(FMul(FAdd(R1, slope), FAdd(mag(f.m1), mag(f.m2))),
                    RMax(Weighted(f.m1, b, T, s, h, e), Weighted(f.m2, b, T, s, h, e)))
      [] f.kind = "km" -> RMax(Weighted(f.m1, b, T, s, h, e), Weighted(f.m2, b, T, s, h, e))
      [] f.kind = "sum" ->
            MaxMag([j \in 1..Len(f.models) |->
                LET n == FlowN(f.models[j])
                    at == LET RECURSIVE Before(_)
                              Before(k) == IF k = 0 THEN 0 ELSE FlowN(f.models[k]) + Before(k - 1)
                          IN Before(j - 1)
                IN Weighted(f.models[j], b, T, s, SubSeq(h, at + 1, at + n), e)])
      [] f.kind = "ri" -> FMul(FAdd(R1, RAbs(DVal(Dilation(f, b, DC(e))))), Weighted(f.base, b, T, s, h, e))
      [] OTHER -> R0
Mag(p, b) == CASE Focus = "flow" -> Weighted(law, b, p.T, p.s, p.h, p.e)
               [] Focus = "model" -> FMul(RMax(R1, TPVal(law.E, b, p.T)), Weighted(law.flow, b, p.T, Eff(p), p.h, p.e))
               [] OTHER -> R0

EvalAt(b) == LET v == At(pts[q][b], b)
             IN [v |-> v, mag |-> Mag(pts[q][b], b), kink |-> Kink(pts[q][b]), sens |-> Sensitivity(pts[q][b], b),
                 flat |-> IF Sens = 0 THEN FALSE ELSE Flat(pts[q][b], b), sw |-> Switching(pts[q][b], b), skip |-> Skip(pts[q][b], b),
                 ctl |-> IF Focus = "model" /\ ~AtSwitch(law.flow, b, pts[q][b].T, pts[q][b].e) THEN Control(v, b, pts[q][b].T) ELSE [ok |-> FALSE]]
Eval == /\ pc = "eval" /\ q <= NQ
        /\ outs' = Append(outs, Force([b \in 1..GNB |-> EvalAt(b)]))
        /\ q' = q + 1 /\ UNCHANGED <<c, law, pts, pc>>
Done == /\ pc = "eval" /\ q > NQ /\ pc' = "done"
        /\ Emit([c |-> c, nb |-> GNB, nh |-> NHist, law |-> law, pts |-> pts, outs |-> outs])
        /\ UNCHANGED <<c, law, pts, q, outs>>
Next == Setup1 \/ Setup2 \/ Eval \/ Done
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
(* Consequences of the laws, checked by TLC on every point evaluated          *)
Last1 == outs[Len(outs)]
LastP == pts[Len(outs)]
Now == pc = "eval" /\ outs # <<>>
Near(a, b) == RLe(RAbs(RSub(a, b)), FMul(<<1, 1000000>>, RMax(R1, RMax(RAbs(a), RAbs(b)))))

\* no flow below yield, flow along the effective stress above
YieldLaw == (Now /\ Focus = "flow" /\ law.kind = "isokin") =>
    \A b \in 1..GNB :
        LET p == LastP[b] h == [i \in 1..N(p) |-> DC(p.h[i])]
            o == DVal(Over(law, b, p.T, DC(p.s), h)) r == Last1[b].v.rate[1]
            x == RSub(p.s, DVal(KinVal(law, h)))
        IN IF RSign(o) <= 0 THEN RIsZero(r) /\ \A j \in 1..(N(p) + 2) : RIsZero(Last1[b].v.der[1][j])
           ELSE RSign(r) = RSign(x)
\* flow does no negative work on the effective stress: it is odd in the stress
\* without hardening
OddFlow == (Now /\ Focus = "flow" /\ law.kind = "perfect") =>
    \A b \in 1..GNB : LET p == LastP[b]
        IN REq(Last1[b].v.rate[1], RNeg(DVal(Flow(law, b, p.T, DC(RNeg(p.s)), <<>>, DC(p.e)).rate)))
\* soft blending stays between its members; the hard switch is one of them
Blend == (Now /\ Focus = "flow" /\ law.kind \in {"softkm", "km"}) =>
    \A b \in 1..GNB :
        LET p == LastP[b] h == [i \in 1..N(p) |-> DC(p.h[i])]
            a1 == DVal(Flow(law.m1, b, p.T, DC(p.s), h, DC(p.e)).rate)
            a2 == DVal(Flow(law.m2, b, p.T, DC(p.s), h, DC(p.e)).rate) r == Last1[b].v.rate[1]
        IN IF law.kind = "km" THEN REq(r, a1) \/ REq(r, a2)
           ELSE RLe(FSub(RMin(a1, a2), <<1, 1000000>>), r) /\ RLe(r, FAdd(RMax(a1, a2), <<1, 1000000>>))
\* time dilation with lambda = 0 changes nothing
Undilated == (Now /\ Focus = "flow" /\ law.kind = "ri" /\ RIsZero(law.lambda)) =>
    \A b \in 1..GNB : LET p == LastP[b] h == [i \in 1..N(p) |-> DC(p.h[i])]
        IN REq(Last1[b].v.rate[1], DVal(Flow(law.base, b, p.T, DC(p.s), h, DC(p.e)).rate))
\* a damaged model at d = 0 is the undamaged one; damage does not heal
Undamaged == (Now /\ Focus = "model" /\ law.kind = "damaged") =>
    \A b \in 1..GNB :
        LET p == LastP[b]
            u == ModelAt([kind |-> "inelastic", E |-> law.E, flow |-> law.flow], b, p.T, <<p.s>> \o p.h, p.e)
        IN /\ RIsZero(p.d) => \A i \in 1..Len(u.rate) : Near(u.rate[i], Last1[b].v.rate[i])
           /\ RSign(Last1[b].v.rate[Len(Last1[b].v.rate)]) >= 0
DamageGrows == (Now /\ Focus = "damage") => \A b \in 1..GNB : RSign(Last1[b].v.rate[1]) >= 0
\* isotropic hardening moves towards its saturation value
Saturates == (Now /\ Focus = "iso" /\ law.kind = "voce") =>
    \A b \in 1..GNB : LET p == LastP[b] IN
        RSign(Last1[b].v.rate[1]) * RSign(FSub(TPVal(law.R, b, p.T), p.h[1])) >= 0
==============================================================================
