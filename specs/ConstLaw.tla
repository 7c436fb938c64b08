------------------------------- MODULE ConstLaw -------------------------------
(* The constitutive laws: hardening, flow rules, damage, material models, as  *)
(* functions on dual numbers, so that every rate comes with its derivatives.  *)
(* A law is a record with a kind.  m is the batch member (parameters may be   *)
(* per member), T the temperature of that member.                             *)
(*                                                                            *)
(* Vector-valued parameters (Chaboche) are sequences of parameters.           *)
EXTENDS TempParam, Dual

P(p, m, T) == TPVal(p, m, T)
PC(p, m, T) == DC(TPVal(p, m, T))

RECURSIVE KinN(_)
KinN(k) == CASE k.kind = "none" -> 0
             [] k.kind \in {"fa", "fanr", "farec"} -> 1
             [] k.kind \in {"chab", "chabrec"} -> Len(k.C)
             [] k.kind = "super" -> FoldLeft(LAMBDA a, x: a + KinN(x), 0, k.models)

\* the flow depends on the total strain rate, smoothly except at zero rate
RECURSIVE UsesRate(_)
UsesRate(f) == CASE f.kind \in {"softkm", "ri"} -> TRUE
                 [] f.kind = "km" -> UsesRate(f.m1) \/ UsesRate(f.m2)
                 [] f.kind = "sum" -> \E j \in 1..Len(f.models) : UsesRate(f.models[j])
                 [] OTHER -> FALSE

\* the flow does not depend on the total strain rate at all
RECURSIVE RateFree(_)
RateFree(f) == CASE f.kind \in {"softkm", "ri", "km"} -> FALSE
                 [] f.kind = "sum" -> \A j \in 1..Len(f.models) : RateFree(f.models[j])
                 [] OTHER -> TRUE

RECURSIVE FlowN(_)
FlowN(f) == CASE f.kind = "perfect" -> 0
              [] f.kind = "isokin" -> 1 + KinN(f.kin)
              [] f.kind = "sum" -> FoldLeft(LAMBDA a, x: a + FlowN(x), 0, f.models)
              [] f.kind \in {"km", "softkm"} -> FlowN(f.m1)
              [] f.kind = "ri" -> FlowN(f.base)

--------------------------------------------------------------------------------
(* Isotropic hardening: one internal variable h, value h.  a is |ep|.         *)
IsoRate(i, m, T, h, a) ==
    CASE i.kind = "voce" -> DMul(DMul(PC(i.d, m, T), DSub(PC(i.R, m, T), h)), a)
      [] i.kind = "theta" -> DMul(DMul(PC(i.theta, m, T), DSub(DC(R1), DDiv(h, PC(i.tau, m, T)))), a)
      [] i.kind = "thetarec" ->
            DAdd(DMul(DMul(PC(i.theta, m, T), DSub(DC(R1), DDiv(h, PC(i.tau, m, T)))), a),
                 DMul(PC(i.r1, m, T), DSPow(DSub(PC(i.R0, m, T), h), P(i.r2, m, T))))

(* Kinematic hardening: internal variables x, value their sum.  ep is the     *)
(* inelastic rate.  Static recovery  b |x|^(r-1) x.                           *)
Back(C, g, x, ep) == DSub(DMul(C, ep), DMul(DMul(g, x), DAbs(ep)))
Recov(b, r, x) == DMul(b, DSPow(x, r))

RECURSIVE KinRate(_, _, _, _, _)
RECURSIVE KinConcat(_, _, _, _, _, _, _)
KinRate(k, m, T, x, ep) ==
    CASE k.kind = "none" -> <<>>
      [] k.kind \in {"fa", "fanr"} -> <<Back(PC(k.C, m, T), PC(k.g, m, T), x[1], ep)>>
      [] k.kind = "farec" -> <<DSub(Back(PC(k.C, m, T), PC(k.g, m, T), x[1], ep),
                                   Recov(PC(k.b, m, T), P(k.r, m, T), x[1]))>>
      [] k.kind = "chab" -> [i \in 1..Len(x) |-> Back(PC(k.C[i], m, T), PC(k.g[i], m, T), x[i], ep)]
      [] k.kind = "chabrec" -> [i \in 1..Len(x) |->
                 DSub(Back(PC(k.C[i], m, T), PC(k.g[i], m, T), x[i], ep),
                      Recov(PC(k.b[i], m, T), P(k.r[i], m, T), x[i]))]
      [] k.kind = "super" -> KinConcat(k.models, m, T, x, ep, 1, <<>>)
KinConcat(ms, m, T, x, ep, at, acc) ==
    IF ms = <<>> THEN acc
    ELSE LET n == KinN(ms[1])
         IN KinConcat(Tail(ms), m, T, x, ep, at + n,
                      acc \o KinRate(ms[1], m, T, SubSeq(x, at, at + n - 1), ep))

--------------------------------------------------------------------------------
(* Flow rules: stress s, internal variables h, total strain rate e (duals)    *)
(* -> inelastic rate and internal variable rates.                             *)
\* Kocks-Mecking activation energy
Energy(f, m, T, e) ==
    DMul(DC(FDiv(FMul(Shifted(f.k, m), T), FMul(TPVal(f.mu, m, T), RPowN(Shifted(f.b, m), 3)))),
         DSub(DC(Ln(Shifted(f.eps0, m))), DLn(DAdd(DAbs(e), DC(f.eps)))))

Dilation(f, m, e) == LET l == Shifted(f.lambda, m)
                     IN DAdd(DC(FSub(R1, l)), DScale(FDiv(l, Shifted(f.epsref, m)), DAbs(e)))

IsoVal(f, h) == h[1]
KinVal(f, h) == DSum(SubSeq(h, 2, Len(h)))
Over(f, m, T, s, h) ==      \* (|s - x| - s0 - k) / eta
    DDiv(DSub(DSub(DAbs(DSub(s, KinVal(f, h))), PC(f.s0, m, T)), IsoVal(f, h)), PC(f.eta, m, T))

RECURSIVE Flow(_, _, _, _, _, _)
RECURSIVE FlowConcat(_, _, _, _, _, _, _, _, _)
Flow(f, m, T, s, h, e) ==
    CASE f.kind = "perfect" ->
            [rate |-> DSPow(DDiv(s, PC(f.eta, m, T)), P(f.n, m, T)), hist |-> <<>>]
      [] f.kind = "isokin" ->
            LET x == DSub(s, KinVal(f, h))
                ep == DScale(RSgn(DVal(x)), DMPow(Over(f, m, T, s, h), P(f.n, m, T)))
            IN [rate |-> ep,
                hist |-> <<IsoRate(f.iso, m, T, h[1], DAbs(ep))>>
                         \o KinRate(f.kin, m, T, SubSeq(h, 2, Len(h)), ep)]
      [] f.kind = "sum" -> FlowConcat(f.models, m, T, s, h, e, 1, DC(R0), <<>>)
      [] f.kind = "km" ->
            IF RLt(Shifted(f.g0, m), DVal(Energy(f, m, T, e))) THEN Flow(f.m2, m, T, s, h, e)
            ELSE Flow(f.m1, m, T, s, h, e)
      [] f.kind = "softkm" ->
            LET a == Flow(f.m1, m, T, s, h, e) b == Flow(f.m2, m, T, s, h, e)
                w == DScale(<<1, 2>>, DAdd(DTanh(DScale(Shifted(f.sf, m), DSub(Energy(f, m, T, e), DC(Shifted(f.g0, m))))), DC(R1)))
                mix(u, v) == DAdd(DMul(DSub(DC(R1), w), u), DMul(w, v))
            IN [rate |-> mix(a.rate, b.rate), hist |-> [i \in 1..Len(h) |-> mix(a.hist[i], b.hist[i])]]
      [] f.kind = "ri" ->
            LET a == Flow(f.base, m, T, s, h, e) k == Dilation(f, m, e)
            IN [rate |-> DMul(k, a.rate), hist |-> [i \in 1..Len(h) |-> DMul(k, a.hist[i])]]
FlowConcat(ms, m, T, s, h, e, at, rate, acc) ==
    IF ms = <<>> THEN [rate |-> rate, hist |-> acc]
    ELSE LET n == FlowN(ms[1])
             a == Flow(ms[1], m, T, s, SubSeq(h, at, at + n - 1), e)
         IN FlowConcat(Tail(ms), m, T, s, h, e, at + n, DAdd(rate, a.rate), acc \o a.hist)

--------------------------------------------------------------------------------
(* Damage laws: effective stress s, damage d                                  *)
Ten(x) == Exp(FMul(x, Ln(RI(10))))
DamRate(g, m, T, s, d) ==
    CASE g.kind = "none" -> DC(R0)
      [] g.kind = "constant" -> PC(g.R, m, T)
      [] g.kind = "hayhurst" ->
            DMul(DPow(DDiv(DAbs(s), PC(g.A, m, T)), P(g.xi, m, T)),
                 DPow(DSub(DC(R1), d), FSub(P(g.xi, m, T), P(g.phi, m, T))))
      [] g.kind = "larson" ->
            DMul(DC(Ten(FSub(P(g.C, m, T), FDiv(P(g.B, m, T), T)))),
                 DPow(DMul(DAbs(s), DSub(DC(R1), d)), RNeg(FDiv(P(g.A, m, T), T))))

--------------------------------------------------------------------------------
(* Material models: state y = <<stress, internal variables[, damage]>>        *)
ModelN(M) == 1 + FlowN(M.flow) + (IF M.kind = "damaged" THEN 1 ELSE 0)
Model(M, m, T, y, e) ==
    LET E == PC(M.E, m, T)
        nh == FlowN(M.flow)
        h == SubSeq(y, 2, 1 + nh)
    IN IF M.kind = "inelastic"
       THEN LET f == Flow(M.flow, m, T, y[1], h, e)
            IN <<DMul(E, DSub(e, f.rate))>> \o f.hist
       ELSE LET d == y[nh + 2]
                area == DSub(DC(R1), d)
                eff == DDiv(y[1], area)
                f == Flow(M.flow, m, T, eff, h, e)
            IN <<DMul(DMul(area, E), DSub(e, f.rate))>> \o f.hist \o <<DamRate(M.damage, m, T, eff, d)>>

\* rates, d rates / d state and d rates / d strain rate at one point
ModelAt(M, m, T, y, e) ==
    LET n == Len(y)
        r == Model(M, m, T, [i \in 1..n |-> DSeed(y[i], i, n + 1)], DSeed(e, n + 1, n + 1))
    IN Force([rate |-> [i \in 1..n |-> DVal(r[i])],
              jac |-> [i \in 1..n |-> [j \in 1..n |-> DD(r[i], j)]],
              de |-> [i \in 1..n |-> DD(r[i], n + 1)]])
==============================================================================
