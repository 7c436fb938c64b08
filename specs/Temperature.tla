----------------------------- MODULE Temperature -----------------------------
(* Evaluation of one temperature-dependent parameter on a block of            *)
(* temperatures T[q][b] (query q, batch member b).                            *)
EXTENDS TempParam, Emit

CONSTANTS Seed, Cases, NQ, Sens

VARIABLES c, par, T, q, vals, pc
vars == <<c, par, T, q, vals, pc>>

D(i, lo, hi) == Draw(Seed, c, i, lo, hi)
NB == D(1, 1, 4)
Batched == D(2, 0, 2) # 0

\* a coefficient between lo/den and hi/den
Co(i, lo, hi, den, fns) ==
    Coef(Force([b \in 1..(IF Batched THEN NB ELSE 1) |-> RMk(Draw(Seed, c, 100 * i + b, lo, hi), den)]),
         fns[D(10 + i, 1, Len(fns))])
Id == <<"id">>
AnyFn == ScaleFns
Pos == <<"id", "id", "affine", "square", "tenth">>
Outer == <<"id", "id", "affine", "square">>[D(3, 1, 4)]

\* shear moduli, positive on 1..32
Mu == CASE D(4, 0, 3) = 0 -> [kind |-> "const", outer |-> "affine", p |-> C1(RI(D(5, 20, 60)))]
        [] D(4, 0, 3) = 1 -> [kind |-> "poly", outer |-> "id",
                              coefs |-> <<C1(RMk(-1, D(6, 1, 3))), C1(RI(D(5, 50, 80)))>>]
        [] D(4, 0, 3) = 2 -> [kind |-> "poly", outer |-> "square",
                              coefs |-> <<C1(<<-1, 100>>), C1(<<1, 8>>), C1(RI(D(5, 20, 40)))>>]
        [] OTHER -> [kind |-> "piecewise", outer |-> "tenth", control |-> <<R0, RI(10), RI(40)>>,
                     values |-> <<C1(RI(700)), C1(RI(D(5, 500, 690))), C1(RI(300))>>]

KindSeq == <<"const", "shear", "shearexp", "mts", "kmrate", "kmvisc", "poly", "piecewise", "arrh", "invarrh", "piecewise", "poly">>
NPt == D(7, 2, 5)
Control == Force([k \in 1..NPt |-> RAdd(RI(D(8, 1, 3)), RMk(5 * (k - 1) * D(9, 1, 3), 2))])
Gen(k) ==
    CASE k = "const" -> [kind |-> k, outer |-> Outer, p |-> Co(1, -20, 20, 7, AnyFn)]
      [] k = "shear" -> [kind |-> k, outer |-> Outer, A |-> Co(1, -20, 20, 7, AnyFn), mu |-> Mu]
      [] k = "shearexp" -> [kind |-> k, outer |-> Outer, A |-> Co(1, -20, 20, 7, <<"id", "affine", "square">>), mu |-> Mu]
      [] k = "mts" -> [kind |-> k, outer |-> Outer, tau0 |-> Co(1, 1, 40, 3, AnyFn), g0 |-> Co(2, 4, 12, 8, Pos),
                       q |-> Co(3, 2, 12, 4, Pos), p |-> Co(4, 2, 12, 4, Pos), k |-> RMk(D(20, 1, 4), 256),
                       b |-> RMk(D(21, 6, 9), 4), mu |-> Mu]
      [] k = "kmrate" -> [kind |-> k, outer |-> Outer, A |-> Co(1, -40, -1, 8, <<"id", "tenth">>), k |-> RMk(D(20, 1, 6), 4),
                          b |-> RMk(D(21, 4, 7), 4), mu |-> Mu, cutoff |-> RI(D(22, 2, 30))]
      [] k = "kmvisc" -> [kind |-> k, outer |-> Outer, A |-> Co(1, -40, -1, 8, <<"id", "tenth">>), B |-> Co(2, -20, 10, 8, <<"id", "affine", "square">>),
                          k |-> RMk(D(20, 1, 6), 4), b |-> RMk(D(21, 4, 7), 4), eps0 |-> RMk(D(23, 1, 40), 4), mu |-> Mu]
      [] k = "poly" -> [kind |-> k, outer |-> Outer, coefs |-> Force([i \in 1..D(24, 1, 5) |-> [Co(30 + i, -20, 20, 16, Id) EXCEPT !.s = AnyFn[D(25, 1, Len(AnyFn))]]])]
      [] k = "piecewise" -> [kind |-> k, outer |-> Outer, control |-> Control,
                             values |-> Force([i \in 1..NPt |-> [Co(30 + i, -20, 20, 4, Id) EXCEPT !.s = AnyFn[D(25, 1, Len(AnyFn))]]])]
      [] OTHER -> [kind |-> k, outer |-> Outer, A |-> Co(1, -20, 20, 7, AnyFn), Q |-> Co(2, -20, 60, 4, <<"id", "affine">>)]

\* temperatures: in the table (its points included) for a table, 1..24 otherwise
TempOf(p, qq, b) ==
    LET u == Draw(Seed, c, 5000 + 10 * qq + b, 0, 40)
    IN IF p.kind # "piecewise" THEN RMk(u + 4 + 2 * b, 2)
       ELSE LET k == (u % (NPt - 1)) + 1
                f == <<<<0, 1>>, <<1, 3>>, <<1, 2>>, <<1, 1>>, <<5, 7>>>>[(u % 5) + 1]
            IN RAdd(Control[k], RMul(f, RSub(Control[k + 1], Control[k])))

Init == c \in Cases /\ par = <<>> /\ T = <<>> /\ q = 0 /\ vals = <<>> /\ pc = "new"

Setup == /\ pc = "new"
         /\ par' = Force(Gen(KindSeq[(c % Len(KindSeq)) + 1]))
         /\ T' = Force([qq \in 1..NQ |-> [b \in 1..NB |-> TempOf(par', qq, b)]])
         /\ q' = 1 /\ pc' = "eval" /\ UNCHANGED <<c, vals>>
Eval == /\ pc = "eval" /\ q <= NQ
        /\ vals' = Append(vals, Force([b \in 1..NB |-> TPVal(par, b, T[q][b])]))
        /\ q' = q + 1 /\ UNCHANGED <<c, par, T, pc>>
\* derivative of a value along the direction in which all coefficients move
Slope(qq, b) == IF Sens = 0 THEN R0
                ELSE FDiv(FSub(TPVal(par, 1000 + b, T[qq][b]), TPVal(par, 2000 + b, T[qq][b])), RMul(RI(2), SensStep))
\* (the slope jumps where a coefficient reaches a limit)
AtLimit(qq, b) == LET at(v) == REq(v, R1) \/ REq(v, IF par.kind = "kmvisc" THEN RI(1000) ELSE par.cutoff)
                      n == FDiv(RNeg(FMul(TPVal(par.mu, b, T[qq][b]), RPowN(par.b, 3))), FMul(FMul(par.k, T[qq][b]), CS(par.A, b)))
                  IN par.kind \in {"kmrate", "kmvisc"} /\ at(n)

Done == /\ pc = "eval" /\ q > NQ /\ pc' = "done"
        /\ Emit([c |-> c, nb |-> NB, par |-> par, T |-> T, vals |-> vals,
                 sens |-> Force([qq \in 1..NQ |-> [b \in 1..NB |-> Slope(qq, b)]]),
                 lim |-> Force([qq \in 1..NQ |-> [b \in 1..NB |-> AtLimit(qq, b)]]),
                 one |-> [b \in 1..NB |-> TPVal(par, b, T[1][1])]])
        /\ UNCHANGED <<c, par, T, q, vals>>
Next == Setup \/ Eval \/ Done
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
\* a table never leaves the hull of its two neighbouring values, and meets them
TableInHull ==
    (pc = "eval" /\ vals # <<>> /\ par.kind = "piecewise" /\ par.outer = "id") =>
        \A b \in 1..NB :
            LET t == T[Len(vals)][b] k == Segment(par.control, t) v == vals[Len(vals)][b]
                y0 == CS(par.values[k], b) y1 == CS(par.values[k + 1], b)
            IN /\ RLe(RSub(RMin(y0, y1), <<1, 1000000>>), v) /\ RLe(v, RAdd(RMax(y0, y1), <<1, 1000000>>))
Clipped == (pc = "eval" /\ vals # <<>> /\ par.kind = "kmrate") =>
        \A b \in 1..NB : RLe(TPRaw(par, b, T[Len(vals)][b]), par.cutoff) /\ RLe(R1, TPRaw(par, b, T[Len(vals)][b]))
TablesInRange == pc # "new" /\ par.kind = "piecewise" => \A qq \in 1..NQ : \A b \in 1..NB : InTable(par.control, T[qq][b])
==============================================================================
