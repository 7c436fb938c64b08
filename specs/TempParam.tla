------------------------------ MODULE TempParam ------------------------------
(* Temperature-dependent parameters.  A parameter is a record with a kind,    *)
(* coefficients, a scaling function per coefficient and an outer scaling      *)
(* function.  A coefficient is [v |-> <<x>>] (the same for every batch        *)
(* member) or [v |-> <<x_1, ..., x_nb>>] (one per member).                    *)
EXTENDS Mat, Rnd

\* scaling functions, by name
ScaleFns == <<"id", "id", "affine", "exp", "square">>
Scale(f, x) == CASE f = "id" -> x
                 [] f = "affine" -> FAdd(FMul(RI(2), x), <<1, 2>>)
                 [] f = "exp" -> Exp(x)
                 [] f = "square" -> FMul(x, x)
                 [] f = "tenth" -> FMul(<<1, 10>>, x)

\* Sensitivity to the coefficients.  Member 1000 + b (2000 + b) is member b of a
\* batch of materials of which every coefficient v has moved by SensStep * SensDir(v)
\* forwards (backwards)
SensStep == <<1, 1073741824>>
SensDir(v) == RAdd(<<1, 8>>, RMul(<<1, 4>>, v))
Shifted(v, b) == IF b < 1000 THEN v
               ELSE IF b < 2000 THEN RAdd(v, RMul(SensStep, SensDir(v))) ELSE RSub(v, RMul(SensStep, SensDir(v)))
CV(co, b) == Shifted(IF Len(co.v) = 1 THEN co.v[1] ELSE co.v[b % 1000], b)    \* raw coefficient
CS(co, b) == Scale(co.s, CV(co, b))                          \* scaled exactly once

RECURSIVE Horner(_, _, _, _)
Horner(cs, b, T, acc) ==
    IF cs = <<>> THEN acc
    ELSE Horner(Tail(cs), b, T, FAdd(FMul(acc, T), CS(cs[1], b)))

InTable(control, T) == RLe(control[1], T) /\ RLe(T, control[Len(control)])
Segment(control, T) == CHOOSE k \in 1..(Len(control) - 1) :
                          RLe(control[k], T) /\ RLe(T, control[k + 1])

RECURSIVE TPVal(_, _, _)
RECURSIVE TPRaw(_, _, _)
TPVal(p, b, T) == Scale(p.outer, TPRaw(p, b, T))
TPRaw(p, b, T) ==
    CASE p.kind = "const" -> CS(p.p, b)
      [] p.kind = "shear" -> FMul(CS(p.A, b), TPVal(p.mu, b, T))
      [] p.kind = "shearexp" -> FMul(Exp(CS(p.A, b)), TPVal(p.mu, b, T))
      [] p.kind = "mts" ->
            LET x == FDiv(FMul(Shifted(p.k, b), T), FMul(FMul(TPVal(p.mu, b, T), RPowN(Shifted(p.b, b), 3)), CS(p.g0, b)))
            IN FMul(CS(p.tau0, b),
                    Pow(FSub(R1, Pow(x, FDiv(R1, CS(p.q, b)))), FDiv(R1, CS(p.p, b))))
      [] p.kind = "kmrate" ->
            RMin(p.cutoff, RMax(R1, FDiv(RNeg(FMul(TPVal(p.mu, b, T), RPowN(Shifted(p.b, b), 3))),
                                         FMul(FMul(Shifted(p.k, b), T), CS(p.A, b)))))
      [] p.kind = "kmvisc" ->
            LET n == RMin(RI(1000), RMax(R1, FDiv(RNeg(FMul(TPVal(p.mu, b, T), RPowN(Shifted(p.b, b), 3))),
                                                  FMul(FMul(Shifted(p.k, b), T), CS(p.A, b)))))
            IN FMul(FMul(Exp(CS(p.B, b)), TPVal(p.mu, b, T)), Pow(Shifted(p.eps0, b), FDiv(RI(-1), n)))
      [] p.kind = "poly" -> Horner(p.coefs, b, T, R0)
      [] p.kind = "piecewise" ->
            LET k == Segment(p.control, T)
                y0 == CS(p.values[k], b)
                y1 == CS(p.values[k + 1], b)
            IN FAdd(y0, FMul(FDiv(FSub(y1, y0), RSub(p.control[k + 1], p.control[k])),
                             RSub(T, p.control[k])))
      [] p.kind = "arrh" -> FMul(CS(p.A, b), Exp(RNeg(FDiv(CS(p.Q, b), T))))
      [] p.kind = "invarrh" -> FMul(CS(p.A, b), FSub(R1, Exp(RNeg(FDiv(CS(p.Q, b), T)))))

--------------------------------------------------------------------------------
Coef(v, s) == [v |-> v, s |-> s]
C1(r) == Coef(<<r>>, "id")
TPConst(r) == [kind |-> "const", outer |-> "id", p |-> C1(r)]
TPConstV(v) == [kind |-> "const", outer |-> "id", p |-> Coef(v, "id")]
==============================================================================
