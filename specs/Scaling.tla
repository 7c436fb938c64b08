------------------------------- MODULE Scaling --------------------------------
(* Parameter scaling maps, seen from an optimiser: the optimiser moves the    *)
(* raw value x, the model uses the physical value y = Map(x), and a user may  *)
(* start from a physical value, x = Inverse(y).                               *)
EXTENDS RealFn, Rnd, Emit, Force, FiniteSets

CONSTANTS Seed, Cases, Walk

VARIABLES c, map, x, y, was, n, log, pc
vars == <<c, map, x, y, was, n, log, pc>>

D(i, lo, hi) == Draw(Seed, c, i, lo, hi)
N == D(1, 1, 4)                 \* parameters with bounds of their own
J == 1..N

Kinds == <<"simple", "bounded", "open", "log", "logopen", "factor", "factormin",
           "window", "windowmin", "clamp", "scaleclamp", "logclamp">>
Kind == Kinds[1 + (c % Len(Kinds))]

\* bounds l < u, positive where the map needs it
Lo(j) == LET v == RMk(D(10 + j, -60, 60), D(20 + j, 1, 16))
         IN IF Kind \in {"log", "logopen", "logclamp"} THEN RMk(D(10 + j, 1, 60), D(20 + j, 1, 64)) ELSE v
Wid(j) == Pick(Seed, c, 30 + j, << <<1, 1000>>, <<1, 4>>, <<3, 1>>, <<50, 1>>, <<2000, 1>> >>)
Sc(j) == Pick(Seed, c, 40 + j, << <<1, 8>>, <<1, 1>>, <<5, 2>>, <<100, 1>> >>)
Mean(j) == LET v == RMk(D(50 + j, 1, 80), D(60 + j, 1, 9)) IN IF D(70 + j, 0, 4) = 0 THEN RNeg(v) ELSE v
Factor(j) == Pick(Seed, c, 80 + j, << <<1, 100>>, <<1, 4>>, <<9, 10>>, <<1, 1>>, <<3, 1>> >>)
MapOf(j) ==
    LET factor == Kind \in {"factor", "factormin"}
        a == RMul(Mean(j), RSub(R1, Factor(j)))
        b == RMul(Mean(j), RAdd(R1, Factor(j)))
        l == IF factor THEN a ELSE Lo(j)
        u == IF factor THEN b ELSE RAdd(Lo(j), Wid(j))
    IN [l |-> l, u |-> u, s |-> Sc(j), mean |-> Mean(j), factor |-> Factor(j),
        \* a lower limit anywhere from below the range to above it
        min |-> RAdd(l, RMul(RSub(u, l), RMk(D(90 + j, -2, 5), 4)))]

Clamp(v, a, b) == RMin(RMax(v, a), b)      \* a <= b
Clip(v) == Clamp(v, R0, R1)
Lin(v, a, b) == FAdd(FMul(v, FSub(b, a)), a)
LogLin(v, a, b) == Exp(Lin(v, Ln(a), Ln(b)))
Map(k, m, v) ==
    CASE k = "simple" -> FMul(m.s, v)
      [] k \in {"bounded", "factor", "window"} -> Lin(Clip(v), m.l, m.u)
      [] k \in {"factormin", "windowmin"} -> RMax(Lin(Clip(v), m.l, m.u), m.min)
      [] k = "open" -> Lin(v, m.l, m.u)
      [] k = "log" -> IF RLe(v, R0) THEN m.l ELSE IF RLe(R1, v) THEN m.u ELSE LogLin(v, m.l, m.u)
      [] k = "logopen" -> LogLin(v, m.l, m.u)
      [] k = "clamp" -> Clamp(v, m.l, m.u)
      [] k = "scaleclamp" -> Clamp(FDiv(v, m.s), m.l, m.u)
      [] k = "logclamp" -> Clamp(Exp(FDiv(v, m.s)), m.l, m.u)
Inverse(k, m, w) ==
    CASE k = "simple" -> FDiv(w, m.s)
      [] k \in {"bounded", "open", "factor", "window"} -> FDiv(FSub(w, m.l), FSub(m.u, m.l))
      [] k \in {"log", "logopen"} -> FDiv(FSub(Ln(w), Ln(m.l)), FSub(Ln(m.u), Ln(m.l)))
      [] k = "clamp" -> w
      [] k = "scaleclamp" -> FMul(w, m.s)
      [] k = "logclamp" -> FMul(Ln(w), m.s)
Invertible == {"simple", "bounded", "open", "log", "logopen"}
Clamped == {"bounded", "log", "factor", "window", "clamp", "scaleclamp", "logclamp"}
UnitDomain == {"bounded", "open", "log", "logopen", "factor", "factormin", "window", "windowmin"}
\* the maps that only clamp are explored around their bounds
Spread(m) == IF Kind \in UnitDomain THEN R1
             ELSE IF Kind = "simple" THEN RI(8)
             ELSE IF Kind = "clamp" THEN FSub(m.u, m.l)
             ELSE IF Kind = "scaleclamp" THEN FMul(m.s, FSub(m.u, m.l))
             ELSE FMul(m.s, FSub(Ln(m.u), Ln(m.l)))
Origin(m) == IF Kind \in UnitDomain \cup {"simple"} THEN R0
             ELSE IF Kind = "clamp" THEN m.l
             ELSE IF Kind = "scaleclamp" THEN FMul(m.s, m.l) ELSE FMul(m.s, Ln(m.l))

\* where raw values are normally distributed: the parameters of the distribution
\* of the physical values (of their logarithms, and their mean, for a logarithmic map)
RawLoc(j) == RMk(D(4000 + j, 1, 15), 16)
RawDev(j) == RMk(D(4100 + j, 1, 8), 32)
Stats(k, m, j) ==
    CASE k = "simple" -> [loc |-> FMul(m.s, RawLoc(j)), dev |-> FMul(m.s, RawDev(j))]
      [] k \in {"bounded", "open"} -> [loc |-> Lin(RawLoc(j), m.l, m.u), dev |-> FMul(FSub(m.u, m.l), RawDev(j))]
      [] OTHER -> LET a == FSub(Ln(m.u), Ln(m.l)) loc == Lin(RawLoc(j), Ln(m.l), Ln(m.u)) dev == FMul(a, RawDev(j))
                  IN [loc |-> loc, dev |-> dev, mean |-> Exp(FAdd(loc, FDiv(FMul(dev, dev), RI(2))))]

Init == c \in Cases /\ map = <<>> /\ x = <<>> /\ y = <<>> /\ was = <<>> /\ n = 0 /\ log = <<>> /\ pc = "new"
Setup == /\ pc = "new" /\ pc' = "raw" /\ map' = Force([j \in J |-> MapOf(j)])
         /\ UNCHANGED <<c, x, y, was, n, log>>
\* the optimiser goes to a new raw value: anywhere, an end, next to an end, far out
Fracs == << R0, R1, <<1, 2>>, <<-1, 2^20>>, <<1, 2^20>>, <<2^20 + 1, 2^20>>, <<2^20 - 1, 2^20>>,
            RI(-3), RI(4), <<1, 7>>, <<6, 7>>, <<-1, 9>>, <<10, 9>> >>
At(j) == IF D(1000 + 50 * n + j, 0, 1) = 0 THEN Pick(Seed, c, 1001 + 50 * n + j, Fracs)
         ELSE RMk(D(1002 + 50 * n + j, -100, 356), 256)
\* a physical value within the bounds
Inside(j) == LET f == RMk(D(3000 + 50 * n + j, 0, 64), 64)
             IN IF Kind = "simple" THEN FMul(FMul(RI(8), map[j].s), f) ELSE FAdd(map[j].l, FMul(f, FSub(map[j].u, map[j].l)))
IsStart == Kind \in Invertible /\ D(2000 + n, 0, 2) = 0
Move == /\ pc = "raw" /\ n < Walk /\ ~IsStart /\ pc' = "use"
        /\ x' = Force([j \in J |-> FAdd(Origin(map[j]), FMul(At(j), Spread(map[j])))])
        /\ was' = IF x = <<>> THEN <<>> ELSE [x |-> x, y |-> y]
        /\ y' = <<>>
        /\ UNCHANGED <<c, map, n, log>>
\* or a user starts from a physical value
Begin == /\ pc = "raw" /\ n < Walk /\ IsStart /\ pc' = "use"
         /\ x' = Force([j \in J |-> Inverse(Kind, map[j], Inside(j))])
         /\ was' = [start |-> Force([j \in J |-> Inside(j)])]
         /\ y' = <<>>
         /\ UNCHANGED <<c, map, n, log>>
Use == /\ pc = "use" /\ pc' = "record"
       /\ y' = Force([j \in J |-> Map(Kind, map[j], x[j])])
       /\ UNCHANGED <<c, map, x, was, n, log>>
Record == /\ pc = "record" /\ pc' = "raw"
          /\ log' = Append(log, [x |-> x, y |-> y, start |-> IF "start" \in DOMAIN was THEN was.start ELSE <<>>])
          /\ n' = n + 1 /\ UNCHANGED <<c, map, x, y, was>>
Done == /\ pc = "raw" /\ n = Walk /\ pc' = "done"
        /\ Emit([c |-> c, kind |-> Kind, n |-> N, map |-> map, log |-> log,
                 stats |-> IF Kind \notin Invertible THEN <<>>
                           ELSE [j \in J |-> [of |-> <<RawLoc(j), RawDev(j)>>, is |-> Stats(Kind, map[j], j)]]])
        /\ UNCHANGED <<c, map, x, y, was, n, log>>
Next == Setup \/ Use \/ Record \/ Move \/ Begin \/ Done
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Tiny == RMk(1, 2^30)
Near(a, b, s) == RLe(RAbs(RSub(a, b)), FMul(FMul(Tiny, Tiny), RMax(R1, s)))
Ready == pc = "record"
\* never outside the bounds
InBounds == (Ready /\ Kind \in Clamped) =>
    \A j \in J : LET lo == RMin(map[j].l, map[j].u) hi == RMax(map[j].l, map[j].u)
                 IN /\ RLe(lo, FAdd(y[j], FMul(FMul(Tiny, Tiny), RMax(R1, RAbs(hi)))))
                    /\ RLe(y[j], FAdd(hi, FMul(FMul(Tiny, Tiny), RMax(R1, RAbs(hi)))))
AboveMin == (Ready /\ Kind \in {"factormin", "windowmin"}) => \A j \in J : RLe(map[j].min, y[j])
\* the inverse undoes the map, within the bounds
Undone == (Ready /\ Kind \in Invertible) =>
    \A j \in J : (RLe(R0, x[j]) /\ RLe(x[j], R1)) => Near(Inverse(Kind, map[j], y[j]), x[j], R1)
Restarts == (Ready /\ "start" \in DOMAIN was) => \A j \in J : Near(y[j], was.start[j], RAbs(was.start[j]))
\* larger raw values never give smaller physical values (falling for a negative reference)
Monotone == (Ready /\ "x" \in DOMAIN was) =>
    \A j \in J : RLt(was.x[j], x[j]) =>
        IF Kind \in {"factor", "factormin"} /\ RSign(map[j].mean) < 0 THEN RLe(y[j], FAdd(was.y[j], Tiny))
        ELSE RLe(was.y[j], FAdd(y[j], Tiny))
\* within the requested fraction of the reference
Fraction == (Ready /\ Kind = "factor") =>
    \A j \in J : RLe(RAbs(RSub(y[j], map[j].mean)),
                     FAdd(FMul(map[j].factor, RAbs(map[j].mean)), Tiny))
==============================================================================
