------------------------------- MODULE Histories -------------------------------
(* Generation of test histories, one point after the other: tension ramps,    *)
(* creep tests (a load ramp, then a hold, evenly or logarithmically spaced),  *)
(* and load cycles (load, hold, reverse, hold, unload, repeated).             *)
EXTENDS RealFn, Rnd, Emit, Force

CONSTANTS Seed, Cases

VARIABLES c, test, t, x, cyc, seg, i, pc
vars == <<c, test, t, x, cyc, seg, i, pc>>

D(j, lo, hi) == Draw(Seed, c, j, lo, hi)
Kinds == <<"tension", "sample", "creep", "creeplog", "cycle", "cycle">>
Kind == Kinds[1 + (c % 6)]

\* a segment: number of steps, duration, change of the driven quantity, cycle
Segment(n, d, dx, k) == [n |-> n, d |-> d, dx |-> dx, k |-> k, log |-> FALSE]
Rate == Pick(Seed, c, 5, << <<1, 1000>>, <<1, 10>>, <<3, 1>>, <<1, 7>> >>)
Tension == LET e == RMk(D(6, 1, 40), 64) n == D(7, 2, 9)
               s == IF Kind = "tension" /\ D(8, 0, 3) = 0 THEN -1 ELSE 1   \* compression: both negative
           IN [nsteps |-> n, limit |-> RMul(RI(s), e), rate |-> RMul(RI(s), Rate), T |-> RI(D(9, 0, 900)),
               segs |-> <<Segment(n - 1, RDiv(e, Rate), RMul(RI(s), e), 0)>>]
Creep == LET s == RMk(D(10, 1, 400), 4) up == RDiv(s, Rate)
             hold == RMul(RMk(D(11, 1, 60), 4), IF D(12, 0, 1) = 0 THEN R1 ELSE up)
             nl == D(13, 2, 6) nh == D(14, 1, 8)
         IN [nload |-> nl, nhold |-> nh, stress |-> s, rate |-> Rate, end |-> RAdd(up, hold), T |-> RI(D(9, 0, 900)),
             log |-> Kind = "creeplog",
             segs |-> <<Segment(nl - 1, up, s, 0), [Segment(nh, hold, R0, 1) EXCEPT !.log = (Kind = "creeplog")]>>]
Cycle == LET emax == Pick(Seed, c, 15, << <<1, 64>>, <<1, 7>>, <<-3, 50>>, <<1, 3>>, R0 >>)
             R == Pick(Seed, c, 16, << RI(-1), R0, <<1, 2>>, R1, <<-1, 3>>, <<3, 2>>, RI(-2) >>)
             emin == RMul(R, emax)
             th == Pick(Seed, c, 17, << R0, <<1, 4>>, RI(60), <<1, 3>>, RI(3600) >>)
             ch == Pick(Seed, c, 18, << R0, <<1, 4>>, RI(60), <<1, 3>> >>)
             nl == D(19, 1, 4) nh == D(20, 1, 3) N == D(21, 1, 4)
             dur(a) == RDiv(RAbs(a), Rate)
             one(k) == <<Segment(nl, dur(emax), emax, k), Segment(nh, th, R0, k),
                         Segment(2 * nl, dur(RSub(emax, emin)), RSub(emin, emax), k),
                         Segment(nh, ch, R0, k), Segment(nl, dur(emin), RNeg(emin), k)>>
             RECURSIVE Rep(_)
             Rep(k) == IF k = N THEN <<>> ELSE one(k) \o Rep(k + 1)
         IN [emax |-> emax, R |-> R, rate |-> Rate, th |-> th, ch |-> ch, nload |-> nl, nhold |-> nh, N |-> N,
             emin |-> emin, segs |-> Rep(0)]
Total == LET RECURSIVE S(_, _)
             S(q, a) == IF q = <<>> THEN a ELSE S(Tail(q), RAdd(a, q[1].d))
         IN S(test.segs, R0)
\* a cycle of zero length is no test
Valid(w) == \E j \in 1..Len(w.segs) : ~RIsZero(w.segs[j].d)

Init == c \in Cases /\ test = <<>> /\ t = <<>> /\ x = <<>> /\ cyc = <<>> /\ seg = 1 /\ i = 0 /\ pc = "new"
Setup == /\ pc = "new"
         /\ test' = Force(CASE Kind \in {"tension", "sample"} -> Tension
                            [] Kind \in {"creep", "creeplog"} -> Creep
                            [] Kind = "cycle" -> Cycle)
         /\ t' = <<R0>> /\ x' = <<R0>> /\ cyc' = <<0>>
         /\ pc' = "run" /\ UNCHANGED <<c, seg, i>>
Void == pc = "run" /\ ~Valid(test) /\ pc' = "void" /\ UNCHANGED <<c, test, t, x, cyc, seg, i>>
S == test.segs[seg]
Start == Len(t) - i             \* index of the point the segment starts from
Point == /\ pc = "run" /\ Valid(test) /\ seg <= Len(test.segs) /\ i < S.n
         /\ LET f == RMk(i + 1, S.n)
            IN /\ t' = Append(t, Force(IF S.log
                     THEN FMul(t[Start], Pow(FDiv(FAdd(t[Start], S.d), t[Start]), f))
                     ELSE RAdd(t[Start], RMul(f, S.d))))
               /\ x' = Append(x, Force(RAdd(x[Start], RMul(f, S.dx))))
               /\ cyc' = Append(cyc, S.k)
         /\ i' = i + 1 /\ UNCHANGED <<c, test, seg, pc>>
Turn == /\ pc = "run" /\ Valid(test) /\ seg <= Len(test.segs) /\ i = S.n
        /\ seg' = seg + 1 /\ i' = 0 /\ UNCHANGED <<c, test, t, x, cyc, pc>>
Done == /\ pc = "run" /\ seg > Len(test.segs)
        /\ Emit([c |-> c, kind |-> Kind, test |-> test, t |-> t, x |-> x, cyc |-> cyc])
        /\ pc' = "done" /\ UNCHANGED <<c, test, t, x, cyc, seg, i>>
Next == Setup \/ Void \/ Point \/ Turn \/ Done
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Running == pc = "run"
L == Len(t)
Tiny == RMk(1, 2^30)
FromZero == Running => RIsZero(t[1]) /\ RIsZero(x[1])
InOrder == (Running /\ L > 1) => RLe(t[L - 1], RAdd(t[L], Tiny))
\* the driven quantity moves at the requested rate, or not at all
AtRate == (Running /\ L > 1 /\ i > 0 /\ ~S.log) =>
    \/ RIsZero(RSub(x[L], x[L - 1]))
    \/ REq(RAbs(RSub(x[L], x[L - 1])), RMul(RAbs(test.rate), RSub(t[L], t[L - 1])))
Within == (Running /\ Kind = "cycle") =>
    RLe(RMin(R0, RMin(test.emin, test.emax)), x[L]) /\ RLe(x[L], RMax(R0, RMax(test.emin, test.emax)))
\* every cycle ends where it began
Closed == (Running /\ Kind = "cycle" /\ seg > Len(test.segs)) => RIsZero(x[L]) /\ REq(t[L], Total)
Reaches == (Running /\ seg > Len(test.segs)) =>
    CASE Kind \in {"tension", "sample"} -> REq(x[L], test.limit) /\ L = test.nsteps
      [] Kind = "creep" -> REq(x[L], test.stress) /\ REq(t[L], test.end) /\ L = test.nload + test.nhold
      [] Kind = "creeplog" -> REq(x[L], test.stress) /\ L = test.nload + test.nhold
                              /\ RLe(RAbs(RSub(t[L], test.end)), RMul(Tiny, test.end))
      [] Kind = "cycle" -> /\ L = 1 + test.N * (4 * test.nload + 2 * test.nhold)
                           /\ \E j \in 1..L : REq(x[j], test.emax)
                           /\ \E j \in 1..L : REq(x[j], test.emin)
==============================================================================
