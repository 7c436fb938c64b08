------------------------------ MODULE Simulation ------------------------------
(* A batch of material tests, each with its own time grid, strain history and *)
(* temperature history, integrated step by step under strain control; and the *)
(* same tests under stress control, with the stresses just found.             *)
EXTENDS LawGen, MaterialStep, Emit

CONSTANTS Cases, Depth, Steps

VARIABLES law, load, k, y, z, a, w, pc, rev
(* y[k][b]: states under strain control.  z[k][b]: strain and state under     *)
(* stress control.  rev[b]: the number of steps up to which both agree.       *)
vars == <<c, law, load, k, y, z, a, w, pc, rev>>

\* two thirds of the models have a flow that does not depend on the strain rate
RECURSIVE Try(_)
Try(j) == LET M == GenModel(Depth, 40 + c + 1000 * j, 7)
          IN IF j = 12 \/ (c % 3) = 0 \/ RateFree(M.flow) THEN M ELSE Try(j + 1)

Init == c \in Cases /\ law = <<>> /\ load = <<>> /\ k = 0 /\ y = <<>> /\ z = <<>> /\ rev = <<>>
        /\ a = <<>> /\ w = <<>> /\ pc = "new"

Setup1 == pc = "new" /\ law' = Force(Try(0)) /\ pc' = "load" /\ UNCHANGED <<c, load, k, y, z, a, w, rev>>

DTs == << <<0, 1>>, <<1, 8>>, <<1, 4>>, <<1, 2>>, <<1, 1>>, <<1, 16>>, <<1, 8>>, <<1, 2>> >>
\* slow tests: the rates of long tests are orders of magnitude below the
\* tolerances of a solver meant for fast ones
TS == IF law.kind = "inelastic" THEN RI(Pick(Seed, c, 77, <<1, 1, 32, 1024>>)) ELSE R1
RECURSIVE Acc(_, _)
\* accumulate increments <<dt, dx, T>> into times, strains, temperatures
Acc(q, ac) == IF q = <<>> THEN ac
               ELSE LET p == ac[Len(ac)] d == q[1] zero == RIsZero(d[1])
                    IN Acc(Tail(q), Append(ac, <<RAdd(p[1], d[1]), IF zero THEN p[2] ELSE RAdd(p[2], d[2]),
                                                  IF zero THEN p[3] ELSE d[3]>>))
MkLoad(b) ==
    LET i == 500000 + 10000 * b
        hold == GD(i + 5, 0, 3)                 \* holds, ramps or anything
        isoT == GD(i + 6, 0, 2) = 0             \* constant temperature
        T(j) == RMk(GD(i + 7 + (IF isoT THEN 0 ELSE 5 * j), 4, 32), 2)
        dx(j) == CASE hold = 0 /\ (j % 2) = 0 -> R0
                   [] hold = 1 -> RMk(GD(i + 9, 1, 6), 32)
                   [] OTHER -> RMk(GD(i + 11 + 3 * j, -8, 8), 32)
        q == Force([j \in 1..Steps |-> <<RMul(TS, Pick(Seed, c, i + 100 + 7 * j, DTs)), dx(j), T(j)>>])
        acc == Acc(q, << <<RMk(GD(i + 1, 0, 3), 2), R0, T(0)>> >>)
    IN [t |-> Force([j \in 1..Len(acc) |-> acc[j][1]]), x |-> Force([j \in 1..Len(acc) |-> acc[j][2]]),
        T |-> Force([j \in 1..Len(acc) |-> acc[j][3]])]
Rest == Force([j \in 1..ModelN(law) |-> R0])
Setup2 == /\ pc = "load"
          /\ load' = Force([b \in 1..GNB |-> MkLoad(b)])
          /\ y' = << Force([b \in 1..GNB |-> Rest]) >>
          /\ z' = << Force([b \in 1..GNB |-> [x |-> R0, y |-> Rest]]) >>
          /\ rev' = Force([b \in 1..GNB |-> 0])
          /\ k' = 1 /\ pc' = "run" /\ UNCHANGED <<c, law, a, w>>

DT(b, j) == RSub(load[b].t[j + 1], load[b].t[j])

\* (each result is computed in an action of its own: TLC evaluates a LET of an
\* action several times)
StrainCtl ==
    /\ pc = "run" /\ k <= Steps
    /\ a' = Force([b \in 1..GNB |->
               StrainStep(law, b, load[b].T[k + 1], DT(b, k), load[b].x[k], y[k][b], load[b].x[k + 1])])
    /\ pc' = "strain" /\ UNCHANGED <<c, law, load, k, y, z, w, rev>>
\* keep what was found so far
GiveUp == /\ pc = "strain" /\ \E b \in 1..GNB : ~a[b].ok
          /\ pc' = "done" /\ UNCHANGED <<c, law, load, k, y, z, a, w, rev>>
\* the reverse test, as long as it retraces the strains
StressCtl ==
    /\ pc = "strain" /\ \A b \in 1..GNB : a[b].ok
    /\ w' = Force([b \in 1..GNB |->
               IF rev[b] = k - 1 /\ RateFree(law.flow)
               THEN StressStep(law, b, load[b].T[k + 1], DT(b, k), z[k][b].x, z[k][b].y, a[b].y[1])
               ELSE [ok |-> FALSE, x |-> z[k][b].x, y |-> z[k][b].y]])
    /\ pc' = "stress" /\ UNCHANGED <<c, law, load, k, y, z, a, rev>>
Commit ==
    /\ pc = "stress"
    /\ y' = Append(y, Force([b \in 1..GNB |-> a[b].y]))
    /\ z' = Append(z, Force([b \in 1..GNB |-> [x |-> w[b].x, y |-> w[b].y]]))
    /\ rev' = Force([b \in 1..GNB |->
           IF w[b].ok /\ RLe(RAbs(RSub(w[b].x, load[b].x[k + 1])), Tiny)
              /\ RLe(VMaxAbs(VSub(w[b].y, a[b].y)), Tiny) THEN k ELSE rev[b]])
    /\ k' = k + 1 /\ pc' = "run" /\ UNCHANGED <<c, law, load, a, w>>
Done == /\ (pc = "run" /\ k > Steps) \/ pc = "done"
        /\ pc' = "emitted"
        /\ Emit([c |-> c, nb |-> GNB, steps |-> k - 1, law |-> law, free |-> RateFree(law.flow),
                 load |-> load, y |-> y, rev |-> rev])
        /\ UNCHANGED <<c, law, load, k, y, z, a, w, rev>>
Next == Setup1 \/ Setup2 \/ StrainCtl \/ GiveUp \/ StressCtl \/ Commit \/ Done
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Moved == pc = "run" /\ k > 1
\* the two states of a step are related, whichever of them was prescribed
Related == Moved => \A b \in 1..GNB :
    LET r(x0, y0, x1, y1) == Residual(law, b, load[b].T[k], DT(b, k - 1), x0, y0, x1, y1)
    IN /\ RLe(VMaxAbs(r(load[b].x[k - 1], y[k - 1][b], load[b].x[k], y[k][b])),
              FMul(Tiny, StepScale(law, b, load[b].T[k], DT(b, k - 1), load[b].x[k - 1], y[k - 1][b], load[b].x[k], y[k][b])))
       /\ (rev[b] = k - 1) =>
            RLe(VMaxAbs(r(z[k - 1][b].x, z[k - 1][b].y, z[k][b].x, z[k][b].y)),
                FMul(Tiny, StepScale(law, b, load[b].T[k], DT(b, k - 1), load[b].x[k - 1], y[k - 1][b], load[b].x[k], y[k][b])))
\* nothing happens during a step of length zero
Frozen == Moved => \A b \in 1..GNB : RIsZero(DT(b, k - 1)) => y[k][b] = y[k - 1][b]
\* damage does not heal
NoHealing == (Moved /\ law.kind = "damaged") => \A b \in 1..GNB :
    LET n == Len(y[k][b]) IN RLe(y[k - 1][b][n], FAdd(y[k][b][n], Tiny))
\* holding the strain relaxes a stress without internal variables towards zero
Relaxation == (Moved /\ law.kind = "inelastic" /\ law.flow.kind = "perfect") => \A b \in 1..GNB :
    REq(load[b].x[k], load[b].x[k - 1]) =>
        RLe(RAbs(y[k][b][1]), FAdd(RAbs(y[k - 1][b][1]), Tiny)) /\ RSign(y[k][b][1]) * RSign(y[k - 1][b][1]) >= 0
==============================================================================
