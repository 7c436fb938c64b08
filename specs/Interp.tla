-------------------------------- MODULE Interp --------------------------------
(* Piecewise-linear time series, one table per batch member, and a reader     *)
(* that walks through query times.  The meaning is Allowed(b, t): the value   *)
(* of the straight line through the neighbouring points of member b; where    *)
(* several points share one time (a jump) any of their values is accepted at  *)
(* exactly that time.  The two ways the implementation finds the interval     *)
(* (first interval whose end is not before t; number of points not after t)   *)
(* are checked to give an allowed value.                                      *)
EXTENDS Rat, FiniteSets, SequencesExt, Rnd, Emit, Force

CONSTANTS Seed, Cases, NTs, NBs, Kinds
\* Kinds: "distinct", "repeat" (equal neighbouring times), "struct" (one grid,
\* scaled and shifted per member)

VARIABLES c, kind, pc, T, V, q, out
vars == <<c, kind, pc, T, V, q, out>>

NT == Len(T)
NB == Len(T[1])

Gap(i, rep) == RMk(Pick(Seed, c, i, IF rep THEN <<0, 1, 2, 0, 3, 8, 1>> ELSE <<1, 2, 3, 4, 8, 16, 1>>), 8)

RECURSIVE GridOf(_, _, _, _)
GridOf(acc, n, base, rep) ==
    IF Len(acc) = n THEN acc
    ELSE GridOf(Append(acc, RAdd(acc[Len(acc)], Gap(base + Len(acc), rep))), n, base, rep)

Positive(g) == RLt(g[1], g[Len(g)])
FixEnd(g) == IF Positive(g) THEN g ELSE [g EXCEPT ![Len(g)] = RAdd(g[1], R1)]

MkT(n, nb) ==
    LET g(b) == FixEnd(GridOf(<<RMk(Draw(Seed, c, 40 + b, -8, 8), 4)>>, n, 100 * b, kind # "distinct"))
        s(b) == RMk(Draw(Seed, c, 50 + b, 1, 4), 2)
        o(b) == RMk(Draw(Seed, c, 60 + b, -4, 4), 1)
        \* units of time (microseconds to years) and an origin far from zero
        u == RPowN(RI(2), Pick(Seed, c, 70, <<0, 0, 0, 10, 25>>))
        unit == IF Draw(Seed, c, 71, 0, 1) = 0 THEN u ELSE RInv(u)
        far == IF Draw(Seed, c, 72, 0, 4) = 0 THEN RMk(Draw(Seed, c, 73, -1, 1) * 1048576, 1) ELSE R0
    IN Force([k \in 1..n |-> [b \in 1..nb |-> RMul(unit, RAdd(far,
          IF kind = "struct" THEN RAdd(o(b), RMul(s(b), g(1)[k])) ELSE g(b)[k]))]])

Init == /\ c \in Cases /\ kind \in Kinds /\ pc = "new"
        /\ T = <<>> /\ V = <<>> /\ q = 0 /\ out = <<>>

Setup ==
    /\ pc = "new"
    /\ LET n == NTs[(c % Len(NTs)) + 1]
           nb == Pick(Seed, c, 2, NBs)
       IN /\ T' = MkT(n, nb)
          /\ V' = Force([k \in 1..n |-> [b \in 1..nb |-> RMk(Draw(Seed, c, 500 + 20 * k + b, -16, 16), 4)]])
    /\ q' = 1 /\ out' = <<>> /\ pc' = "read" /\ UNCHANGED <<c, kind>>

--------------------------------------------------------------------------------
(* The meaning                                                                *)
Line(b, k, t) ==    \* the line through points k and k + 1
    RAdd(V[k][b], RMul(RDiv(RSub(V[k + 1][b], V[k][b]), RSub(T[k + 1][b], T[k][b])), RSub(t, T[k][b])))
At(b, t) == {k \in 1..NT : REq(T[k][b], t)}
Inside(b, t) == {k \in 1..(NT - 1) : RLt(T[k][b], t) /\ RLt(t, T[k + 1][b])}
Allowed(b, t) == IF At(b, t) # {} THEN {V[k][b] : k \in At(b, t)}
                 ELSE {Line(b, k, t) : k \in Inside(b, t)}

(* Query vectors.  Relative position m of member b: a tabulated point, or a   *)
(* fraction of an interval; "struct" queries use the same m in every member.  *)
Frac == << <<0, 1>>, <<1, 4>>, <<1, 2>>, <<7, 8>>, <<1, 1>> >>
NQ == 6 * NT
Query(m) ==
    [b \in 1..NB |->
        LET mm == IF kind = "struct" THEN m ELSE (m + (b - 1) * Draw(Seed, c, 3, 0, NQ)) % NQ
            k == ((mm \div 5) % (NT - 1)) + 1
            f == Frac[(mm % 5) + 1]
        IN RAdd(T[k][b], RMul(f, RSub(T[k + 1][b], T[k][b])))]

(* The implementation's two searches.  A zero-length interval has slope zero. *)
Seg(b, k, t) == IF REq(T[k + 1][b], T[k][b]) THEN V[k][b] ELSE Line(b, k, t)
ByEnd(b, t) ==      \* t in (T_k, T_(k+1)], or the first interval at the left end
    IF REq(t, T[1][b]) THEN Seg(b, 1, t)
    ELSE Seg(b, CHOOSE k \in 1..(NT - 1) : RLt(T[k][b], t) /\ RLe(t, T[k + 1][b]), t)
ByCount(b, t) ==    \* number of points at or before t
    LET g == Cardinality({k \in 1..NT : RLe(T[k][b], t)})
    IN IF g = NT THEN V[NT][b] ELSE Seg(b, g, t)

Read ==
    /\ pc = "read" /\ q <= NQ
    /\ out' = Append(out, LET t == Force(Query(q - 1)) IN
          [t |-> t, allowed |-> [b \in 1..NB |-> SetToSeq(Allowed(b, t[b]))]])
    /\ q' = q + 1 /\ UNCHANGED <<c, kind, pc, T, V>>

Finish ==
    /\ pc = "read" /\ q > NQ /\ pc' = "done"
    /\ Emit([c |-> c, kind |-> kind, T |-> T, V |-> V, q |-> out])
    /\ UNCHANGED <<c, kind, T, V, q, out>>

Next == Setup \/ Read \/ Finish
Spec == Init /\ [][Next]_vars

In(x, S) == \E y \in S : REq(x, y)
Cur == out[Len(out)].t
Defined == (pc = "read" /\ out # <<>>) => \A b \in 1..NB : Allowed(b, Cur[b]) # {}
SearchesAgree ==
    (pc = "read" /\ out # <<>>) => \A b \in 1..NB :
        /\ In(ByEnd(b, Cur[b]), Allowed(b, Cur[b]))
        /\ In(ByCount(b, Cur[b]), Allowed(b, Cur[b]))
Nondecreasing == pc # "new" => \A k \in 1..(NT - 1) : \A b \in 1..NB : RLe(T[k][b], T[k + 1][b])
==============================================================================
