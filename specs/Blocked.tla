------------------------------- MODULE Blocked -------------------------------
(* Batched blocked matrices with any set of filled block diagonals, given in  *)
(* any order.  The meaning is Entry: the (I, J) entry of batch member b.  The *)
(* representations are sets of stored (row, column, value) triples; the ones  *)
(* built diagonal by diagonal with the implementation's offsets (Stored) are  *)
(* checked to be the same matrix, each entry stored once.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Rnd, Emit, Force

CONSTANTS Seed, AllUpTo,      \* every subset of diagonals for nblk <= AllUpTo
          Cases, NBlks, SBlks, SBats, Orders

VARIABLES pc, c, nblk, diags, P
vars == <<pc, c, nblk, diags, P>>

Abs(x) == IF x < 0 THEN -x ELSE x
AllDiags(n) == (1 - n)..(n - 1)

\* diags listed in an order picked by the case
RECURSIVE Shuffle(_, _, _)
Shuffle(S, s, k) ==
    IF S = {} THEN <<>>
    ELSE LET q == SetToSortSeq(S, <)
             x == q[Draw(Seed, s, 300 + k, 1, Len(q))]
         IN <<x>> \o Shuffle(S \ {x}, s, k + 1)

Init ==
    /\ pc = "new" /\ P = <<>>
    /\ \/ /\ nblk \in 1..AllUpTo
          /\ diags \in (SUBSET AllDiags(nblk)) \ {{}}
          /\ c \in 1..Orders
       \/ /\ c \in Cases
          /\ nblk = NBlks[(c % Len(NBlks)) + 1]
          /\ diags = LET S == {d \in AllDiags(nblk) : Draw(Seed, c, 900 + d, 0, 2) = 0}
                     IN IF S = {} THEN {Draw(Seed, c, 5, 1 - nblk, nblk - 1)} ELSE S

Key == c + 1000 * nblk + 37 * Cardinality(diags)

Setup ==
    /\ pc = "new"
    /\ LET n == Pick(Seed, Key, 1, SBlks)
           nb == Pick(Seed, Key, 2, SBats)
           order == Shuffle(diags, Key, 1)
           data(d) == [k \in 1..(nblk - Abs(d)) |-> [b \in 1..nb |-> [i \in 1..n |-> [j \in 1..n |->
                        Draw(Seed, Key, 2000 + 400 * (d + nblk) + 60 * k + 20 * b + 5 * i + j, -9, 9)]]]]
           p == Force([n |-> n, nb |-> nb, order |-> order,
                       data |-> [m \in 1..Len(order) |-> data(order[m])],
                       v |-> [b \in 1..nb |-> [i \in 1..(nblk * n) |->
                                Draw(Seed, Key, 70 * b + i, -5, 5)]]])
       IN P' = p
    /\ pc' = "set" /\ UNCHANGED <<c, nblk, diags>>

Size == nblk * P.n
DataOf(d) == P.data[CHOOSE m \in 1..Len(P.order) : P.order[m] = d]

\* the meaning: 1-based entry (I, J) of batch member b
Entry(b, I, J) ==
    LET bi == (I - 1) \div P.n
        bj == (J - 1) \div P.n
        d == bj - bi
        k == (IF d < 0 THEN bj ELSE bi) + 1
    IN IF d \in diags THEN DataOf(d)[k][b][((I - 1) % P.n) + 1][((J - 1) % P.n) + 1] ELSE 0
InBand(I, J) == (((J - 1) \div P.n) - ((I - 1) \div P.n)) \in diags

\* the stored form, built the way the implementation builds it (0-based)
Stored ==
    UNION {{<<i, j,
             (IF d < 0 THEN (k - 1 + Abs(d)) * P.n ELSE (k - 1) * P.n) + i,
             (IF d < 0 THEN (k - 1) * P.n ELSE (k - 1 + Abs(d)) * P.n) + j, d, k>> :
              i \in 0..(P.n - 1), j \in 0..(P.n - 1), k \in 1..(nblk - Abs(d))} : d \in diags}
NNZ == FoldLeft(LAMBDA a, d: a + (nblk - Abs(d)) * P.n * P.n, 0, P.order)

RECURSIVE Dot(_, _, _, _)
Dot(b, I, J, x) == IF J > Size THEN 0 ELSE Entry(b, I, J) * x[J] + Dot(b, I, J + 1, x)

Export ==
    /\ pc = "set" /\ pc' = "out"
    /\ Emit([nblk |-> nblk, n |-> P.n, nb |-> P.nb, diags |-> P.order, data |-> P.data, v |-> P.v,
             nnz |-> NNZ, c |-> c,
             dense |-> [b \in 1..P.nb |-> [I \in 1..Size |-> [J \in 1..Size |-> Entry(b, I, J)]]],
             stored |-> [I \in 1..Size |-> [J \in 1..Size |-> IF InBand(I, J) THEN 1 ELSE 0]],
             prod |-> [b \in 1..P.nb |-> [I \in 1..Size |-> Dot(b, I, 1, P.v[b])]]])
    /\ UNCHANGED <<c, nblk, diags, P>>

Next == Setup \/ Export
Spec == Init /\ [][Next]_vars

StoredOnce ==
    pc = "set" =>
        /\ Cardinality(Stored) = NNZ
        /\ Cardinality({<<t[3], t[4]>> : t \in Stored}) = NNZ
        /\ \A t \in Stored : InBand(t[3] + 1, t[4] + 1)
        /\ NNZ = Cardinality({<<I, J>> \in (1..Size) \X (1..Size) : InBand(I, J)})
SameMatrix ==
    pc = "set" => \A t \in Stored : \A b \in 1..P.nb :
        Entry(b, t[3] + 1, t[4] + 1) = DataOf(t[5])[t[6]][b][t[1] + 1][t[2] + 1]
==============================================================================
