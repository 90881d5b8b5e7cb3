------------------------------- MODULE MC_SupGeom -------------------------------
(***************************************************************************)
(* Small grids: five to eight directions around the origin, all            *)
(* right-hand sides from a few values.  Laws of the support function of    *)
(* the largest convex body: below the data, a fixed point of itself,       *)
(* monotone, and untouched by a constraint that is not active.             *)
(***************************************************************************)
EXTENDS SupGeom, Json, IOUtils, SequencesExt
V2(a, b) == <<FInt(a), FInt(b)>>
Ring == << <<1, 0>>, <<1, 1>>, <<0, 1>>, <<-1, 1>>, <<-1, 0>>, <<-1, -1>>, <<0, -1>>, <<1, -1>> >>
Skew == << <<2, 1>>, <<-1, 2>>, <<-2, -1>>, <<1, -3>> >>
Tri == << <<1, 0>>, <<-1, 1>>, <<-1, -2>> >>
Axes == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<-1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>>, <<1, 1, 1>> >>
Grids == IF IOEnv.PART = "deep" THEN {Ring, Skew, Tri, Axes} ELSE {SubSeq(Ring, 1, 8), Skew, Tri, Axes}
Vals(g) == CASE Len(g) = 8 -> {2, 3} [] Len(g) = 7 -> {1, 2} [] OTHER -> {1, 2, 4, 7}
Cases == UNION {{[L |-> g, r |-> q] : q \in [1..Len(g) -> Vals(g)]} : g \in Grids}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLES L, r, h, k
vars == <<L, r, h, k>>
FxV(v) == TLCEval([j \in 1..Len(v) |-> FInt(v[j])])
FxM(m) == TLCEval([j \in 1..Len(m) |-> FxV(m[j])])
Init == \E c \in Cases : L = FxM(c.L) /\ r = FxV(c.r) /\ h = Support(L, r) /\ k = 0
\* relax one right-hand side
Next == k = 0 /\ \E j \in 1..Len(L) : k' = j /\ L' = L /\ r' = [r EXCEPT ![j] = FAdd(@, One)] /\ h' = h
Below == k /= 0 \/ \A j \in 1..Len(L) : FLe(h[j], FAdd(r[j], E8))
Positive == \A j \in 1..Len(L) : FLt(Zero, h[j])
Fixed == k /= 0 \/ LET s == Support(L, h) IN \A j \in 1..Len(L) : FNear(s[j], h[j], E8)
\* after relaxing: monotone, and unchanged when the constraint was not active
Monotone == k = 0 \/ LET s == Support(L, r) IN
  /\ \A j \in 1..Len(L) : FLe(h[j], FAdd(s[j], E8))
  /\ FLt(h[k], FSub(r[k], FAdd(One, E8))) => \A j \in 1..Len(L) : FNear(s[j], h[j], E8)
=============================================================================
