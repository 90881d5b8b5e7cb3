------------------------------- MODULE MC_Hyper -------------------------------
(***************************************************************************)
(* Every small plane in one and two dimensions and every small point.      *)
(***************************************************************************)
EXTENDS Hyper, Json, IOUtils, SequencesExt
S == {FInt(n) : n \in -1..2}
\* coordinates of points
P == S \cup {<<2>>, <<3>>, Half}
V1 == {<<a>> : a \in S}
V2 == {<<a, b>> : a, b \in S}
H(n, s) == [n |-> n, s |-> s, tol |-> E6]
Planes == {H(v, s) : v \in (V1 \cup V2) \ {<<Zero>>, <<Zero, Zero>>}, s \in {FInt(-1), Zero, One}}
Pts(n) == IF n = 1 THEN {<<a>> : a \in P} ELSE {<<a, b>> : a, b \in P}
Member == UNION {{[op |-> "contains", h |-> h, x |-> x] : x \in Pts(Len(h.n))} : h \in Planes}
Par == {[op |-> "parallel", h |-> g, g |-> k] : g, k \in {h \in Planes : h.s = One}}
Cases == Member \cup Par \cup {[op |-> "plane", h |-> h] : h \in Planes \cup {H(<<Zero>>, Zero), H(<<Zero>>, One)}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE case
Init == case \in Cases
Next == UNCHANGED case
Times(f, h) == [n |-> VScale(f, h.n), s |-> FMul(f, h.s), tol |-> h.tol]
\* other representations of a plane contain the same points and are parallel to it
Representation == \A f \in {FInt(-2), FInt(-1), FInt(3)} :
   CASE case.op = "contains" -> On(Times(f, case.h), case.x) = On(case.h, case.x)
     [] case.op = "parallel" -> Collinear(Times(f, case.h), case.g) = Collinear(case.h, case.g)
     [] OTHER -> ZeroNormal(case.h) \/ LET a == NormalForm(case.h)  b == NormalForm(Times(f, case.h)) IN
                 (VNear(a.n, b.n, E9) /\ FNear(a.s, b.s, E9)) \/ (case.h.s = Zero /\ VNear(a.n, VNeg(b.n), E9))
\* a plane has points, and parallel planes meet only where they agree
Exists == case.op = "plane" => ZeroNormal(case.h) \/ On(case.h, VScale(FDiv(case.h.s, Norm2(case.h.n)), case.h.n)) = "t"
Parallels == case.op = "parallel" =>
   LET a == NormalForm(case.h)  b == NormalForm(case.g) IN
   /\ Collinear(case.h, case.g) = Collinear(case.g, case.h)
   /\ Collinear(case.h, case.h) = "t"
   /\ Collinear(case.h, case.g) = "t" => (VNear(a.n, b.n, E9) \/ VNear(a.n, VNeg(b.n), E9))
Described == case.op = "plane" => (ZeroNormal(case.h) \/ LET a == NormalForm(case.h) IN Describes(a.n, <<a.s>>, case.h))
Decided == case.op = "contains" => On(case.h, case.x) /= "any"
=============================================================================
