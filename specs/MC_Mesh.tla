--------------------------------- MODULE MC_Mesh ---------------------------------
(***************************************************************************)
(* The combinatorics of refinement: from small meshes, any set of long     *)
(* edges, then any single long edge.  The step keeps the surface: every    *)
(* edge keeps one or two faces, the boundary is split, the Euler           *)
(* characteristic stays.  Also all small face lists for the incidence      *)
(* tables and all pairs of small meshes for equality.                      *)
(***************************************************************************)
EXTENDS Mesh, Json, IOUtils, SequencesExt
Tetra == {{0, 1, 2}, {0, 1, 3}, {0, 2, 3}, {1, 2, 3}}
Bases == {{{0, 1, 2}}, {{0, 1, 2}, {1, 2, 3}}, Tetra, Tetra \ {{1, 2, 3}}, {{0, 1, 2}, {0, 2, 3}, {0, 3, 4}}, {{0, 1, 2}, {1, 2, 3}, {2, 3, 4}, {3, 4, 0}, {4, 0, 1}}}
EdgesS(fs) == UNION { SideSets(s) : s \in fs }
AsRow(s) == SetToSortSeq(s, LAMBDA x, y : x < y)
Rows3(fs) == SetToSeq({ AsRow(s) : s \in fs })
Pairs(L) == SetToSeq({ AsRow(x) : x \in L })
Refines == UNION {{[op |-> "refine", F |-> Rows3(b), L |-> Pairs(L)] : L \in SUBSET EdgesS(b)} : b \in Bases}
Tri4 == {<<0, 1, 2>>, <<1, 0, 3>>, <<3, 2, 0>>, <<2, 3, 1>>}
FaceLists == {[op |-> "faces", F |-> SetToSeq(S)] : S \in (SUBSET Tri4) \ {{}}}
             \cup {[op |-> "faces", F |-> <<s, t>>] : s \in {<<0, 1, 2>>, <<2, 1, 0>>, <<1, 2, 0>>}, t \in {q \in {<<a, b, c>> : a, b, c \in 0..3} : Cardinality(FaceSet(q)) = 3 /\ FaceSet(q) /= {0, 1, 2}}}
Perms4 == {<<0, 1, 2, 3>>, <<1, 0, 2, 3>>, <<3, 2, 1, 0>>, <<2, 3, 0, 1>>, <<1, 2, 3, 0>>}
Meshes4 == {<<<<0, 1, 2>>>>, <<<<1, 3, 2>>>>, <<<<0, 1, 2>>, <<1, 2, 3>>>>, <<<<0, 1, 3>>, <<0, 3, 2>>>>, <<<<2, 1, 3>>, <<2, 0, 1>>>>, <<<<0, 2, 1>>, <<0, 1, 3>>, <<0, 2, 3>>>>}
Equals == {[op |-> "equal", F |-> f, G |-> g, p |-> p] : f, g \in Meshes4, p \in Perms4}
Part == IOEnv.PART
Cases == CASE Part = "refinement" -> Refines [] Part = "incidence" -> FaceLists \cup Equals [] OTHER -> Refines \cup FaceLists \cup Equals
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLES fs, n, before, steps
vars == <<fs, n, before, steps>>
Init == fs \in Bases /\ n = Cardinality(UNION fs) /\ before = {} /\ steps = 0
\* number the new vertices in some order
Numbering(X, k) == LET s == SetToSeq(X) IN [x \in X |-> k + (CHOOSE i \in 1..Len(s) : s[i] = x) - 1]
Step(L) == LET S == { s \in fs : SideSets(s) \cap L /= {} }
               X == EdgesS(S)
           IN /\ fs' = Refined(fs, S, Numbering(X, n)) /\ n' = n + Cardinality(X)
              /\ before' = fs /\ steps' = steps + 1
Next == \/ steps = 0 /\ \E L \in (SUBSET EdgesS(fs)) \ {{}} : Step(L)
        \/ steps = 1 /\ \E x \in EdgesS(fs) : Step({x})
Degree(g, x) == Cardinality({ s \in g : x \subseteq s })
Rim0(g) == { x \in EdgesS(g) : Degree(g, x) = 1 }
\* all faces have three corners, every edge one or two faces, all vertices are used
Surface == /\ \A s \in fs : Cardinality(s) = 3
           /\ \A x \in EdgesS(fs) : Degree(fs, x) \in {1, 2}
           /\ UNION fs = 0..(n - 1)
Euler(g) == Cardinality(UNION g) - Cardinality(EdgesS(g)) + Cardinality(g)
KeepEuler == before = {} \/ Euler(fs) = Euler(before)
\* the boundary is the old one, some of its edges halved
KeepRim == before = {} \/
  LET old == Rim0(before)  new == Rim0(fs)  nb == Cardinality(UNION before)
      halved == { x \in old : x \notin new } IN
  /\ Cardinality(new) = Cardinality(old) + Cardinality(halved)
  /\ \A x \in halved : \E m \in nb..(n - 1) : \A v \in x : {v, m} \in new
\* a long edge is gone unless a face that was not split keeps it
Progress == before = {} \/ \A x \in EdgesS(fs) \cap EdgesS(before) : \E s \in before : x \subseteq s /\ (s \in fs)
=============================================================================
