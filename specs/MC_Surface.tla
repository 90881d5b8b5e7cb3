------------------------------- MODULE MC_Surface -------------------------------
(***************************************************************************)
(* Partitions of the sphere and of arcs, and tube grids.                   *)
(*  partitions: the icosahedron is quartered again and again; the number   *)
(*  of vertices and faces, closedness, orientation and vertex degrees are  *)
(*  those of the documented surface at every depth.  The points of an arc  *)
(*  are evenly spaced unit vectors for every number of points.             *)
(*  tubes: the grid of every size is a correct tube in the sense of        *)
(*  JudgeTube with either diagonal of every cell, and every damaged grid   *)
(*  (face lost, turned, doubled, corner moved) is rejected.                *)
(* Every size and depth is written out for the library.                    *)
(***************************************************************************)
EXTENDS Mesh, Json, IOUtils, SequencesExt
Deep == IF IOEnv.TIER = "quick" THEN FALSE ELSE TRUE
Part == IOEnv.PART
Icosa == << <<0, 1, 2>>, <<0, 2, 3>>, <<0, 3, 4>>, <<0, 4, 5>>, <<0, 5, 1>>, <<1, 6, 2>>, <<2, 7, 3>>, <<3, 8, 4>>, <<4, 9, 5>>, <<5, 10, 1>>,
            <<6, 7, 2>>, <<7, 8, 3>>, <<8, 9, 4>>, <<9, 10, 5>>, <<10, 6, 1>>, <<6, 11, 7>>, <<7, 11, 8>>, <<8, 11, 9>>, <<9, 11, 10>>, <<10, 11, 6>> >>
Arcs == << <<Zero, FTimes(2, Pi)>>, <<Zero, FScaled(15000, 1)>>, <<FInt(-1), FInt(5)>>, <<Two, FScaled(25000, 1)>>, <<FInt(3), FInt(-3)>> >>
MaxN == IF Deep THEN 60 ELSE 24
Sizes == IF Deep THEN (3..9) \X (2..7) ELSE (3..6) \X (2..5)
Cases == IF Part = "tubes" THEN {[op |-> "tube", n |-> s[1], m |-> s[2]] : s \in Sizes}
         ELSE {[op |-> "sphere", n |-> d] : d \in 0..(IF Deep THEN 4 ELSE 3)} \cup {[op |-> "arc", n |-> n, k |-> k] : n \in 1..MaxN, k \in 1..5}
              \cup {[op |-> o, n |-> n] : n \in 1..MaxN, o \in {"part", "ext2", "ext3"}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))

VARIABLES F, nv, depth, size
vars == <<F, nv, depth, size>>
\* an oriented quartering: new vertices are numbered in some order
Quartered(f, k) ==
  LET es == SetToSeq(Edges(f))
      num == TLCEval([x \in Edges(f) |-> k + (CHOOSE i \in 1..Len(es) : es[i] = x) - 1])
      kids(t) == LET a == num[{t[1], t[2]}]  b == num[{t[2], t[3]}]  c == num[{t[1], t[3]}]
                 IN << <<t[1], a, c>>, <<a, t[2], b>>, <<c, b, t[3]>>, <<a, b, c>> >>
  IN TLCEval([i \in 1..(4 * Len(f)) |-> kids(f[((i - 1) \div 4) + 1])[((i - 1) % 4) + 1]])
\* cell (i, s): i-th point of section s, split along one of its diagonals
Cell(n, i, s, up) == LET a == s * n + i  b == s * n + ((i + 1) % n)  c == b + n  d == a + n
                     IN IF up THEN << <<a, b, c>>, <<c, d, a>> >> ELSE << <<a, b, d>>, <<b, c, d>> >>
Up(sty, k) == CASE sty = "up" -> TRUE [] sty = "down" -> FALSE [] OTHER -> k % 2 = 0
RECURSIVE Cells(_, _, _, _)
Cells(n, m, k, sty) == IF k = n * (m - 1) THEN << >> ELSE Cell(n, k % n, k \div n, Up(sty, k)) \o Cells(n, m, k + 1, sty)
Tube(n, m, sty) == Cells(n, m, 0, sty)
Init == IF Part = "tubes"
        THEN \E s \in Sizes, sty \in {"up", "down", "mixed"} : size = s /\ F = Tube(s[1], s[2], sty) /\ nv = s[1] * s[2] /\ depth = 0
        ELSE F = Icosa /\ nv = 12 /\ depth = 0 /\ size = <<0, 0>>
TubeOk(f) == JudgeTube([op |-> "tube", n |-> size[1], m |-> size[2], F |-> f, err |-> "", kept |-> TRUE]) = {}
Lose(f, k) == SubSeq(f, 1, k - 1) \o SubSeq(f, k + 1, Len(f))
Turn(t) == <<t[2], t[1], t[3]>>
Damage == \/ \E k \in 1..Len(F) : F' = Lose(F, k)
          \/ \E k \in 1..Len(F) : F' = [F EXCEPT ![k] = Turn(@)]
          \/ \E k \in 1..(Len(F) - 1) : F' = [F EXCEPT ![k] = F[k + 1]]
          \/ \E k \in 1..Len(F), j \in 1..3 : F' = [F EXCEPT ![k][j] = (@ + 1) % nv]
          \/ \E k \in 1..Len(F), j \in 1..3 : F' = [F EXCEPT ![k][j] = (@ + size[1]) % nv]
Next == IF Part = "tubes" THEN depth = 0 /\ Damage /\ depth' = 1 /\ UNCHANGED <<nv, size>>
        ELSE depth < (IF Deep THEN 3 ELSE 2) /\ F' = Quartered(F, nv) /\ nv' = nv + Cardinality(Edges(F)) /\ depth' = depth + 1 /\ UNCHANGED size
Degree(v) == Cardinality({ k \in 1..Len(F) : v \in FaceSet(F[k]) })
Sphere == Part = "tubes" \/
  /\ nv = Quarter(depth, 10) + 2 /\ Len(F) = Quarter(depth, 20)
  /\ UNION Faces(F) = 0..(nv - 1) /\ Cardinality(Faces(F)) = Len(F)
  /\ nv - Cardinality(Edges(F)) + Len(F) = 2                        \* Euler
  /\ Cardinality(Directed(F)) = 3 * Len(F)                          \* oriented
  /\ \A d \in Directed(F) : Reversed(d) \in Directed(F)             \* closed
  /\ \A v \in 0..(nv - 1) : Degree(v) = (IF v < 12 THEN 5 ELSE 6)
Even == (Part = "tubes" \/ depth > 0) \/ \A n \in 1..MaxN, k \in 1..5 :
  LET a == Arcs[k][1]  b == Arcs[k][2]
      p == TLCEval([i \in 0..n |-> ArcPoint(a, b, i, n)])  d == Norm2(VSub(p[1], p[0])) IN
  /\ \A i \in 0..n : FNear(Norm2(p[i]), One, E9)
  /\ \A i \in 0..(n - 1) : FNear(Norm2(VSub(p[i + 1], p[i])), d, E9)
  /\ k = 1 => VNear(p[n], p[0], E9)                                 \* the whole circle closes
Grids == Part /= "tubes" \/ (TubeOk(F) <=> depth = 0)
\* closing both ends with a cap makes a sphere: Euler number of the open tube is zero
Euler0 == Part /= "tubes" \/ depth > 0 \/ nv - Cardinality(Edges(F)) + Len(F) = 0
=============================================================================
