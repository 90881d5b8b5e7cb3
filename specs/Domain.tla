-------------------------------- MODULE Domain --------------------------------
(***************************************************************************)
(* Which arguments the operations of the library accept.                   *)
(*                                                                         *)
(* An argument is described by what it is, not by its numbers:             *)
(*   [t |-> "arr", sh, v]   an array of shape sh whose entries are         *)
(*        "eye"  the unit matrix (ones for a vector, on every page)        *)
(*        "sym"  symmetric, positive definite, full                        *)
(*        "asym" one entry above the diagonal more than "sym"              *)
(*        "ind"  diag(1, -1, 1, ...), symmetric and indefinite             *)
(*        "zero" zeros        "text" strings        "imag" 1 + i           *)
(*   [t |-> "num", v]       a number "neg", "zero", "pos", "half", "imag"  *)
(*   [t |-> "str", s]       a string                                       *)
(*   [t |-> "set", sh, es] ellipsoids in an array of shape sh; each is     *)
(*        [n, k], its dimension and "empty", "full", "flat" (degenerate)    *)
(*        or "far" (full, but without the origin)                          *)
(*   [t |-> "hset", sh, es] hyperplanes, "empty" or "full"                 *)
(*   [t |-> "none"], [t |-> "fun"], [t |-> "list"], [t |-> "obj", v]       *)
(* Allowed(op, args) is "yes" when the arguments belong to the domain of   *)
(* the operation: it must return; "no" when they do not: it must raise a   *)
(* library error; "any" when the documents leave it open.  In every case   *)
(* the arguments stay as they were.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

R(cond, why) == IF cond THEN {} ELSE {why}
IsArr(a) == a.t = "arr"
Nd(a) == Len(a.sh)
Plain(a) == IF IsArr(a) THEN a.v \notin {"text", "imag"} ELSE FALSE         \* real numbers
Text(a) == IF IsArr(a) THEN a.v = "text" ELSE FALSE
Matrix(a) == IF IsArr(a) THEN Nd(a) = 2 ELSE FALSE
Square(a) == IF Matrix(a) THEN a.sh[1] = a.sh[2] ELSE FALSE
RECURSIVE Prod(_)
Prod(s) == IF s = << >> THEN 1 ELSE Head(s) * Prod(Tail(s))
Size(a) == Prod(a.sh)
MaxOf(s) == IF s = << >> THEN 1 ELSE CHOOSE x \in {s[k] : k \in 1..Len(s)} : \A k \in 1..Len(s) : s[k] <= x
\* all its elements along one axis
Vector(a) == IF IsArr(a) THEN Nd(a) > 0 /\ Size(a) = MaxOf(a.sh) ELSE FALSE
SymmetricA(a) == Square(a) /\ (a.v # "asym" \/ a.sh[1] = 1)
\* smallest eigenvalue of a symmetric one
Definite(a) == a.v \in {"eye", "sym"} \/ (a.v \in {"ind", "asym"} /\ a.sh[1] = 1)
SemiDef(a) == Definite(a) \/ a.v = "zero"
Yes(b) == IF b THEN "yes" ELSE "no"
Num(a) == a.t = "num"
TolOk(a) == IF Num(a) THEN a.v \in {"zero", "pos", "half"} ELSE FALSE       \* a tolerance
PosOk(a) == IF Num(a) THEN a.v \in {"pos", "half"} ELSE FALSE               \* a level
Whole(a) == IF Num(a) THEN a.v \in {"zero", "pos"} ELSE FALSE
\* the first verdict that is decided
Joint(s) == IF \E k \in 1..Len(s) : s[k] = "no" THEN "no" ELSE IF \E k \in 1..Len(s) : s[k] = "any" THEN "any" ELSE "yes"

(* predicates, roots, repairs *)
Symm(q) == IF ~Square(q) \/ Text(q) THEN "no" ELSE IF q.v = "imag" THEN "any" ELSE "yes"
PosDef(q) == IF Symm(q) # "yes" THEN Symm(q) ELSE Yes(SymmetricA(q))
Root(q) == IF PosDef(q) # "yes" THEN PosDef(q) ELSE Yes(SemiDef(q))
Real(x) == IF Num(x) THEN Yes(x.v # "imag") ELSE IF Text(x) THEN "any" ELSE Yes(x.v # "imag")
Nonzero(x) == IF Real(x) # "yes" THEN Real(x) ELSE IF x.v = "zero" THEN "no" ELSE "yes"
Transport(a, b) == IF Nonzero(b) = "no" \/ Nonzero(a) = "no" THEN "no"
                   ELSE IF Text(a) \/ Text(b) THEN "any" ELSE IF a.sh = b.sh THEN "yes" ELSE "any"
Invert(q) == IF ~Square(q) THEN "no" ELSE IF q.v \in {"zero", "text", "imag"} THEN "any" ELSE "yes"
\* a vector as x of the quadratic form
FormVec(x) == IF IsArr(x) THEN Nd(x) \in {1, 2} /\ (Nd(x) = 1 \/ x.sh[1] = 1 \/ x.sh[2] = 1) ELSE FALSE
ZeroNum(c) == IF Num(c) THEN c.v = "zero" ELSE c.v = "zero" /\ Size(c) = 1
Modes == {"plain", "inv", "invadv", "PLAIN", "Inv", "invAdv"}
QuadForm(q, x, c, mode) ==
  IF mode \notin Modes THEN "no"
  ELSE IF Text(q) \/ Text(x) \/ Text(c) THEN "no"
  ELSE IF ~Square(q) THEN "no"
  ELSE IF Nd(x) = 0 THEN "any"
  ELSE IF ~FormVec(x) \/ Size(x) # q.sh[1] THEN "no"
  ELSE IF ZeroNum(c) THEN (IF q.v = "zero" /\ mode \notin {"plain", "PLAIN"} THEN "any" ELSE "yes")
  ELSE IF Num(c) THEN (IF q.sh[1] = 1 THEN "any" ELSE "no")
  ELSE IF Nd(c) = 0 THEN "any"
  ELSE IF ~FormVec(c) \/ Size(c) # q.sh[1] THEN "no"
  ELSE IF q.v = "zero" /\ mode \notin {"plain", "PLAIN"} THEN "any" ELSE "yes"
SortRows(m, tol) == IF ~TolOk(tol) THEN "no" ELSE IF ~Matrix(m) \/ Text(m) THEN "no" ELSE IF m.v = "imag" THEN "any" ELSE "yes"
NonNeg(x) == IF Num(x) THEN (IF x.v = "imag" THEN "any" ELSE Yes(x.v # "neg"))
             ELSE IF x.v \in {"text", "imag"} THEN "any"
             ELSE Yes(x.v # "ind" \/ Size(x) = 1)
(* page-wise algebra *)
Pages(a) == IF Nd(a) < 3 THEN 1 ELSE a.sh[3]
LrMul(b, a, flag) ==
  IF flag \notin {"R", "L"} THEN "no"
  ELSE IF Nd(a) = 3 /\ Nd(b) = 3 /\ Pages(a) # Pages(b) THEN "any"
  ELSE IF Nd(a) = 3 /\ Nd(b) = 2 /\ Pages(a) # 1 THEN "any" ELSE "yes"
SvdMul(b, a, flag) == IF flag \notin {"R", "L"} THEN "no" ELSE IF Nd(a) = Nd(b) /\ Nd(a) = 3 /\ Pages(a) = Pages(b) THEN "yes" ELSE "any"
RMul(a, b) == IF Pages(b) \in {1, Pages(a)} THEN "yes" ELSE "no"
RMulVec(a, b) == IF Nd(b) # 2 THEN "no" ELSE "yes"
MatDot(a, b) == IF a.sh # b.sh THEN "no" ELSE IF a.sh[1] # a.sh[2] THEN "no" ELSE "yes"
RepairEig(a) == IF a.v = "asym" THEN "no" ELSE "yes"
(* geometry *)
Depth(d) == Yes(IF Num(d) THEN d.v \in {"zero", "pos"} ELSE FALSE)
Points(n) == Yes(IF Num(n) THEN n.v = "pos" ELSE FALSE)
\* the sphere partition does not say what it does with anything but whole numbers
PartPoints(n) == IF Num(n) THEN (IF n.v \in {"neg", "zero"} THEN "no" ELSE IF n.v = "pos" THEN "yes" ELSE "any") ELSE "any"
\* rho1 > rho2 > 0: "sym" values are greater than "eye" values
SupDiff(r1, r2, l, n) ==
  IF Nd(l) # 2 \/ ~Vector(r1) \/ ~Vector(r2) THEN "no"
  ELSE IF Size(r1) # Size(r2) \/ Size(r1) # l.sh[2] THEN "no"
  ELSE IF l.sh[1] # n THEN "no"
  ELSE IF r1.v # "sym" \/ r2.v # "eye" THEN "no"
  ELSE "yes"
Faces(f) == Yes((Nd(f) = 1 /\ f.sh[1] = 3) \/ (Nd(f) = 2 /\ f.sh[2] = 3))
Replace(m, x, y) == Yes(Size(m) > 0 /\ x.t = "str" /\ y.t = "str")
SimDiag(a, b, tol) ==
  IF Text(a) \/ Text(b) \/ ~TolOk(tol) THEN "no"
  ELSE IF ~Square(a) \/ ~SymmetricA(a) \/ ~Definite(a) THEN "no"
  ELSE IF ~Square(b) \/ ~SymmetricA(b) THEN "no"
  ELSE Yes(a.sh = b.sh)
Align(v, x) == IF Text(v) \/ Text(x) THEN "no"
               ELSE IF ~Vector(v) \/ ~Vector(x) THEN "no" ELSE IF Size(v) # Size(x) THEN "no"
               ELSE IF v.v = "zero" \/ x.v = "zero" THEN "any" ELSE "yes"
(* comparison *)
CompareArr(a, b, abs, rel, norm) ==
  IF a.sh # b.sh \/ Text(a) \/ Text(b) THEN "no"
  ELSE IF ~TolOk(abs) THEN "no"
  ELSE IF rel.t # "none" /\ ~TolOk(rel) THEN "no"
  ELSE Yes(norm.t = "fun")
DictKinds == {"dict", "dicts", "dictarray", "empty"}
\* a collection that starts with a dictionary and goes on with something else
Looks(x) == IF x.v = "dictmixed" THEN "any" ELSE Yes(x.v \in DictKinds)
CompareDict(x, y) == Joint(<<Looks(x), Looks(y)>>)
(* objects: an operation of a class refuses collections with anything else in them *)
Member(kind, a) == IF a.v \in {kind, kind \o "s", kind \o "mat"} THEN "yes" ELSE "no"
RepShape(s) == IF IsArr(s)
               THEN (IF Text(s) THEN "no" ELSE IF s.v = "imag" THEN (IF Nd(s) \in {1, 2} THEN "no" ELSE "any")
                     ELSE IF Nd(s) = 0 THEN "any"
                     ELSE IF Size(s) = 0 \/ (Nd(s) > 0 /\ ~Vector(s)) THEN "no"
                     ELSE IF s.v \in {"half", "neg"} THEN "no"
                     ELSE "yes")
               ELSE "any"

(* sets: the operations of the calculus *)
Dims(s) == {s.es[k].n : k \in 1..Len(s.es)}
Has(s, kind) == \E k \in 1..Len(s.es) : s.es[k].k = kind
OneRow(sh) == Len(sh) = 1 \/ (Len(sh) = 2 /\ (sh[1] = 1 \/ sh[2] = 1))
RhoD(s, d) ==
  IF Text(d) THEN "no"
  ELSE IF s.es = << >> \/ Nd(d) < 2 \/ Size(d) = 0 THEN "any"
  ELSE IF Dims(s) # {d.sh[1]} THEN "no"
  ELSE IF Len(s.es) = 1 THEN "yes"
  ELSE IF Nd(d) = 2 /\ d.sh[2] = 1 THEN "yes"
  ELSE IF Nd(d) = 2 THEN (IF Len(s.es) # d.sh[2] THEN "no" ELSE IF OneRow(s.sh) THEN "yes" ELSE "any")
  ELSE IF Len(s.es) # Prod(Tail(d.sh)) THEN "no" ELSE IF s.sh = Tail(d.sh) THEN "yes" ELSE "any"
MinkD(s, d) ==
  IF s.es = << >> \/ Has(s, "empty") THEN "no"
  ELSE IF Dims(s) # {d.sh[1]} THEN "no"
  ELSE IF Text(d) \/ Nd(d) # 2 \/ Size(d) = 0 \/ d.v = "zero" \/ (Has(s, "flat") /\ (d.v # "sym" \/ d.sh[1] = 1)) THEN "any" ELSE "yes"
Orthogonal(b) == b.sh[2] = 1 \/ b.v \in {"eye", "ind"}
ProjD(s, b) ==
  IF Text(b) THEN "no"
  ELSE IF s.es = << >> \/ Nd(b) # 2 THEN "any"
  ELSE IF b.sh[2] > b.sh[1] \/ Dims(s) # {b.sh[1]} THEN "no"
  ELSE IF b.v = "zero" \/ b.sh[2] = 0 THEN "any"
  ELSE Yes(Orthogonal(b))
InternalD(s, x, mode) ==
  IF Text(x) \/ s.es = << >> \/ Has(s, "empty") THEN "no"
  ELSE IF (IF mode.t = "str" THEN mode.s \notin {"u", "i"} ELSE FALSE) THEN "no"
  ELSE IF Nd(x) # 2 \/ mode.t # "str" \/ Size(x) = 0 THEN "any"
  ELSE Yes(Dims(s) = {x.sh[1]})
PolarD(s) == IF s.es = << >> THEN "any" ELSE Yes(\A k \in 1..Len(s.es) : s.es[k].k = "full")
BiggerD(s, r) ==
  IF Len(r.es) # 1 THEN "no"
  ELSE IF Dims(s) # Dims(r) THEN "no"
  ELSE IF Has(s, "empty") \/ Has(r, "empty") THEN "any" ELSE "yes"
\* the boundary of one set in the plane or the space
BoundaryD(s, n) ==
  IF Dims(s) \cap {2, 3} = {} THEN "no"
  ELSE IF n.t = "none" THEN "yes"
  ELSE IF ~Num(n) THEN (IF n.t = "str" THEN "no" ELSE "any") ELSE IF n.v = "pos" THEN "yes" ELSE "no"
FactorD(s, f) ==
  IF Dims(s) \cap {2, 3} = {} THEN "no"
  ELSE IF f.t = "none" THEN "yes" ELSE IF ~Num(f) THEN "any" ELSE IF f.v \in {"neg", "zero"} THEN "no" ELSE IF f.v \in {"pos", "half"} THEN "yes" ELSE "any"
\* characteristics of sets that have points
SolidD(s) == IF s.es = << >> THEN "any" ELSE Yes(~Has(s, "empty"))
SameSizes(s, r) ==
  IF s.es = << >> /\ r.es = << >> THEN "any"
  ELSE IF s.es = << >> \/ r.es = << >> THEN "no"
  ELSE IF Len(s.es) = 1 \/ Len(r.es) = 1 THEN "yes" ELSE Yes(s.sh = r.sh)
ContainsD(s, x) ==
  IF s.es = << >> \/ Nd(x) < 2 \/ Size(x) = 0 THEN "any"
  ELSE IF Text(x) THEN "no"
  ELSE IF Cardinality(Dims(s)) > 1 THEN "no"
  ELSE IF Has(s, "empty") THEN "any"
  ELSE IF Dims(s) # {x.sh[1]} THEN "no"
  ELSE IF Len(s.es) = 1 \/ (Nd(x) = 2 /\ x.sh[2] = 1) THEN "yes"
  ELSE IF Len(s.es) # Size(x) \div x.sh[1] THEN "no" ELSE IF Nd(x) = 2 /\ OneRow(s.sh) THEN "yes" ELSE "any"
SolidOps == {"s.is_degenerate", "s.trace", "s.volume", "s.min_eig", "s.max_eig"}

EllOps == {"e.dimension", "e.is_empty", "e.is_degenerate", "e.trace", "e.volume", "e.min_eig", "e.max_eig", "e.get_copy", "e.uminus",
           "e.polar", "e.projection", "e.get_projection", "e.rho", "e.minksum_ea", "e.minksum_ia", "e.is_internal", "e.to_dict",
           "e.get_abs_tol", "e.get_rel_tol", "e.get_n_plot_2d_points", "e.get_n_plot_3d_points", "e.is_equal", "e.is_equal2", "e.to_dict_tol"}
HypOps == {"h.dimension", "h.is_empty", "h.get_copy", "h.uminus", "h.contains", "h.to_dict", "h.get_abs_tol", "h.get_rel_tol",
           "h.is_parallel", "h.is_parallel2", "h.is_equal", "h.is_equal2"}
Allowed(op, a) ==
  CASE op = "is_mat_symm" -> Joint(<<Symm(a[1]), Yes(TolOk(a[2]))>>)
    [] op = "is_mat_pos_def" -> Joint(<<Yes(TolOk(a[2])), PosDef(a[1])>>)
    [] op = "is_mat_not_deg" -> IF ~TolOk(a[2]) THEN "no" ELSE IF Matrix(a[1]) /\ Plain(a[1]) THEN "yes" ELSE "any"
    [] op = "sqrtm_pos" -> IF ~TolOk(a[2]) \/ Root(a[1]) = "no" THEN "no" ELSE Root(a[1])
    [] op = "reg_pos_def_mat" -> Joint(<<Yes(PosOk(a[2])), PosDef(a[1])>>)
    [] op = "reg_mat" -> IF ~PosOk(a[2]) THEN "no" ELSE IF Square(a[1]) /\ Plain(a[1]) THEN "yes" ELSE "any"
    [] op = "try_treat_as_real" -> IF ~PosOk(a[2]) THEN "no" ELSE Real(a[1])
    [] op \in {"orth_transl", "orth_transl_qr"} -> Transport(a[1], a[2])
    [] op = "inv_mat" -> Invert(a[1])
    [] op = "quad_mat" -> QuadForm(a[1], a[2], a[3], a[4].s)
    [] op = "sort_rows_tol" -> SortRows(a[1], a[2])
    [] op = "sqrt_pos" -> IF ~TolOk(a[2]) THEN "no" ELSE NonNeg(a[1])
    [] op = "lr_multiply" -> LrMul(a[1], a[2], a[3].s)
    [] op = "lr_svd_multiply" -> SvdMul(a[1], a[2], a[3].s)
    [] op = "r_multiply" -> RMul(a[1], a[2])
    [] op = "r_multiply_by_vec" -> RMulVec(a[1], a[2])
    [] op = "mat_dot" -> MatDot(a[1], a[2])
    [] op = "make_pos_definite_by_eig" -> RepairEig(a[1])
    [] op = "from_expression" -> Yes(a[1].s # "")
    [] op = "sphere_tri" -> Depth(a[1])
    [] op \in {"sphere_tri_ext2", "sphere_tri_ext3"} -> Points(a[1])
    [] op = "sphere_part" -> PartPoints(a[1])
    [] op = "sup_geom_diff_2d" -> SupDiff(a[1], a[2], a[3], 2)
    [] op = "sup_geom_diff_3d" -> SupDiff(a[1], a[2], a[3], 3)
    [] op = "get_face_edge_info" -> Faces(a[1])
    [] op = "var_replace" -> Replace(a[1], a[2], a[3])
    [] op = "ell_sim_diag" -> SimDiag(a[1], a[2], a[3])
    [] op = "ell_valign" -> Align(a[1], a[2])
    [] op = "abs_rel_compare" -> CompareArr(a[1], a[2], a[3], a[4], a[5])
    [] op = "dict_compare" -> CompareDict(a[1], a[2])
    [] op \in {"rep_mat", "h_rep_mat"} -> RepShape(a[1])
    [] op \in EllOps -> Member("ell", a[1])
    [] op = "e.is_bigger" -> IF a[1].v = "ell" THEN "yes" ELSE "no"
    [] op \in HypOps -> Member("hyp", a[1])
    [] op = "s.rho" -> RhoD(a[1], a[2])
    [] op \in {"s.minksum_ea", "s.minksum_ia"} -> MinkD(a[1], a[2])
    [] op \in {"s.projection", "s.get_projection"} -> ProjD(a[1], a[2])
    [] op = "s.is_internal" -> InternalD(a[1], a[2], a[3])
    [] op = "s.polar" -> PolarD(a[1])
    [] op = "s.is_bigger" -> BiggerD(a[1], a[2])
    [] op \in {"s.get_boundary", "s.get_rho_boundary"} -> BoundaryD(a[1], a[2])
    [] op \in {"s.get_boundary_by_factor", "s.get_rho_boundary_by_factor"} -> FactorD(a[1], a[2])
    [] op \in SolidOps -> SolidD(a[1])
    [] op \in {"s.is_equal", "s.h_is_equal"} -> SameSizes(a[1], a[2])
    [] op = "s.contains" -> ContainsD(a[1], a[2])
    [] OTHER -> "any"
Judge(e) ==
  LET w == Allowed(e.op, e.args) IN
  (CASE w = "yes" -> R(e.err = "", e.op \o ": proper arguments refused with '" \o e.err \o "'")
    [] w = "no" -> R(e.lib, e.op \o ": improper arguments must be refused by a library error, got '" \o e.err \o "'")
    [] OTHER -> {})
  \cup R(e.kept, e.op \o ": arguments changed by the call")
=============================================================================
