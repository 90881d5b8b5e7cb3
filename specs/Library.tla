-------------------------------- MODULE Library --------------------------------
(***************************************************************************)
(* The state of the library: global defaults, objects with value semantics *)
(* and the arrays a user holds.                                            *)
(*                                                                         *)
(*   st.cfg   the current defaults                                         *)
(*   st.objs  the live objects, [k, c, q, s]: kind "e" (centre c, shape q) *)
(*            or "h" (normal c, shift q[1][1]) and its settings s          *)
(*   st.arrs  the numeric arrays the user holds, [sh, v]: shape, elements  *)
(*                                                                         *)
(* Step(st, e) is the effect of the command e: [refused, cfg, objs, arrs]. *)
(* Every command is the return of one public call; the library is          *)
(* sequential, so this is its linearisation point.                         *)
(***************************************************************************)
EXTENDS Fx

Builtin == [version |-> "2.1", is_verbose |-> FALSE, abs_tol |-> E6, rel_tol |-> E5, reg_tol |-> E5,
            n_time_grid_points |-> FInt(250), ode_solver_name |-> "ode45", is_ode_norm_control |-> TRUE,
            is_enabled_ode_solver_options |-> FALSE, n_plot_2d_points |-> FInt(200), n_plot_3d_points |-> FInt(200)]
Start == [cfg |-> Builtin, objs |-> << >>, arrs |-> << >>]

(* -------------------------------------------------- settings of objects -- *)
Names(k) == IF k = "e" THEN {"abs_tol", "rel_tol", "n_plot_2d_points", "n_plot_3d_points"} ELSE {"abs_tol", "rel_tol"}
Settings(k, cfg, kw) == [n \in Names(k) |-> IF n \in DOMAIN kw THEN kw[n] ELSE cfg[n]]
Whole(x) == x[1] = 0 /\ x[2] = 0 /\ x[3] = 0
ValidSettings(s) == /\ FLt(Zero, s.abs_tol) /\ FLt(Zero, s.rel_tol)
                    /\ \A n \in DOMAIN s \ {"abs_tol", "rel_tol"} : Whole(s[n])

(* ------------------------------------------------------------ values ----- *)
IsVector(a) == Len(a.sh) = 1 \/ Len(a.v) = 0 \/ (Len(a.sh) = 2 /\ (a.sh[1] = 1 \/ a.sh[2] = 1))
IsSquare(a) == Len(a.sh) = 2 /\ a.sh[1] = a.sh[2]
RowsOf(a) == TLCEval([i \in 1..a.sh[1] |-> TLCEval([j \in 1..a.sh[2] |-> a.v[(i - 1) * a.sh[2] + j]])])
\* symmetric and positive semidefinite (entries are mostly whole numbers, far from the tolerances of the library)
ShapeOk(a) == IsSquare(a) /\ LET q == RowsOf(a) IN Symmetric(q, E9) /\ PSD(q, E9)
RECURSIVE Flat(_)
Flat(rows) == IF rows = << >> THEN << >> ELSE Head(rows) \o Flat(Tail(rows))
VecArr(v) == [sh |-> <<Len(v)>>, v |-> v]
MatArr(q) == [sh |-> <<Len(q), Len(q)>>, v |-> Flat(q)]

\* image under the projection onto the columns scale_j * e_(coord_j)
Sign(x) == IF FNonNeg(x) THEN One ELSE FNeg(One)
ProjVal(o, b) == [o EXCEPT !.c = TLCEval([j \in 1..Len(b) |-> FMul(Sign(b[j].x), o.c[b[j].k])]),
                           !.q = TLCEval([i \in 1..Len(b) |-> TLCEval([j \in 1..Len(b) |->
                                    FMul(FMul(Sign(b[i].x), Sign(b[j].x)), o.q[b[i].k][b[j].k])])])]
ProjOk(st, e) == /\ Len(e.b) <= e.n
                 /\ \A j \in 1..Len(e.os) : Len(st.objs[e.os[j]].c) = e.n
                 /\ \A i, j \in 1..Len(e.b) : i = j \/ e.b[i].k /= e.b[j].k

\* the dictionary of a hyperplane holds its normal form: unit normal, nonnegative shift
SamePlane(o, m) ==
  LET n == FSqrt(Norm2(o.c))  x == o.q[1][1]  sg == Sign(x) IN
  /\ m.k = "h" /\ Len(m.c) = Len(o.c)
  /\ FNear(FMul(n, m.q[1][1]), FAbs(x), E8)
  /\ VNear(VScale(FMul(sg, n), m.c), o.c, E8) \/ (x = Zero /\ VNear(VScale(n, m.c), VNeg(o.c), E8))

(* ------------------------------------------------------------- effects --- *)
Same(st) == [refused |-> FALSE, cfg |-> st.cfg, objs |-> st.objs, arrs |-> st.arrs]
Refuse(st) == [Same(st) EXCEPT !.refused = TRUE]
AddObjs(st, s) == [Same(st) EXCEPT !.objs = st.objs \o s]
AddArrs(st, s) == [Same(st) EXCEPT !.arrs = st.arrs \o s]
Times(x, n) == [i \in 1..n |-> x]

\* the object the constructor makes from the arrays c and q, 0 standing for an omitted argument
Ell(st, e) ==
  LET q == IF e.q = 0 THEN << >> ELSE RowsOf(st.arrs[e.q])
      c == IF e.c = 0 THEN ZeroVec(Len(q)) ELSE st.arrs[e.c].v
  IN [k |-> "e", c |-> c, q |-> q, s |-> Settings("e", st.cfg, e.kw)]
EllOk(st, e) ==
  /\ ~e.bad /\ ValidSettings(Settings("e", st.cfg, e.kw))
  /\ e.q = 0 \/ ShapeOk(st.arrs[e.q])
  /\ e.c = 0 \/ (IsVector(st.arrs[e.c]) /\ Len(st.arrs[e.c].v) = st.arrs[e.q].sh[1])
Hyp(st, e) == [k |-> "h", c |-> st.arrs[e.c].v, q |-> <<<<e.x>>>>, s |-> Settings("h", st.cfg, e.kw)]
HypOk(st, e) == ~e.bad /\ ValidSettings(Settings("h", st.cfg, e.kw)) /\ IsVector(st.arrs[e.c])

\* settings carried by a result whose settings the library leaves open: those of the operand or the defaults
NegObj(st, o, made) == [k |-> o.k, c |-> VNeg(o.c), q |-> IF o.k = "h" THEN <<<<FNeg(o.q[1][1])>>>> ELSE o.q,
                        s |-> IF made.s = o.s THEN o.s ELSE Settings(o.k, st.cfg, << >>)]

Step(st, e) ==
  CASE e.op = "reset" -> [Same(Start) EXCEPT !.refused = FALSE]
    [] e.op = "init"  -> [Same(st) EXCEPT !.cfg = Builtin]
    [] e.op = "set"   -> [Same(st) EXCEPT !.cfg[e.name] = e.val]
    [] e.op = "repo"  -> [Same(st) EXCEPT !.cfg = e.rec]
    [] e.op = "arr"   -> AddArrs(st, <<e.a>>)
    [] e.op = "write" -> [Same(st) EXCEPT !.arrs[e.i].v[e.k] = e.x]
    [] e.op = "ell"   -> IF EllOk(st, e) THEN AddObjs(st, Times(Ell(st, e), e.n)) ELSE Refuse(st)
    [] e.op = "hyp"   -> IF HypOk(st, e) THEN AddObjs(st, Times(Hyp(st, e), e.n)) ELSE Refuse(st)
    [] e.op = "read"  -> LET o == st.objs[e.o] IN
                         AddArrs(st, (IF e.what = "q" /\ o.k = "e" THEN << >> ELSE <<VecArr(o.c)>>)
                                     \o (IF e.what = "c" \/ o.k = "h" THEN << >> ELSE <<MatArr(o.q)>>))
    [] e.op = "copy"  -> AddObjs(st, [j \in 1..Len(e.os) |-> st.objs[e.os[j]]])
    [] e.op = "rep"   -> AddObjs(st, Times(st.objs[e.o], e.n))
    [] e.op = "dict"  -> LET o == st.objs[e.o] IN   \* to_dict followed by from_dict, with or without settings
                         IF e.props \/ ValidSettings(Settings(o.k, st.cfg, << >>))
                         THEN AddObjs(st, <<[(IF o.k = "h" /\ Len(e.made) = 1 /\ SamePlane(o, e.made[1]) THEN e.made[1] ELSE o) EXCEPT !.s = IF e.props THEN o.s ELSE Settings(o.k, st.cfg, << >>)]>>)
                         ELSE Refuse(st)
    [] e.op = "proj"  -> IF ~ProjOk(st, e) THEN Refuse(st)
                         ELSE [Same(st) EXCEPT !.objs = TLCEval([i \in 1..Len(st.objs) |->
                                IF \E j \in 1..Len(e.os) : e.os[j] = i THEN ProjVal(st.objs[i], e.b) ELSE st.objs[i]])]
    [] e.op = "getproj" -> IF ~ProjOk(st, e) THEN Refuse(st)
                           ELSE AddObjs(st, [j \in 1..Len(e.os) |-> ProjVal(st.objs[e.os[j]], e.b)])
    [] e.op = "neg"   -> IF \A j \in 1..Len(e.os) : ValidSettings(Settings(st.objs[e.os[j]].k, st.cfg, << >>))
                         THEN AddObjs(st, [j \in 1..Len(e.os) |-> NegObj(st, st.objs[e.os[j]],
                                             IF j <= Len(e.made) THEN e.made[j] ELSE st.objs[e.os[j]])])
                         ELSE Refuse(st)
    [] e.op = "pure"  -> AddObjs(st, e.made)          \* an operation whose result other specifications decide
    [] OTHER          -> Same(st)                     \* e.g. writing into a dictionary of defaults handed out

(* ------------------------------------------------- judging observations -- *)
\* The observed effect is given as differences to the previous observed state.
Patch(s, d) == TLCEval([i \in 1..Len(s) |-> IF \E j \in 1..Len(d) : d[j].i = i
                                            THEN (d[CHOOSE j \in 1..Len(d) : d[j].i = i]).x ELSE s[i]])
Observed(st, e) ==
  IF e.op = "reset" THEN [refused |-> FALSE, cfg |-> e.cfg, objs |-> << >>, arrs |-> << >>]
  ELSE [refused |-> e.refused, cfg |-> IF e.cfgchg THEN e.cfg ELSE st.cfg,
        objs |-> Patch(st.objs, e.dobj) \o e.made, arrs |-> Patch(st.arrs, e.darr) \o e.newarr]
RR(cond, why) == IF cond THEN {} ELSE {why}
SameValue(a, b) == a = b \/ (a.k = b.k /\ a.c = b.c /\ a.q = b.q)
\* a computed value: equal up to rounding
NearValue(a, b) == SameValue(a, b) \/ (a.k = b.k /\ Len(a.c) = Len(b.c) /\ Len(a.q) = Len(b.q) /\ IsVec(a.c) /\ IsMat(a.q)
                                     /\ VNear(a.c, b.c, E10) /\ MNear(a.q, b.q, E10))
SameSettings(a, b) == a.s = b.s
Judge(st, e) ==
  LET w == Step(st, e)  g == Observed(st, e)
      nobj == Len(st.objs)  narr == Len(st.arrs)
      base == IF e.op = "reset" THEN 0 ELSE nobj
      abase == IF e.op = "reset" THEN 0 ELSE narr
      lost(i) == e.op \notin {"reset", "proj"} /\ i <= nobj
  IN RR(w.refused => g.refused, "an invalid request was accepted")
     \cup RR(g.refused => w.refused, "a valid request was refused")
     \cup RR(g.cfg = w.cfg, "the defaults are not what the last setting made them")
     \cup RR(e.op = "reset" \/ e.dictok, "the dictionary of defaults disagrees with the getters")
     \cup RR("extra" \notin DOMAIN e \/ e.extra, "a returned object is not the documented one")
     \cup RR(\A i \in 1..base : SameSettings(g.objs[i], w.objs[i]), "the settings of an existing object changed")
     \cup RR(\A i \in 1..base : IF e.op = "proj" /\ st.objs[i] /= w.objs[i] THEN NearValue(g.objs[i], w.objs[i]) ELSE SameValue(g.objs[i], w.objs[i]),
             IF e.op = "proj" THEN "in-place projection: wrong value or wrong object changed" ELSE "an existing object changed its value")
     \cup RR(\A i \in 1..abase : g.arrs[i] = w.arrs[i], "an array of the user changed")
     \cup (IF g.refused THEN {} ELSE
           RR(Len(g.objs) = Len(w.objs), "number of resulting objects")
           \cup RR(\A i \in (base + 1)..Len(g.objs) : i > Len(w.objs) \/ NearValue(g.objs[i], w.objs[i]), "a resulting object has a wrong value")
           \cup RR(\A i \in (base + 1)..Len(g.objs) : i > Len(w.objs) \/ SameSettings(g.objs[i], w.objs[i]), "a resulting object has wrong settings")
           \cup RR(Len(g.arrs) = Len(w.arrs) /\ \A i \in (abase + 1)..Len(g.arrs) : g.arrs[i] = w.arrs[i], "a handed out array has wrong contents"))
=============================================================================
