---------------------------------- MODULE Args ----------------------------------
(***************************************************************************)
(* What the entry points accept: keyword settings and constructor          *)
(* arguments.  A value is a record [t, ...] tagged with its type:          *)
(*   [t "float", x], [t "int", x], [t "str", s], [t "bool", b],            *)
(*   [t "nan"], [t "none"], [t "list"]                                     *)
(***************************************************************************)
EXTENDS Fx
RA(cond, why) == IF cond THEN {} ELSE {why}

(* ------------------------------------------------- keyword settings ------ *)
AllNames == <<"version", "is_verbose", "abs_tol", "rel_tol", "reg_tol", "ode_solver_name", "is_ode_norm_control",
              "is_enabled_ode_solver_options", "n_plot_2d_points", "n_plot_3d_points", "n_time_grid_points">>
Known == {AllNames[k] : k \in 1..Len(AllNames)}
Flags == {"is_verbose", "is_ode_norm_control", "is_enabled_ode_solver_options"}
Tolerances == {"abs_tol", "rel_tol", "reg_tol"}
Counts == {"n_plot_2d_points", "n_plot_3d_points", "n_time_grid_points"}
WholeN(x) == x[1] = 0 /\ x[2] = 0 /\ x[3] = 0
ValidSetting(name, v) ==
  CASE name = "version"         -> v.t = "str"
    [] name \in Flags           -> v.t = "bool"
    [] name \in Tolerances      -> v.t = "float" /\ FLt(Zero, v.x)
    [] name = "ode_solver_name" -> v.t = "str" /\ v.s \in {"ode45", "ode23", "ode113"}
    [] name \in Counts          -> v.t = "int" \/ (v.t = "float" /\ WholeN(v.x))

\* needed: sequence of names; given, defaults: records name -> value
Chosen(name, given, defaults) == IF name \in DOMAIN given THEN given[name] ELSE defaults[name]
ParseRefused(needed, given, defaults) ==
  \E k \in 1..Len(needed) : needed[k] \notin Known \/ ~ValidSetting(needed[k], Chosen(needed[k], given, defaults))
ParseResult(needed, given, defaults) == [k \in 1..Len(needed) |-> Chosen(needed[k], given, defaults)]
ParseRest(needed, given) == DOMAIN given \ {needed[k] : k \in 1..Len(needed)}
JudgeParse(e) ==
  LET needed == IF e.all THEN AllNames ELSE e.needed IN
  IF ParseRefused(needed, e.given, e.defaults) THEN RA(e.err = "lib:wrongInput", "settings: an invalid setting was not refused as wrong input")
  ELSE IF e.err /= "" THEN {"settings: valid settings were refused"}
  ELSE RA(e.out = ParseResult(needed, e.given, e.defaults), "settings: wrong values or order")
       \cup RA({e.rest[k] : k \in 1..Len(e.rest)} = ParseRest(needed, e.given), "settings: wrong remaining keywords")
       \cup RA(\A k \in 1..Len(e.rest) : e.restval[k] = e.given[e.rest[k]], "settings: remaining keywords changed")
       \cup RA(e.kept, "settings: the arguments were modified")

(* ------------------------------------------------- constructors ---------- *)
(* An array argument is [t "arr", sh, v, kind] with kind "real", "complex" (v the real part, im the
   imaginary part), "text"; everything that is not an array is [t |-> other]. *)
FiniteA(a) == \A k \in 1..Len(a.v) : IsFx(a.v[k])
IsVecA(a) == Len(a.sh) = 1 \/ Len(a.v) = 0 \/ (Len(a.sh) = 2 /\ (a.sh[1] = 1 \/ a.sh[2] = 1))
RowsA(a) == TLCEval([i \in 1..a.sh[1] |-> TLCEval([j \in 1..a.sh[2] |-> a.v[(i - 1) * a.sh[2] + j]])])
\* complex numbers are accepted when their imaginary part is negligible
ImVerdict(a, tol) == IF a.kind = "real" THEN "in"
                     ELSE IF \A k \in 1..Len(a.im) : FLe(FTimes(10, FAbs(a.im[k])), tol) THEN "in"
                     ELSE IF \E k \in 1..Len(a.im) : FLe(FTimes(2, tol), FAbs(a.im[k])) THEN "out" ELSE "edge"
All3(s) == IF "out" \in s THEN "out" ELSE IF "edge" \in s THEN "edge" ELSE "in"
B3(b) == IF b THEN "in" ELSE "out"
VecVerdict(a, tol) == IF a.t /= "arr" THEN "out" ELSE IF a.kind = "text" THEN "out"
                      ELSE All3({B3(IsVecA(a)), B3(FiniteA(a)), ImVerdict(a, tol)})
DiagShift(q, x) == TLCEval([i \in 1..Len(q) |-> TLCEval([j \in 1..Len(q) |-> IF i = j THEN FAdd(q[i][j], x) ELSE q[i][j]])])
SymPart(q) == TLCEval([i \in 1..Len(q) |-> TLCEval([j \in 1..Len(q) |-> IF j <= i THEN q[i][j] ELSE q[j][i]])])
MatVerdict(a, tol) ==
  IF a.t /= "arr" THEN "out" ELSE IF a.kind = "text" THEN "out"
  ELSE IF ~(Len(a.sh) = 2 /\ a.sh[1] = a.sh[2] /\ FiniteA(a)) THEN "out"
  ELSE LET q == RowsA(a)
           asym == MMaxAbs(MSub(q, Transp(q)))
           s == IF Len(q) = 0 THEN "in" ELSE IF FLe(asym, FMul(Half, tol)) THEN "in" ELSE IF FLe(FTimes(2, tol), asym) THEN "out" ELSE "edge"
           d == IF PSD(DiagShift(SymPart(q), FMul(Half, tol)), E10) THEN "in"
                ELSE IF ~PSD(DiagShift(SymPart(q), FTimes(2, tol)), E10) THEN "out" ELSE "edge"
       IN All3({s, IF s = "out" THEN "in" ELSE d, ImVerdict(a, tol)})
\* e.args: <<>>, <<shape>> or <<centre, shape>>
CtorVerdict(e) ==
  IF e.kind = "e"
  THEN CASE Len(e.args) = 0 -> "in"
         [] Len(e.args) = 1 -> MatVerdict(e.args[1], e.tol)
         [] OTHER -> LET c == VecVerdict(e.args[1], e.tol)  q == MatVerdict(e.args[2], e.tol) IN
                     IF c = "out" \/ q = "out" THEN "out"
                     ELSE All3({c, q, B3(Len(e.args[1].v) = e.args[2].sh[1])})
  ELSE LET n == VecVerdict(e.args[1], E9)
           s == IF Len(e.args) = 1 THEN "in"
                ELSE IF e.args[2].t /= "arr" THEN "out" ELSE IF e.args[2].kind = "text" THEN "out"
                ELSE All3({B3(Len(e.args[2].v) = 1), B3(FiniteA(e.args[2])), ImVerdict(e.args[2], E9)})
       IN All3({n, s})
WantedC(e) == IF Len(e.args) = 0 THEN << >> ELSE IF e.kind = "h" THEN e.args[1].v
              ELSE IF Len(e.args) = 1 THEN ZeroVec(e.args[1].sh[1]) ELSE e.args[1].v
WantedQ(e) == IF Len(e.args) = 0 THEN << >> ELSE IF e.kind = "h" THEN (IF Len(e.args) = 1 THEN <<<<Zero>>>> ELSE <<e.args[2].v>>)
              ELSE RowsA(e.args[Len(e.args)])
JudgeCtor(e) ==
  LET v == CtorVerdict(e) IN
  RA(v /= "in" \/ e.err = "", "constructor: a valid object was refused")
  \cup RA(v /= "out" \/ e.err /= "", "constructor: an invalid object was accepted")
  \cup (IF e.err /= "" \/ v = "out" THEN {} ELSE
        RA(e.c = WantedC(e), "constructor: wrong centre or normal")
        \cup RA(MNear(e.q, WantedQ(e), IF e.kind = "e" THEN FAdd(e.tol, E10) ELSE E10), "constructor: wrong shape or shift")
        \cup RA(e.kept, "constructor: the arguments were modified"))

JudgeArgs(e) == CASE e.op = "parse" -> JudgeParse(e) [] e.op = "ctor" -> JudgeCtor(e)
Judge(e) == JudgeArgs(e)
=============================================================================
