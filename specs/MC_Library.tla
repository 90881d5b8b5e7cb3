------------------------------- MODULE MC_Library -------------------------------
(***************************************************************************)
(* Bounded exploration of Library, as an implementation-shaped heap:       *)
(* objects and the user's arrays are references to cells of a heap, the    *)
(* constructors copy in, the accessors copy out, the in-place projection   *)
(* replaces the cells of its objects.  Refines checks, for every step of   *)
(* every reachable heap, that seen through the references it is exactly    *)
(* the step of Library (value semantics).  Switching one of the copying    *)
(* constants off must break it (the *_broken configurations).              *)
(*                                                                         *)
(* In simulation mode the histories of commands are printed as JSON and    *)
(* replayed against the real library.                                      *)
(***************************************************************************)
EXTENDS Library, Json
CONSTANTS COPYIN, COPYOUT, COPYNEW, INPLACE, MaxObjs, MaxArrs, Depth, Rich, Emit

VARIABLES cfg, heap, objs, hand, cmd, hist
vars == <<cfg, heap, objs, hand, cmd, hist>>
(* heap: sequence of contents; objs: [k, c, q, s] with cell numbers c, q; hand: [sh, r] with a cell number r *)

Content(k, rec) == rec
V(r) == heap[r]
AbsObj(h, o) == [k |-> o.k, c |-> h[o.c], q |-> LET n == Len(h[o.c]) IN
                    IF o.k = "h" THEN <<h[o.q]>> ELSE RowsOf([sh |-> <<n, n>>, v |-> h[o.q]]), s |-> o.s]
AbsState(h, os, hs, c) == [cfg |-> c, objs |-> [i \in 1..Len(os) |-> AbsObj(h, os[i])],
                           arrs |-> [i \in 1..Len(hs) |-> [sh |-> hs[i].sh, v |-> h[hs[i].r]]]]
St == AbsState(heap, objs, hand, cfg)

Vecs == IF Rich THEN {<<1, 2>>, <<0, 0>>, <<-3, 1>>, <<2>>, <<1, 0, -2>>} ELSE {<<1, 2>>}
Mats == IF Rich THEN {<<1, 0, 0, 4>>, <<2, 1, 1, 3>>, <<0, 0, 0, 5>>, <<9>>, <<1, 0, 0, 0, 2, 0, 0, 0, 3>>, <<1, 2, 0, 1>>} ELSE {<<2, 1, 1, 3>>}
FV(s) == TLCEval([i \in 1..Len(s) |-> FInt(s[i])])
Side(m) == IF Len(m) = 1 THEN 1 ELSE IF Len(m) = 4 THEN 2 ELSE 3
Tols == IF Rich THEN {E4, E5, FScaled(5, 1)} ELSE {E4}
Kws == IF Rich THEN {<< >>, [abs_tol |-> E5], [rel_tol |-> FScaled(2, 1)], [abs_tol |-> E4, n_plot_3d_points |-> FInt(50)],
                     [n_plot_2d_points |-> FInt(12)]}
       ELSE {<< >>, [rel_tol |-> E4]}
KwFor(k, kw) == \A n \in DOMAIN kw : n \in Names(k)
Bases(n) == {b \in UNION {[1..m -> [k : 1..n, x : (IF Rich THEN {One, FInt(-2), FInt(3)} ELSE {FInt(-2)})]] : m \in 1..(IF Rich THEN 2 ELSE 1)} : TRUE}
ObjSets == {s \in UNION {[1..m -> 1..Len(objs)] : m \in 1..(IF Rich THEN 2 ELSE 1)} : \A i, j \in DOMAIN s : i < j => s[i] < s[j]}

Grown(n) == Len(objs) + n <= MaxObjs
Alloc(h, s) == h \o s
EllCmds == {[op |-> "ell", c |-> c, q |-> q, kw |-> kw, bad |-> FALSE, n |-> n] :
              c \in 0..Len(hand), q \in 1..Len(hand), kw \in {k \in Kws : KwFor("e", k)}, n \in IF Rich THEN 1..2 ELSE {1}}
HypCmds == {[op |-> "hyp", c |-> c, x |-> FInt(x), kw |-> kw, bad |-> FALSE, n |-> 1] :
              c \in 1..Len(hand), x \in IF Rich THEN {-2, 3} ELSE {3}, kw \in {k \in Kws : KwFor("h", k)}}
Cmds ==
  {[op |-> "set", name |-> n, val |-> v] : n \in {"abs_tol", "rel_tol"}, v \in Tols}
  \cup (IF Rich THEN {[op |-> "set", name |-> n, val |-> FInt(v)] : n \in {"n_plot_2d_points", "n_plot_3d_points", "n_time_grid_points"}, v \in {20, 77}}
                     \cup {[op |-> "set", name |-> "is_verbose", val |-> b] : b \in BOOLEAN}
                     \cup {[op |-> "repo", rec |-> [Builtin EXCEPT !.abs_tol = E5, !.n_plot_2d_points = FInt(33)]]}
        ELSE {})
  \cup {[op |-> "init"]}
  \cup (IF Len(hand) >= MaxArrs THEN {} ELSE
        {[op |-> "arr", a |-> [sh |-> <<Len(v)>>, v |-> FV(v)]] : v \in Vecs}
        \cup {[op |-> "arr", a |-> [sh |-> <<Side(m), Side(m)>>, v |-> FV(m)]] : m \in Mats})
  \cup {[op |-> "write", i |-> i, k |-> 1, x |-> FInt(7)] : i \in 1..Len(hand)}
  \cup {e \in EllCmds : Grown(e.n) /\ Len(hand[e.q].sh) = 2 /\ (e.c = 0 \/ Len(hand[e.c].sh) = 1)}
  \cup {e \in HypCmds : Grown(1) /\ Len(hand[e.c].sh) = 1}
  \cup (IF Len(hand) + 2 > MaxArrs THEN {} ELSE {[op |-> "read", o |-> o, what |-> w] : o \in 1..Len(objs), w \in IF Rich THEN {"b", "c", "q"} ELSE {"b"}})
  \cup {[op |-> "copy", os |-> s] : s \in {x \in ObjSets : Grown(Len(x)) /\ \A i \in DOMAIN x : objs[x[i]].k = objs[x[1]].k}}
  \cup (IF Rich THEN {[op |-> "rep", o |-> o, n |-> n] : o \in {x \in 1..Len(objs) : Grown(2)}, n \in 1..2} ELSE {})
  \cup (IF Rich THEN {[op |-> "dict", o |-> o, props |-> p] : o \in {x \in 1..Len(objs) : Grown(1) /\ objs[x].k = "e"}, p \in BOOLEAN} ELSE {})
  \cup {e \in {[op |-> f, os |-> s, n |-> n, b |-> b] :
                 f \in {"proj", "getproj"}, s \in {x \in ObjSets : \A i \in DOMAIN x : objs[x[i]].k = "e"},
                 n \in {Len(heap[objs[j].c]) : j \in 1..Len(objs)}, b \in Bases(IF Rich THEN 3 ELSE 2)} :
         (e.op = "proj" \/ Grown(Len(e.os))) /\ \A j \in 1..Len(e.b) : e.b[j].k <= e.n}

\* the cells a command produces
NewCell(h, content) == [h |-> Append(h, content), r |-> Len(h) + 1]
MkObj(h, o) == [h |-> h \o <<o.c, IF o.k = "h" THEN o.q[1] ELSE Flat(o.q)>>,
                o |-> [k |-> o.k, c |-> Len(h) + 1, q |-> Len(h) + 2, s |-> o.s]]
RECURSIVE MkObjs(_, _)
MkObjs(h, s) == IF s = << >> THEN [h |-> h, os |-> << >>]
                ELSE LET a == MkObj(h, Head(s))  r == MkObjs(a.h, Tail(s)) IN [h |-> r.h, os |-> <<a.o>> \o r.os]
RECURSIVE MkArrs(_, _)
MkArrs(h, s) == IF s = << >> THEN [h |-> h, as |-> << >>]
                ELSE LET r == MkArrs(Append(h, Head(s).v), Tail(s)) IN [h |-> r.h, as |-> <<[sh |-> Head(s).sh, r |-> Len(h) + 1]>> \o r.as]

Fresh(w) == SubSeq(w.objs, Len(objs) + 1, Len(w.objs))
FreshA(w) == SubSeq(w.arrs, Len(hand) + 1, Len(w.arrs))
\* sharing that happens when a copy is omitted
ShareIn(e, os) == IF COPYIN \/ e.op \notin {"ell", "hyp"} THEN os
                  ELSE [i \in 1..Len(os) |-> [os[i] EXCEPT !.c = IF e.c > 0 THEN hand[e.c].r ELSE @,
                                                          !.q = IF e.op = "ell" THEN hand[e.q].r ELSE @]]
ShareNew(e, os) == IF COPYNEW \/ e.op /= "copy" THEN os
                   ELSE [i \in 1..Len(os) |-> [os[i] EXCEPT !.c = objs[e.os[i]].c, !.q = objs[e.os[i]].q]]
ShareOut(e, as) == IF COPYOUT \/ e.op /= "read" THEN as
                   ELSE [i \in 1..Len(as) |-> [as[i] EXCEPT !.r = IF Len(as[i].sh) = 1 THEN objs[e.o].c ELSE objs[e.o].q]]

Do(e) ==
  LET w == Step(St, e)
      mo == MkObjs(heap, Fresh(w))
      ma == MkArrs(mo.h, FreshA(w))
      os1 == ShareNew(e, ShareIn(e, mo.os))
      as1 == ShareOut(e, ma.as)
      projected == e.op = "proj" /\ ~w.refused
      inProj(i) == projected /\ \E j \in 1..Len(e.os) : e.os[j] = i
      \* in-place projection: new cells for each object of the array, or (INPLACE) the old cells overwritten
      moved == [i \in 1..Len(objs) |-> IF inProj(i) THEN [objs[i] EXCEPT !.c = Len(ma.h) + 2 * i - 1, !.q = Len(ma.h) + 2 * i] ELSE objs[i]]
      cells == [k \in 1..(2 * Len(objs)) |-> LET i == (k + 1) \div 2  o == w.objs[i] IN
                  IF o.k = "h" THEN << >> ELSE IF k % 2 = 1 THEN o.c ELSE Flat(o.q)]
      over == [r \in 1..Len(ma.h) |->
                 IF \E i \in 1..Len(objs) : inProj(i) /\ (objs[i].c = r \/ objs[i].q = r)
                 THEN LET i == CHOOSE x \in 1..Len(objs) : inProj(x) /\ (objs[x].c = r \/ objs[x].q = r)
                      IN IF objs[i].c = r THEN w.objs[i].c ELSE Flat(w.objs[i].q)
                 ELSE ma.h[r]]
  IN /\ cfg' = w.cfg
     /\ hand' = hand \o as1
     /\ objs' = (IF projected /\ ~INPLACE THEN moved ELSE objs) \o os1
     /\ heap' = IF projected THEN (IF INPLACE THEN over ELSE ma.h \o cells)
                ELSE IF e.op = "write" THEN [ma.h EXCEPT ![hand[e.i].r][e.k] = e.x] ELSE ma.h
     /\ cmd' = e

Init == cfg = Builtin /\ heap = << >> /\ objs = << >> /\ hand = << >> /\ cmd = [op |-> "reset"] /\ hist = << >>
\* one random command, each kind equally likely
Pick == LET all == Cmds  f == RandomElement({c.op : c \in all}) IN {RandomElement({c \in all : c.op = f})}
Next == /\ IF Emit THEN Len(hist) < Depth ELSE TLCGet("level") <= Depth
        /\ \E e \in (IF Rich THEN Pick ELSE Cmds) :
             /\ Do(e)
             /\ hist' = IF Emit THEN Append(hist, e) ELSE << >>
        /\ ~Emit \/ Len(hist') < Depth \/ PrintT("GEN " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
\* a history variable must not multiply the states
View == <<cfg, heap, objs, hand>>

(* ------------------------------------------------------------ checked ---- *)
AbsOf(h, os, hs, c) == AbsState(h, os, hs, c)
StepIsLibraryStep ==
  LET w == Step(St, cmd')  g == AbsState(heap', objs', hand', cfg')
  IN g.cfg = w.cfg /\ g.objs = w.objs /\ g.arrs = w.arrs
Refines == [][StepIsLibraryStep]_vars
\* stated directly: only the in-place projection touches existing values, nothing touches settings,
\* only writing touches arrays, only configuration commands touch the defaults
Frame == [][ LET g == AbsState(heap', objs', hand', cfg') IN
    /\ \A i \in 1..Len(objs) : g.objs[i].s = St.objs[i].s
    /\ \A i \in 1..Len(objs) : (cmd'.op = "proj" /\ \E j \in 1..Len(cmd'.os) : cmd'.os[j] = i) \/ g.objs[i] = St.objs[i]
    /\ \A i \in 1..Len(hand) : (cmd'.op = "write" /\ cmd'.i = i) \/ g.arrs[i] = St.arrs[i]
    /\ cmd'.op \in {"set", "init", "repo"} \/ cfg' = cfg ]_vars
\* distinct objects and arrays never share a cell
NoSharing == /\ \A i, j \in 1..Len(objs) : i /= j => {objs[i].c, objs[i].q} \cap {objs[j].c, objs[j].q} = {}
             /\ \A i \in 1..Len(objs), j \in 1..Len(hand) : hand[j].r \notin {objs[i].c, objs[i].q}
ObjectsValid == \A i \in 1..Len(objs) : LET o == AbsObj(heap, objs[i]) IN
    /\ ValidSettings(o.s)
    /\ o.k = "h" \/ (Symmetric(o.q, Zero) /\ PSD(o.q, Zero) /\ Len(o.c) = Len(o.q))
=============================================================================
