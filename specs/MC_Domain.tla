------------------------------- MODULE MC_Domain -------------------------------
(***************************************************************************)
(* Every operation with every combination of small argument descriptions.  *)
(* The laws below hold for the domains as specified, and each combination  *)
(* is written out to be tried on the real operation.                       *)
(***************************************************************************)
EXTENDS Domain, Json, IOUtils, SequencesExt
Arr(sh, v) == [t |-> "arr", sh |-> sh, v |-> v]
Nm(v) == [t |-> "num", sh |-> << >>, v |-> v]
St(s) == [t |-> "str", s |-> s]
Ob(v) == [t |-> "obj", v |-> v]
None == [t |-> "none"]
Fun == [t |-> "fun"]
C(op, args) == [op |-> op, args |-> args]
Kinds == {"eye", "sym", "asym", "ind", "zero", "text"}
Shapes == {<<1>>, <<3>>, <<1, 1>>, <<2, 2>>, <<3, 3>>, <<2, 3>>, <<3, 2>>, <<2, 2, 2>>, <<2, 2, 1>>, <<1, 1, 1>>}
Mats == {Arr(s, v) : s \in Shapes, v \in Kinds}
Tols == {Nm(v) : v \in {"neg", "zero", "pos", "half"}}
Levels == Tols \cup {Arr(<<1>>, "eye"), Arr(<<2>>, "sym"), St("x")}
Vecs == {Arr(s, v) : s \in {<<1>>, <<2>>, <<3>>, <<1, 1>>, <<2, 1>>, <<3, 1>>}, v \in {"eye", "sym", "ind", "zero", "imag"}}
QVecs == {Arr(s, v) : s \in {<<1>>, <<2>>, <<3>>, <<2, 1>>, <<1, 2>>, <<2, 2>>, <<1, 1, 2>>, <<1, 1, 1>>}, v \in {"eye", "zero"}} \cup {Arr(<<2>>, "text")}
CVecs == {Arr(s, "eye") : s \in {<<1>>, <<2>>, <<2, 1>>, <<1, 2>>, <<2, 2>>, <<1, 1, 2>>}} \cup {Arr(<<2>>, "zero"), Arr(<<1>>, "zero")} \cup {Arr(<<2>>, "text"), Nm("zero"), Nm("pos")}
QMats == {Arr(s, v) : s \in {<<2>>, <<1, 1>>, <<2, 2>>, <<2, 3>>, <<2, 2, 2>>}, v \in {"eye", "sym", "text"}}
AllModes == Modes \cup {"", "plainn", "inverse", "in"}
PMats == {Arr(s, "sym") : s \in {<<2, 2>>, <<2, 2, 1>>, <<2, 2, 3>>}}
Flags == {St(f) : f \in {"R", "L", "r", "l", "", "RL", "T"}}
Counts == {Nm(v) : v \in {"neg", "zero", "pos", "half"}} \cup {Arr(<<1>>, "eye"), Arr(<<2>>, "eye"), St("x")}
Rhos == {Arr(s, v) : s \in {<<8>>, <<8, 1>>, <<1, 8>>, <<2, 4>>, <<4>>, <<12>>, <<12, 1>>, <<2, 6>>}, v \in {"eye", "sym"}}
LMats == {Arr(s, "sym") : s \in {<<2, 8>>, <<3, 8>>, <<3, 12>>, <<2, 12>>, <<8>>, <<2, 8, 1>>, <<4, 8>>, <<8, 2>>}}
Comp == {Arr(s, v) : s \in {<<2>>, <<2, 1>>, <<2, 2>>, <<1>>, <<4>>}, v \in {"eye", "sym", "text", "imag"}}
CTols == Tols \cup {Nm("imag"), Arr(<<1>>, "eye"), Arr(<<2>>, "zero"), None}
ObjKinds == {"ell", "ells", "ellmat", "hyp", "hyps", "hypmat", "mixed", "mixed2", "number", "numbers", "str", "none"}
DKinds == DictKinds \cup {"dictmixed", "number", "str", "none", "numbers", "numarray", "tuple"}
El(n, k) == [n |-> n, k |-> k]
SetOf(sh, es) == [t |-> "set", sh |-> sh, es |-> es]
HSet(sh, es) == [t |-> "hset", sh |-> sh, es |-> es]
Elems == {El(n, k) : n \in 1..4, k \in {"full", "flat", "far"}} \cup {El(0, "empty")}
Singles == {SetOf(<<1>>, <<e>>) : e \in Elems}
Few == {El(2, "full"), El(2, "flat"), El(3, "full"), El(2, "far"), El(0, "empty")}
Pairs == {SetOf(<<2>>, <<e, f>>) : e, f \in Few}
More == {SetOf(<<3>>, <<El(2, "full"), El(2, "full"), e>>) : e \in Few} \cup {SetOf(<<2, 2>>, <<e, El(2, "full"), El(2, "far"), El(2, "full")>>) : e \in Few}
        \cup {SetOf(<<3, 1>>, <<El(2, "full"), e, El(2, "full")>>) : e \in Few} \cup {SetOf(<<1, 2>>, <<e, El(2, "full")>>) : e \in Few}
        \cup {SetOf(<<2, 1, 2>>, <<El(2, "full"), El(2, "full"), El(2, "full"), e>>) : e \in Few} \cup {SetOf(<<0>>, << >>)}
Sets == Singles \cup Pairs \cup More
Dirs == {Arr(s, v) : s \in {<<2>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<2, 4>>, <<3, 1>>, <<3, 2>>, <<1, 1>>, <<1, 2>>, <<4, 2>>, <<2, 2, 1>>, <<2, 2, 2>>, <<2, 2, 3>>, <<3, 3>>}, v \in {"eye", "sym"}} \cup {Arr(s, "text") : s \in {<<2, 1>>, <<3, 2>>}}
Bases == {Arr(s, v) : s \in {<<1, 1>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 1>>, <<3, 2>>, <<4, 3>>}, v \in {"eye", "sym", "ind"}} \cup {Arr(<<2, 2>>, "asym"), Arr(<<2, 1>>, "text"), Arr(<<3, 3>>, "text"), Arr(<<2, 2>>, "zero"), Arr(<<2>>, "eye")}
HEl == {El(n, "full") : n \in 1..3} \cup {El(0, "empty")}
HSets == {HSet(<<1>>, <<e>>) : e \in HEl} \cup {HSet(<<2>>, <<e, f>>) : e, f \in HEl} \cup {HSet(<<1, 2>>, <<e, f>>) : e, f \in HEl}
         \cup {HSet(<<3>>, <<El(2, "full"), El(2, "full"), e>>) : e \in HEl} \cup {HSet(<<2, 2>>, <<e, El(2, "full"), El(2, "full"), El(2, "full")>>) : e \in HEl} \cup {HSet(<<0>>, << >>)}
SetCases ==
  {C(op, <<s, d>>) : op \in {"s.rho", "s.minksum_ea", "s.minksum_ia"}, s \in Sets, d \in Dirs}
  \cup {C(op, <<s, b>>) : op \in {"s.projection", "s.get_projection"}, s \in Sets, b \in Bases}
  \cup {C("s.is_internal", <<s, d, m>>) : s \in Sets, d \in Dirs, m \in {St("u"), St("i")}}
  \cup {C("s.is_internal", <<s, Arr(<<2, 2>>, "eye"), m>>) : s \in Sets, m \in {St("U"), St(""), St("ui"), None, Nm("pos")}}
  \cup {C(op, <<s>>) : op \in SolidOps \cup {"s.polar"}, s \in Sets}
  \cup {C("s.is_bigger", <<s, r>>) : s \in Singles, r \in Singles \cup Pairs \cup {SetOf(<<0>>, << >>), SetOf(<<1, 1>>, <<El(2, "full")>>)}}
  \cup {C(op, <<s, n>>) : op \in {"s.get_boundary", "s.get_rho_boundary", "s.get_boundary_by_factor", "s.get_rho_boundary_by_factor"}, s \in Singles,
                          n \in {None, St("x"), Nm("pos"), Nm("zero"), Nm("neg"), Nm("half")}}
  \cup {C("s.is_equal", <<s, r>>) : s, r \in Sets}
  \cup {C("s.h_is_equal", <<s, r>>) : s, r \in HSets}
  \cup {C("s.contains", <<s, d>>) : s \in HSets, d \in Dirs}
Cases == SetCases \cup
  {C(op, <<q, x>>) : op \in {"is_mat_symm", "is_mat_pos_def", "is_mat_not_deg", "sqrtm_pos"}, q \in Mats, x \in Tols}
  \cup {C(op, <<q, x>>) : op \in {"reg_pos_def_mat", "reg_mat"}, q \in Mats, x \in Levels}
  \cup {C("try_treat_as_real", <<q, x>>) : q \in Mats \cup {Arr(<<2>>, "imag"), Arr(<<2, 2>>, "imag"), Nm("imag"), Nm("pos")}, x \in Levels}
  \cup {C(op, <<x, y>>) : op \in {"orth_transl", "orth_transl_qr"}, x \in Vecs, y \in Vecs}
  \cup {C("inv_mat", <<q>>) : q \in Mats}
  \cup {C("quad_mat", <<q, x, c, St(m)>>) : q \in QMats, x \in QVecs, c \in CVecs, m \in {"plain", "invadv"}}
  \cup {C("quad_mat", <<Arr(<<2, 2>>, "sym"), x, Nm("zero"), St(m)>>) : x \in QVecs, m \in AllModes}
  \cup {C("sort_rows_tol", <<q, x>>) : q \in Mats, x \in Tols}
  \cup {C("sqrt_pos", <<q, x>>) : q \in Mats \cup {Nm("neg"), Nm("zero"), Nm("pos")}, x \in Tols}
  \cup {C(op, <<b, a, f>>) : op \in {"lr_multiply", "lr_svd_multiply"}, b \in PMats, a \in PMats, f \in Flags}
  \cup {C("r_multiply", <<a, b>>) : a \in {Arr(<<2, 2, 1>>, "sym"), Arr(<<2, 2, 3>>, "sym")}, b \in {Arr(s, "sym") : s \in {<<2, 2>>, <<2, 2, 1>>, <<2, 2, 2>>, <<2, 2, 3>>, <<2, 2, 4>>}}}
  \cup {C("r_multiply_by_vec", <<Arr(<<2, 2, 3>>, "sym"), b>>) : b \in {Arr(s, "sym") : s \in {<<2>>, <<6>>, <<2, 3>>, <<2, 3, 1>>, <<1, 2, 3>>}}}
  \cup {C("mat_dot", <<a, b>>) : a, b \in {Arr(s, v) : s \in {<<1, 1>>, <<2, 2>>, <<2, 3>>, <<2, 2, 1>>, <<2, 2, 3>>, <<3, 2, 2>>}, v \in {"sym", "ind"}}}
  \cup {C("make_pos_definite_by_eig", <<Arr(s, v)>>) : s \in {<<2, 2>>, <<3, 3>>, <<2, 2, 1>>, <<2, 2, 3>>}, v \in Kinds \ {"text"}}
  \cup {C("from_expression", <<St(s)>>) : s \in {"", "t", "[t]", "[[t, 1]]", "t, 2", "[[1], [t]]"}}
  \cup {C(op, <<n>>) : op \in {"sphere_tri", "sphere_tri_ext2", "sphere_tri_ext3", "sphere_part"}, n \in Counts}
  \cup {C(op, <<x, y, l>>) : op \in {"sup_geom_diff_2d", "sup_geom_diff_3d"}, x \in Rhos, y \in Rhos, l \in LMats}
  \cup {C("get_face_edge_info", <<Arr(s, "sym")>>) : s \in {<<1>>, <<2>>, <<3>>, <<4>>, <<6>>, <<1, 3>>, <<2, 3>>, <<2, 4>>, <<3, 2>>, <<1, 1>>, <<5, 3>>}}
  \cup {C("var_replace", <<Arr(s, "text"), x, y>>) : s \in {<<1, 1>>, <<2, 2>>, <<0>>, <<0, 2>>, <<1, 0>>, <<3, 1>>}, x, y \in {St("t"), St("x"), Nm("pos"), None, Arr(<<1>>, "text")}}
  \cup {C("ell_sim_diag", <<a, b, x>>) : a, b \in {Arr(s, v) : s \in {<<2, 2>>, <<3, 3>>, <<2, 3>>, <<1, 1>>}, v \in Kinds}, x \in {Nm("pos"), Nm("neg")}}
  \cup {C("ell_valign", <<a, b>>) : a, b \in {Arr(s, v) : s \in {<<1>>, <<2>>, <<3>>, <<2, 1>>, <<1, 2>>, <<3, 1>>, <<2, 2>>, <<1, 2, 1>>}, v \in {"eye", "sym", "text", "zero"}}}
  \cup {C("abs_rel_compare", <<a, b, x, y, Fun>>) : a, b \in Comp, x \in {Nm("pos"), Nm("neg"), Nm("half")}, y \in {None, Nm("pos"), Nm("neg")}}
  \cup {C("abs_rel_compare", <<a, b, Nm("pos"), y, f>>) : a, b \in {Arr(<<2>>, "eye"), Arr(<<2>>, "sym")}, y \in CTols, f \in {Fun, Nm("pos"), None, St("abs")}}
  \cup {C("abs_rel_compare", <<a, b, x, y, Fun>>) : a, b \in {Arr(<<2>>, "eye"), Arr(<<2>>, "sym")}, x \in CTols, y \in CTols}
  \cup {C("dict_compare", <<Ob(x), Ob(y)>>) : x, y \in DKinds}
  \cup {C(op, <<Arr(s, v)>>) : op \in {"rep_mat", "h_rep_mat"}, s \in {<<0>>, <<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<0, 2>>, <<1, 1, 2>>, << >>}, v \in {"eye", "sym", "zero", "half", "neg", "text", "imag"}}
  \cup {C(op, <<Ob(v)>>) : op \in EllOps \cup HypOps \cup {"e.is_bigger"}, v \in ObjKinds}
Chosen0 == TLCEval(Cases)
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Chosen0))

VARIABLE case
Init == case \in Chosen0
Next == UNCHANGED case
V(c) == Allowed(c.op, c.args)
Decided == V(case) \in {"yes", "no", "any"}
HasTol(op) == op \in {"is_mat_symm", "is_mat_pos_def", "is_mat_not_deg", "sqrtm_pos", "reg_pos_def_mat", "reg_mat", "try_treat_as_real", "sort_rows_tol", "sqrt_pos", "ell_sim_diag"}
\* a negative tolerance is never right, and how small a proper one is does not matter
Tolerances == HasTol(case.op) =>
  LET k == Len(case.args)  at(v) == V([case EXCEPT !.args[k] = Nm(v)]) IN
  at("neg") = "no" /\ at("pos") = at("half") /\ (at("zero") = at("pos") \/ at("zero") = "no")
\* text is never a proper array of numbers
Numbers == (V(case) = "yes" /\ case.op # "var_replace") => \A k \in 1..Len(case.args) : ~Text(case.args[k])
\* what is right for the roots is right for the predicates, and what can be aligned can be turned around
Stronger ==
  /\ (case.op = "sqrtm_pos" /\ V(case) = "yes") => Allowed("is_mat_pos_def", case.args) = "yes"
  /\ (case.op = "is_mat_pos_def" /\ V(case) = "yes") => Allowed("is_mat_symm", case.args) = "yes"
  /\ (case.op = "reg_pos_def_mat" /\ V(case) = "yes") => Allowed("is_mat_pos_def", case.args) = "yes"
  /\ case.op \in {"orth_transl", "orth_transl_qr", "ell_valign", "abs_rel_compare", "dict_compare", "mat_dot"} =>
       V(case) = V([case EXCEPT !.args[1] = case.args[2], !.args[2] = case.args[1]])
\* the same unit for every operation of a class: only collections of its objects
\* more elements never make a refused collection acceptable
Parts == (case.op \in SolidOps \cup {"s.polar", "s.minksum_ea", "s.minksum_ia", "s.is_internal", "s.projection", "s.get_projection"} /\ V(case) = "yes") =>
  \A k \in 1..Len(case.args[1].es) : V([case EXCEPT !.args[1] = SetOf(<<1>>, <<case.args[1].es[k]>>)]) = "yes"
\* a set that has a support function in a direction can be added to itself
Directions == (case.op = "s.rho" /\ V(case) = "yes" /\ Nd(case.args[2]) = 2) => Allowed("s.minksum_ea", case.args) # "no"
Classes == case.op \in EllOps \cup HypOps => (V(case) = "yes") = (case.args[1].v \in (IF case.op \in EllOps THEN {"ell", "ells", "ellmat"} ELSE {"hyp", "hyps", "hypmat"}))
\* every operation accepts something and, but for the ones that cannot fail, refuses something
Ops == {c.op : c \in Chosen0}
Verdicts == TLCEval([op \in Ops |-> {V(c) : c \in {d \in Chosen0 : d.op = op}}])
ASSUME \A op \in Ops : {"yes", "no"} \subseteq Verdicts[op]
=============================================================================
