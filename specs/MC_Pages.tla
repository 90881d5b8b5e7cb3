-------------------------------- MODULE MC_Pages --------------------------------
(***************************************************************************)
(* Small stacks and small formulas: the laws of the page algebra and of    *)
(* the evaluation of formulas, and the cases tried on the real functions.  *)
(***************************************************************************)
EXTENDS Pages, Json, IOUtils, SequencesExt
I(S) == {FInt(n) : n \in S}
M2 == {<<<<a, b>>, <<c, d>>>> : a, b, d \in I({-1, 0, 2}), c \in I({0, 2})}
N2 == {<<<<One, FInt(-1)>>, <<Zero, Two>>>>, <<<<Zero, One>>, <<Two, FInt(-1)>>>>}
Stacks == {[op |-> "stack", a |-> <<x>>, b |-> <<y>>] : x \in M2, y \in N2}
          \cup {[op |-> "stack", a |-> <<x, y>>, b |-> <<y, x>>] : x \in M2, y \in N2}
          \cup {[op |-> "stack", a |-> <<x, y, x>>, b |-> <<y, x, y>>] : x \in M2, y \in N2}
T == [k |-> "t"]
Leaf == {T} \cup {[k |-> "c", v |-> FInt(n)] : n \in {2, 3}}
Bin(S, R) == {[k |-> o, a |-> x, b |-> y] : o \in {"add", "sub", "mul"}, x \in S, y \in R}
Un(S) == {[k |-> o, a |-> x] : o \in {"neg", "sin", "cos", "exp", "abs"}, x \in S} \cup {[k |-> "pow", a |-> x, n |-> 2] : x \in S} \cup {[k |-> "div", a |-> x, n |-> 4] : x \in S}
Tree1 == Leaf \cup Bin(Leaf, Leaf) \cup Un(Leaf)
Tree2 == Bin(Tree1, Leaf) \cup Un(Bin(Leaf, Leaf))
Grids == {<<Half>>, <<FInt(-1), Half>>, <<Zero, One, FInt(-1)>>}
Formulas == {[op |-> "tree", f |-> <<<<x>>>>, t |-> g] : x \in Tree1, g \in Grids}
            \cup {[op |-> "tree", f |-> <<<<x, [k |-> "c", v |-> Two]>>>>, t |-> g] : x \in Tree2, g \in {<<Half>>, <<FInt(-1), Half>>}}
            \cup {[op |-> "tree", f |-> <<<<x, T>>, <<y, x>>>>, t |-> <<FInt(-1), Half>>] : x, y \in Leaf \cup Un(Leaf)}
Part == IOEnv.PART
Cases == CASE Part = "algebra" -> Stacks [] Part = "formulas" -> Formulas [] OTHER -> Stacks \cup Formulas
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE case
Init == case \in Cases
Next == UNCHANGED case
\* laws of the algebra on the first pages
Algebra == case.op = "stack" => LET a == case.a[1]  b == case.b[1] IN
  /\ Transp(Mul(a, b)) = Mul(Transp(b), Transp(a))
  /\ Sym(Sym(a)) = Sym(a) /\ Symmetric(Sym(a), Zero)
  /\ MAdd(Upper(a), Transp(Upper(Transp(a)))) = MAdd(a, TLCEval([i \in 1..2 |-> TLCEval([j \in 1..2 |-> IF i = j THEN a[i][i] ELSE Zero])]))
  /\ Cong(b, a) = Mul(Mul(Transp(a), b), a) /\ (Symmetric(b, Zero) => Symmetric(Cong(b, a), Zero))
  /\ \A k \in 1..2 : Quad(b, Col(a, k)) = Cong(b, a)[k][k]
  /\ InvForm(a, Col(b, 1)) = FSub(FMul(a[2][2], FSq(b[1][1])), FSub(FMul(FMul(FAdd(a[1][2], a[2][1]), b[1][1]), b[2][1]), FMul(a[1][1], FSq(b[2][1]))))
\* the repair keeps exactly the positive semidefinite matrices
Repair == case.op = "stack" => LET a == Sym(case.a[1]) IN
  /\ (PSD(a, Zero) <=> Lifted(a, a, Half))
  /\ ~(Positive(a) /\ Negative(a))
\* formulas: the series obey the identities, constants do not depend on time
Series0 == case.op = "tree" => \A k \in 1..Len(case.t) : LET t == case.t[k]  v == Value(case.f[1][1], t) IN
  /\ (FLe(FAbs(v), FInt(6)) => LET s == FSin(v)  c == FCos(v) IN
        FNear(FAdd(FSq(s), FSq(c)), One, E9) /\ FNear(FMul(FExp(v), FExp(FNeg(v))), One, E6))
  /\ (~Depends(case.f[1][1]) => v = Value(case.f[1][1], Zero))
=============================================================================
