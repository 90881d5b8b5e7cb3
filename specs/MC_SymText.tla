------------------------------- MODULE MC_SymText -------------------------------
(***************************************************************************)
(* All texts of at most four of the characters t x + _ blank (: laws of    *)
(* the scanner, and each text tried on the real functions.                 *)
(***************************************************************************)
EXTENDS SymText, Json, IOUtils, SequencesExt
Chars == {116, 120, 43, 95, 32}
Texts == UNION {[1..n -> Chars] : n \in 1..4} \cup {<<40>> \o s \o <<41>> : s \in [1..2 -> Chars]} \cup {<<49>> \o s \o <<50>> : s \in [1..2 -> Chars]}
tName == <<116>>
Cases == {[s |-> s, from |-> f, to |-> w] : s \in Texts, f \in {<<116>>, <<116, 120>>}, w \in {<<116, 43, 120>>}} \cup {[s |-> s, from |-> <<120>>, to |-> <<50>>] : s \in Texts}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE case
Init == case \in Cases
Next == UNCHANGED case
S == NoBlanks(case.s)
\* nothing changes exactly when the name does not occur
Fixed == (Subst(S, case.from, case.to) = S) <=> ~Occurs(S, case.from)
\* a name that is not in the replacement disappears
Gone == ~Occurs(case.to, case.from) => ~Occurs(Subst(S, case.from, case.to), case.from)
\* other names stay
Others == \A nm \in {<<116>>, <<120>>, <<116, 120>>} : nm /= case.from => (Occurs(S, nm) => Occurs(Subst(S, case.from, case.to), nm))
\* substituting back a fresh name gives the text up to parentheses
RECURSIVE Bare(_)
Bare(s) == IF s = << >> THEN << >> ELSE IF Head(s) \in {40, 41} THEN Bare(Tail(s)) ELSE <<Head(s)>> \o Bare(Tail(s))
Back == LET z == <<122>> IN Bare(Subst(Subst(S, case.from, z), z, case.from)) = Bare(S)
\* the length grows by the same amount for every occurrence
Count == Len(Subst(S, case.from, case.to)) = Len(S) + Cardinality({i \in Starts(S) : IsName(S, i, case.from)}) * (Len(case.to) + 2 - Len(case.from))
=============================================================================
