--------------------------------- MODULE SymText ---------------------------------
(***************************************************************************)
(* Texts as sequences of character codes: dependence of a matrix of        *)
(* expressions on the time variable, substitution of a variable (P27).     *)
(* A name is a maximal run of word characters.                             *)
(***************************************************************************)
EXTENDS Pages
Word(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c = 95 \/ c >= 192
EndOf(s, i) == CHOOSE j \in i..Len(s) : (\A k \in i..j : Word(s[k])) /\ (j = Len(s) \/ ~Word(s[j + 1]))
Starts(s) == { i \in 1..Len(s) : Word(s[i]) /\ (i = 1 \/ ~Word(s[i - 1])) }
\* the whole name that starts at i is nm
IsName(s, i, nm) == SubSeq(s, i, EndOf(s, i)) = nm
Occurs(s, nm) == \E i \in Starts(s) : IsName(s, i, nm)
RECURSIVE NoBlanks(_)
NoBlanks(s) == IF s = << >> THEN << >> ELSE IF Head(s) = 32 THEN NoBlanks(Tail(s)) ELSE <<Head(s)>> \o NoBlanks(Tail(s))
\* every occurrence of the name nm replaced by the text w in parentheses
RECURSIVE SubFrom(_, _, _, _)
SubFrom(s, i, nm, w) ==
  IF i > Len(s) THEN << >>
  ELSE IF Word(s[i]) THEN LET j == EndOf(s, i) IN (IF SubSeq(s, i, j) = nm THEN <<40>> \o w \o <<41>> ELSE SubSeq(s, i, j)) \o SubFrom(s, j + 1, nm, w)
  ELSE <<s[i]>> \o SubFrom(s, i + 1, nm, w)
Subst(s, nm, w) == SubFrom(NoBlanks(s), 1, nm, w)
\* the number written by a decimal text
Digit(c) == c \in 48..57
RECURSIVE WholePart(_, _), FracPart(_, _)
WholePart(s, acc) == IF s = << >> \/ ~Digit(Head(s)) THEN <<acc, s>> ELSE WholePart(Tail(s), FAdd(FTimes(10, acc), FInt(Head(s) - 48)))
FracPart(s, unit) == IF s = << >> \/ ~Digit(Head(s)) THEN <<Zero, s>>
                     ELSE LET u == FDivInt(unit, 10)  r == FracPart(Tail(s), u) IN <<FAdd(FTimes(Head(s) - 48, u), r[1]), r[2]>>
Unsigned(s) == LET w == WholePart(s, Zero) IN
  IF w[2] = << >> THEN w ELSE IF Head(w[2]) /= 46 THEN <<Zero, <<0>>>> ELSE LET f == FracPart(Tail(w[2]), One) IN <<FAdd(w[1], f[1]), f[2]>>
Number(s) == IF s # << >> /\ Head(s) = 45 THEN LET u == Unsigned(Tail(s)) IN <<FNeg(u[1]), u[2]>> ELSE Unsigned(s)
\* up to the last of the twelve decimals kept here
Denotes(s, x) == s # << >> /\ LET u == Number(s) IN u[2] = << >> /\ FNear(u[1], x, <<3, 0, 0, 0, 0, 0>>)
TimeName(e) == IF e.disc THEN <<107>> ELSE <<116>>      \* k, t
\* items: [num |-> FALSE, s |-> codes] or [num |-> TRUE, x |-> value]
JudgeDep(e) ==
  Ok(e, RC(e.ans <=> \E k \in 1..Len(e.items) : ~e.items[k].num /\ Occurs(e.items[k].s, TimeName(e)), "dependence: wrong answer"))
Wanted(it, nm, w, out) == IF it.num THEN Denotes(out, it.x) ELSE out = Subst(it.s, nm, w)
JudgeSub(e) ==
  IF e.bad THEN RC(LibErr(e), "substitution: wrong arguments were not refused")
  ELSE Ok(e, RC(e.sh = e.ash, "substitution: wrong shape")
             \cup RC(Len(e.outs) = Len(e.items) /\ \A k \in 1..Len(e.items) : Wanted(e.items[k], e.from, e.to, e.outs[k]), "substitution: wrong text"))
\* the value of the substituted text is the value of the text at the value of the replacement
JudgeComp(e) ==
  Ok(e, RC(Len(e.vals) = Len(e.t) /\ \A k \in 1..Len(e.t) : Fin(e.vals[k]) /\ FClose(e.vals[k], Value(e.f, Value(e.g, e.t[k])), E8), "substitution: the value is not the composed value")
        \cup RC(e.dep = (Depends(e.f) /\ Depends(e.g)) /\ e.depf = Depends(e.f), "dependence: wrong answer"))
JudgeText(e) == CASE e.op = "dep" -> JudgeDep(e) [] e.op = "sub" -> JudgeSub(e) [] e.op = "comp" -> JudgeComp(e)
=============================================================================
