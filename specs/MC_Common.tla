------------------------------- MODULE MC_Common -------------------------------
(***************************************************************************)
(* Every lookup in short sequences over three values; every chain of three *)
(* callers.                                                                *)
(***************************************************************************)
EXTENDS Common, Json, IOUtils, SequencesExt
Short(n) == UNION {[1..k -> 1..3] : k \in 0..n}
Frames == {[mod |-> m, cls |-> c, fun |-> f] : m \in {<<97, 46, 98>>, <<65>>}, c \in {<< >>, <<67, 100>>}, f \in {<<102>>, <<71>>}}
Cases == {[op |-> "member", a |-> a, b |-> b] : a \in Short(3), b \in Short(4)}
Names == {[op |-> "throw", frames |-> f, up |-> u] : f \in [1..3 -> Frames], u \in 1..3}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE case
Init == case \in Cases \cup Names
Next == UNCHANGED case
Positions == case.op = "member" =>
  LET f == Found(case.a, case.b)  p == Places(case.a, case.b)
      idx == SelectSeq([k \in 1..Len(case.a) |-> k], LAMBDA k : f[k]) IN
  /\ Len(p) = Cardinality({k \in 1..Len(f) : f[k]})
  /\ \A k \in 1..Len(p) : case.b[p[k] + 1] = case.a[idx[k]]
  /\ \A k \in 1..Len(f) : f[k] \/ \A j \in 1..Len(case.b) : case.b[j] /= case.a[k]
Self == case.op = "member" => (\A k \in 1..Len(case.a) : Found(case.a, case.a)[k])
\* the text of an error is taken apart again: the name has no lower case letter and no dot
Texts == case.op = "throw" =>
  LET m == Message(case.frames[case.up], <<116>>, <<46, 97>>) IN
  /\ SubSeq(m, Len(m) - 4, Len(m)) = Colon \o <<116>> \o Colon \o <<46, 97>>
  /\ \A k \in 1..(Len(m) - 5) : m[k] /= 46 /\ Up(m[k]) = m[k]
=============================================================================
