--------------------------------- MODULE Common ---------------------------------
(***************************************************************************)
(* Lookup of elements, naming of callers and errors, numeric data (P29).   *)
(* Text is a sequence of character codes.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
RC(cond, why) == IF cond THEN {} ELSE {why}
(* ---------------------------------------------------------------- lookup *)
FirstAt(x, b) == CHOOSE k \in 1..Len(b) : b[k] = x /\ \A j \in 1..(k - 1) : b[j] /= x
In(x, b) == \E k \in 1..Len(b) : b[k] = x
Found(a, b) == TLCEval([k \in 1..Len(a) |-> In(a[k], b)])
\* positions are counted from zero, one for every found element in turn
Places(a, b) == LET s == SelectSeq(a, LAMBDA x : In(x, b)) IN TLCEval([k \in 1..Len(s) |-> FirstAt(s[k], b) - 1])
JudgeMember(e) ==
  IF e.err /= "" THEN {"lookup: unexpected error " \o e.err}
  ELSE RC(e.found = Found(e.a, e.b), "lookup: wrong presence")
       \cup RC(e.at = Places(e.a, e.b), "lookup: wrong position")
       \cup RC(e.fsh = e.ash, "lookup: wrong shape")
       \cup RC(e.kept, "lookup: the arguments were modified")
(* ------------------------------------------------------------ caller names *)
\* frames: innermost first, each [mod, cls, fun] (cls empty outside of methods)
Dot == <<46>>
Colon == <<58>>
Scope(f) == IF f.cls = << >> THEN f.mod ELSE f.mod \o Dot \o f.cls
Full(f) == Scope(f) \o Dot \o f.fun
Up(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Shout(s) == TLCEval([k \in 1..Len(s) |-> IF s[k] = 46 THEN 58 ELSE Up(s[k])])
Message(f, tag, text) == Shout(Full(f)) \o Colon \o tag \o Colon \o text
\* the frame a number of steps up: 1 is the one that asks
JudgeName(e) ==
  IF e.what = "bad" THEN RC(e.err = "text:wrongInput", "caller: an unknown mode was not refused")
  ELSE IF e.err /= "" THEN {"caller: unexpected error " \o e.err}
  ELSE CASE e.what = "beyond" -> RC(e.got = << >> /\ e.scope = << >>, "caller: names beyond the stack are empty")
         [] e.what = "ext" -> RC(e.got = e.frames[e.up].fun /\ e.scope = Scope(e.frames[e.up]), "caller: wrong name")
         [] e.what = "default" -> RC(e.got = Scope(e.frames[e.up]), "caller: wrong module name")
         [] e.what \in {"full", "logger"} -> RC(e.got = Full(e.frames[e.up]), "caller: wrong full name")
JudgeThrow(e) ==
  IF e.err /= "" THEN {"error: unexpected error " \o e.err}
  ELSE RC(e.raised = (e.mode = "throw"), "error: raised exactly on demand")
       \cup RC(e.type = (IF e.mode = "warn" THEN "RuntimeWarning" ELSE "ValueError"), "error: wrong kind")
       \cup RC(e.text = Message(e.frames[e.up], e.tag, e.say), "error: wrong text")
(* ----------------------------------------------------------- numeric data *)
Numeric == {"bool", "int", "uint", "float", "complex"}
JudgeNumeric(e) == IF e.err /= "" THEN {"numeric: unexpected error " \o e.err}
                   ELSE RC(e.ans = (e.kind \in Numeric), "numeric: wrong answer")
Judge(e) == CASE e.op = "member" -> JudgeMember(e) [] e.op = "name" -> JudgeName(e)
              [] e.op = "throw" -> JudgeThrow(e) [] e.op = "numeric" -> JudgeNumeric(e)
=============================================================================
