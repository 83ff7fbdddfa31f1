----------------------------- MODULE RewriteTrace -----------------------------
(***************************************************************************)
(* Conformance of the replacement of a table by the real programs, killed  *)
(* or failing at any of their operations on it, with Rewrite.tla. Contents *)
(* are 1: the table before, 2: the new table, 11..15: the backups before,  *)
(* 0: no file, 99: none of these.                                          *)
(***************************************************************************)
EXTENDS Rewrite, FiniteSets, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, i
Tr == Data[t]
R == Tr.runs[i]
Say(what, exp) ==
  PrintT(<<"MISMATCH", ToJson([t |-> t, i |-> i, what |-> what, exp |-> exp, got |-> R])>>)
Chk(ok, what, exp) == IF ok THEN TRUE ELSE Say(what, exp) /\ FALSE
All(s) == \A k \in 1..Len(s) : s[k]
F0 == [n \in FileNames |-> CASE n = "bbs" -> 1 [] n = "new" -> 0
                             [] OTHER -> Tr.backups[n]]
Seen == [n \in FileNames |-> IF n = "new" THEN 0 ELSE R.files[n]]
Old(f) == [f EXCEPT !["new"] = 0]
Killed == {Old(AfterSteps(F0, k, 2)) : k \in 0..Len(Steps)}
Age(v) == IF v = 2 THEN 0 ELSE v
Whole == \A n \in FileNames : Seen[n] # 99
InOrder == \A a, b \in 1..N : (a < b /\ Seen[Bak(a)] # 0 /\ Seen[Bak(b)] # 0) => Age(Seen[Bak(a)]) < Age(Seen[Bak(b)])
DoRun ==
  CASE R.how = "full" -> All(<<Chk(Seen = Old(Done(F0, 2)), "replaced", Old(Done(F0, 2))), Chk(R.rc = 0, "rc", 0)>>)
    [] R.how = "kill" -> All(<<Chk(Seen \in Killed, "killed", {f["bbs"] : f \in Killed}), Chk(R.again, "again", TRUE)>>)
    [] R.how = "fault" ->
       All(<<Chk(Seen["bbs"] \in {1, 2} /\ Whole, "whole", {1, 2}),
             Chk(InOrder, "backups", TRUE),
             Chk(Seen["bbs"] = 2 \/ R.noticed, "unnoticed", 2),
             Chk(R.again, "again", TRUE)>>)
Init == t \in 1..Len(Data) /\ i = 1
Next ==
  /\ i <= Len(Tr.runs)
  /\ DoRun
  /\ (i = Len(Tr.runs) => PrintT(<<"DONE", ToJson(t)>>))
  /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, i>>
=============================================================================
