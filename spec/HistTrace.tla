------------------------------ MODULE HistTrace ------------------------------
(***************************************************************************)
(* Conformance of the real history functions and ftnexpire with            *)
(* History.tla: rounds of writing, expiring and looking up; and expiries   *)
(* killed, or failing, at any of their operations on the history.          *)
(* txt: the lines of the text as [key, val, time, ok]; keys: all of the    *)
(* scenario, looked up after every step (found: the value, "" not there).  *)
(***************************************************************************)
EXTENDS History, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, txt, idx
Tr == Data[t]
R == Tr.steps[i]
Say(what, exp) ==
  PrintT(<<"MISMATCH", ToJson([t |-> t, i |-> i, what |-> what, exp |-> exp, got |-> R])>>)
Chk(ok, what, exp) == IF ok THEN TRUE ELSE Say(what, exp) /\ FALSE
All(s) == \A k \in 1..Len(s) : s[k]
KeysOf(x) == {x[n].key : n \in 1..Len(x)}
Good(x) == SelectSeq(x, LAMBDA e : e.ok)
Vals(x, k) == {x[n].val : n \in {n \in 1..Len(x) : x[n].key = k}}
FoundNow == {Tr.keys[n] : n \in {n \in 1..Len(Tr.keys) : R.found[n] # ""}}
ValsOK(x) == \A n \in 1..Len(Tr.keys) : R.found[n] \in {"", "1"} \/ R.found[n] \in Vals(x, Tr.keys[n])
Young(x) == Keep(Good(x), R.cut)
Lookup(x, ks) == All(<<Chk(FoundNow = ks, "found", [missing |-> ks \ FoundNow, extra |-> FoundNow \ ks]), Chk(ValsOK(x), "value", x)>>)
Step ==
  CASE R.k = "write" ->
         LET x == txt \o R.ents
             ks == IF R.crash THEN idx ELSE idx \cup KeysOf(R.ents)
         IN /\ All(<<Chk(R.txt = x, "text", x), Lookup(x, ks)>>)
            /\ txt' = x /\ idx' = ks
    [] R.k = "junk" -> txt' = R.txt /\ idx' = idx
    [] R.k = "expire" ->
         LET x == Young(txt)
         IN /\ All(<<Chk(R.rc = 0, "rc", 0), Chk(R.txt = x, "text", x), Lookup(x, KeysOf(x)), Chk(R.stray = <<>>, "stray", <<>>)>>)
            /\ txt' = x /\ idx' = KeysOf(x)
    [] R.k = "race" ->                   \* a tosser with R.ents, and an expiry; R.rc[1]: the tosser gave up waiting
         LET add(x) == x \o SelectSeq(R.ents, LAMBDA e : e.key \notin KeysOf(x))
             ends == {add(Young(txt)), Young(add(txt))} \cup (IF R.rc[1] # 0 THEN {Young(txt)} ELSE {})
         IN /\ All(<<Chk(R.rc[2] = 0, "rc", 0), Chk(R.txt \in ends, "order", ends), Lookup(R.txt, KeysOf(R.txt)), Chk(R.stray = <<>>, "stray", <<>>)>>)
            /\ UNCHANGED <<txt, idx>>
    [] R.k \in {"kill", "fault"} ->      \* each from the same start, txt and idx
         LET x == Young(txt)
             safe == {e \in KeysOf(x) : e \in idx}
             done == R.txt = x /\ FoundNow = KeysOf(x)
         IN /\ All(<<Chk(R.txt = txt \/ R.txt = x, "text", {txt, x}),
                     Chk(safe \subseteq FoundNow, "forgotten", safe \ FoundNow),
                     Chk(R.k = "fault" /\ R.rc = 0 => done, "unnoticed", x),
                     Chk(R.again, "again", TRUE)>>)
            /\ UNCHANGED <<txt, idx>>
Init == t \in 1..Len(Data) /\ i = 1 /\ txt = <<>> /\ idx = {}
Next ==
  /\ i <= Len(Tr.steps)
  /\ Step
  /\ (i = Len(Tr.steps) => PrintT(<<"DONE", ToJson(t)>>))
  /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, i, txt, idx>>
=============================================================================
