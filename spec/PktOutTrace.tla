----------------------------- MODULE PktOutTrace -----------------------------
(***************************************************************************)
(* Conformance of the real output packet functions, and of the programs    *)
(* using them, with Outpkt.tla, under schedules, kills and faults.         *)
(* k = "run": calls of outpkt_open and outpkt_close by one or two          *)
(*    processes: procs <<[ev, dead]>>, faulted; files: what is there       *)
(*    afterwards (whole: a well formed packet; same: as it was before).    *)
(* k = "prog": one program: files; rc; how "plain", "kill", "fault" or     *)
(*    "signal"; kept: the messages still whole in some packet, input or    *)
(*    temporary file; all: those of the input, each a string.              *)
(* k = "limit": packets by the same program under two limits.              *)
(***************************************************************************)
EXTENDS Outpkt, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, i
Tr == Data[t]
R == Tr.steps[i]
Say(what, exp) ==
  PrintT(<<"MISMATCH", ToJson([t |-> t, i |-> i, what |-> what, exp |-> exp, got |-> R])>>)
Chk(ok, what, exp) == IF ok THEN TRUE ELSE Say(what, exp) /\ FALSE
All(s) == \A k \in 1..Len(s) : s[k]
F == {R.files[n] : n \in 1..Len(R.files)}
Pkts == {f \in F : f.st = "pkt"}
New == {f \in Pkts : ~f.old}
Files ==
  All(<<Chk(\A f \in Pkts : f.whole, "complete", {f.name : f \in {f \in Pkts : ~f.whole}}),
        Chk(\A n \in 1..Len(Tr.old) : \E f \in F : f.name = Tr.old[n] /\ f.same, "overwritten", Tr.old)>>)
Procs == 1..Len(R.procs)
DueBy(p) == Due(R.procs[p].ev)
Of(f, d) == f.key = d.key /\ f.ids = d.ids
RunOK ==
  LET sure == UNION {DueBy(p).sure : p \in Procs}
      more == UNION {DueBy(p).maybe \cup (IF R.procs[p].dead THEN Cut(DueBy(p).cur) ELSE {}) : p \in Procs}
      good == ~R.faulted /\ \A p \in Procs : ~R.procs[p].dead
  IN /\ Files
     /\ All(<<Chk(\A f \in New : f.whole => \E d \in sure \cup more : Of(f, d), "undue", [sure |-> sure, maybe |-> more]),
              Chk(\A d \in sure : \E f \in New : Of(f, d), "missing", sure),
              Chk(\A f \in New : \A g \in New : f # g => \A x \in 1..Len(f.ids) : \A y \in 1..Len(g.ids) : f.ids[x] # g.ids[y], "twice", {}),
              Chk(\A f \in New : f.named, "name", {f.name : f \in New}),
              Chk(good => \A p \in Procs : \A x \in 1..Len(R.procs[p].ev) : R.procs[p].ev[x].ok, "failed", R.procs),
              Chk(good => \A p \in Procs : DueBy(p).cur = <<>> /\ R.procs[p].all, "stopped", R.procs),
              Chk(good => \A f \in F \ Pkts : f.old, "stray", {f.name : f \in F \ Pkts})>>)
Bag(s) == [x \in {s[n] : n \in 1..Len(s)} |-> Cardinality({n \in 1..Len(s) : s[n] = x})]
ProgOK ==
  /\ Files
  /\ All(<<Chk(\A n \in 1..Len(R.all) : R.all[n] \in {R.kept[x] : x \in 1..Len(R.kept)}, "lost", R.all),
           Chk(R.how \in {"plain", "signal"} => F = Pkts, "stray", {f.name : f \in F \ Pkts}),
           Chk(R.how = "plain" => R.rc = 0, "rc", 0),
           Chk(R.how = "fault" /\ R.rc = 0 => R.out, "unnoticed", TRUE)>>)
Step ==
  CASE R.k = "run" -> RunOK
    [] R.k = "prog" -> ProgOK
    [] R.k = "limit" -> Chk(Bag(R.a) = Bag(R.b), "limit", R.a)
Init == t \in 1..Len(Data) /\ i = 1
Next ==
  /\ i <= Len(Tr.steps)
  /\ Step
  /\ (i = Len(Tr.steps) => PrintT(<<"DONE", ToJson(t)>>))
  /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, i>>
=============================================================================
