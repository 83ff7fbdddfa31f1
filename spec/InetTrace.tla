----------------------------- MODULE InetTrace -----------------------------
(***************************************************************************)
(* What the real conversion functions answered (shim/addrdrv.c) against    *)
(* Inet.tla. A trace is a configuration and a sequence of calls.           *)
(***************************************************************************)
EXTENDS Inet, Json, IOUtils
VARIABLES t, i, zone           \* the zone the program works in
Data == JsonDeserialize(IOEnv.TRACE)
Tr == Data[t]
C == Tr.conf
NE(x) == x # ""
Expected(c) ==
  CASE c.op = "ZONE" -> c.zone
    [] c.op = "N2I" -> ToInet(C, c.node, c.force)
    [] c.op = "I2N" -> FromInet(C, c.name)
    [] c.op = "ASC" -> Asc(C, c.text, c.keep)
    [] c.op = "RT" -> IF Sane(C) /\ Known(C, c.node) THEN c.node ELSE c.got
    [] c.op = "LIST" ->
         LET as == TLCEval(ReadList(zone, c.tokens))
         IN [nodes |-> as, short |-> SelectSeq(WriteList(as), NE),
             sorted |-> SelectSeq(WriteList(Dedup(Sorted(as))), NE),
             passive |-> SelectSeq(WriteList(Dedup(as)), NE)]
Same(c) == c.got = Expected(c)
Say(c) == PrintT(<<"MISMATCH", ToJson([t |-> t, i |-> i, op |-> c.op, call |-> c, exp |-> Expected(c)])>>)
Init == t \in 1..Len(Data) /\ i = 1 /\ zone = C.defzone
Next == /\ i <= Len(Tr.calls)
        /\ i' = i + 1 /\ t' = t
        /\ zone' = IF Tr.calls[i].op = "ZONE" THEN Tr.calls[i].zone ELSE zone
        /\ \A c \in {Tr.calls[i]} : IF Same(c) THEN TRUE ELSE Say(c)
        /\ i = Len(Tr.calls) => PrintT(<<"DONE", ToJson(t)>>)
Spec == Init /\ [][Next]_<<t, i, zone>>
=============================================================================
