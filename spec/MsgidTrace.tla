----------------------------- MODULE MsgidTrace -----------------------------
(***************************************************************************)
(* Identifiers converted by the real code (shim/addrdrv.c) against         *)
(* Msgid.tla. Every call carries the table of CRCs it may need.            *)
(***************************************************************************)
EXTENDS Msgid, Json, IOUtils
VARIABLES t, i
Data == JsonDeserialize(IOEnv.TRACE)
Tr == Data[t]
K == Tr.conf
TableSerial(text, add) ==
  LET P(e) == e.text = text /\ e.add = add
  IN First(Tr.crc, P, [text |-> "", add |-> 0, hex |-> "<unknown>"]).hex
Expected(c) ==
  CASE c.op = "R2F" -> FromRfc(K, c.line, c)
    [] c.op = "F2R" -> FromFtn(K, c.text)
    [] c.op = "BACK" -> IF IsRfc(Origin(c.text)) THEN c.got ELSE [id |-> c.text, own |-> FALSE]
    [] c.op = "ORIG" -> [id |-> Orig(c.text)]
Same(c) == c.got = Expected(c)
Say(c) == PrintT(<<"MISMATCH", ToJson([t |-> t, i |-> i, op |-> c.op, call |-> c, exp |-> Expected(c)])>>)
Init == t \in 1..Len(Data) /\ i = 1
Next == /\ i <= Len(Tr.calls)
        /\ i' = i + 1 /\ t' = t
        /\ \A c \in {Tr.calls[i]} : IF Same(c) THEN TRUE ELSE Say(c)
        /\ i = Len(Tr.calls) => PrintT(<<"DONE", ToJson(t)>>)
Spec == Init /\ [][Next]_<<t, i>>
=============================================================================
