------------------------------- MODULE Msgid -------------------------------
(***************************************************************************)
(* Message identifiers (src/common/msgid.c): the FTN MSGID/REPLY of an RFC *)
(* Message-ID and the RFC Message-ID of an FTN MSGID. The CRC is not       *)
(* computed here: Serial(text, add) is the 8 digit number of a text, plus  *)
(* the number of the part.                                                 *)
(***************************************************************************)
EXTENDS Inet
CONSTANT Serial(_, _)
None == "-"

(* ---- text ------------------------------------------------------------- *)
RECURSIVE FirstAt(_, _, _), LastAt(_, _, _)
FirstAt(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Chr(s, i) = c THEN i ELSE FirstAt(s, c, i + 1)
LastAt(s, c, i) == IF i < 1 THEN 0 ELSE IF Chr(s, i) = c THEN i ELSE LastAt(s, c, i - 1)
Begins(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HexCode == [x \in {" "} |-> "_"] @@
  ("(" :> "=28" @@ ")" :> "=29" @@ "<" :> "=3C" @@ ">" :> "=3E" @@ "@" :> "=40" @@ "," :> "=2C"
   @@ ";" :> "=3B" @@ ":" :> "=3A" @@ "\\" :> "=5C" @@ "\"" :> "=22" @@ "[" :> "=5B" @@ "]" :> "=5D"
   @@ "/" :> "=2F" @@ "=" :> "=3D" @@ "_" :> "=5F")
CodeHex == [x \in {HexCode[c] : c \in DOMAIN HexCode \ {" "}} |->
            CHOOSE c \in DOMAIN HexCode : HexCode[c] = x]
RECURSIVE Quote(_), Dequote(_)
Quote(s) == IF s = "" THEN ""
            ELSE (IF Chr(s, 1) \in DOMAIN HexCode THEN HexCode[Chr(s, 1)] ELSE Chr(s, 1)) \o Quote(From(s, 2))
Dequote(s) ==
  IF s = "" THEN ""
  ELSE IF Chr(s, 1) = "_" THEN " " \o Dequote(From(s, 2))
  ELSE IF Len(s) >= 3 /\ SubSeq(s, 1, 3) \in DOMAIN CodeHex
       THEN CodeHex[SubSeq(s, 1, 3)] \o Dequote(From(s, 4))
  ELSE Chr(s, 1) \o Dequote(From(s, 2))
RECURSIVE Doubled(_)
Doubled(s) == IF s = "" THEN ""
              ELSE (IF Chr(s, 1) = "\"" THEN "\"\"" ELSE Chr(s, 1)) \o Doubled(From(s, 2))
Fts9(s) == IF FirstAt(s, " ", 1) = 0 /\ FirstAt(s, "\"", 1) = 0 THEN s ELSE "\"" \o Doubled(s) \o "\""
Hex == {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f","A","B","C","D","E","F"}
AllHex(s) == \A i \in 1..Len(s) : Chr(s, i) \in Hex
RECURSIVE Pad8(_)
Pad8(s) == IF Len(s) >= 8 THEN s ELSE Pad8("0" \o s)
Print0(a, dom) == ToString(a[1]) \o ":" \o ToString(a[2]) \o "/" \o ToString(a[3]) \o "." \o ToString(a[4])
                  \o (IF dom = "" THEN "" ELSE "@" \o dom)

(* ---- RFC to FTN: [id, own]; own: the serial number is of our making ---- *)
(* o: [part, area, reply, split, m, nofido]                                 *)
FromRfc(K, line, o) ==
  LET l == LastAt(line, "<", Len(line))
      at == IF l = 0 THEN 0 ELSE FirstAt(line, "@", l + 1)
      g == IF at = 0 THEN 0 ELSE FirstAt(line, ">", at + 1)
      id == SubSeq(line, l + 1, at - 1)
      host == SubSeq(line, at + 1, g - 1)
      pc == FirstAt(id, "%", 1)
      num == IF pc = 0 THEN id ELSE SubSeq(id, 1, pc - 1)
      old == Len(num) \in 1..8 /\ AllHex(num) /\ Chr(num, 1) # "0"
      a == TLCEval(IF ~o.split /\ old THEN FromInet(K, host) ELSE NoNode)
      g1 == FirstAt(line, ">", l + 1)
      whole == SubSeq(line, l, g1)
      ser == Serial(whole \o o.area, IF o.split THEN o.part - 1 ELSE 0)
  IN IF g = 0 THEN [id |-> None, own |-> TRUE]
     ELSE IF Begins(id, "funpack") \/ Begins(id, "NOMSGID_") THEN [id |-> None, own |-> TRUE]
     ELSE IF a # NoNode
     THEN [id |-> Print0(a, IF pc = 0 THEN "" ELSE From(id, pc + 1)) \o " " \o Pad8(num), own |-> FALSE]
     ELSE IF Begins(id, "MSGID_") THEN [id |-> Dequote(From(id, 7)), own |-> FALSE]
     ELSE [id |-> (IF o.nofido /\ ~o.m THEN Fts9(whole) \o " "
                   ELSE IF o.reply THEN whole \o " " ELSE "") \o ser, own |-> TRUE]

(* ---- FTN to RFC: [id, zone]; zone -2: it was an RFC id, -1: no address -- *)
RECURSIVE Unquoted(_, _)        \* from position i: the text up to the closing quote
Unquoted(s, i) ==
  IF i > Len(s) THEN ""
  ELSE IF Chr(s, i) = "\""
       THEN (IF i < Len(s) /\ Chr(s, i + 1) = "\"" THEN "\"" \o Unquoted(s, i + 2) ELSE "")
  ELSE Chr(s, i) \o Unquoted(s, i + 1)
Origin(s) ==
  IF s # "" /\ Chr(s, 1) = "\"" THEN Unquoted(s, 2)
  ELSE LET sp == FirstAt(s, " ", 1) IN IF sp = 0 THEN s ELSE SubSeq(s, 1, sp - 1)
RECURSIVE FirstDigit(_, _), Run(_, _)
FirstDigit(s, i) == IF i > Len(s) THEN i ELSE IF IsDigit(Chr(s, i)) THEN i ELSE FirstDigit(s, i + 1)
Run(s, i) == IF i > Len(s) \/ (~IsDigit(Chr(s, i)) /\ Chr(s, i) \notin {":", "/", "."}) THEN i ELSE Run(s, i + 1)
IsRfc(s) == LET at == FirstAt(s, "@", 2)
            IN Len(s) >= 3 /\ Chr(s, 1) = "<" /\ Chr(s, Len(s)) = ">" /\ at # 0 /\ at < Len(s)
IdDomain(K, z) ==
  LET d == IF z \in 1..6 THEN "fidonet.org" ELSE ZoneDom(K, z)
  IN IF Chr(d, 1) = "." THEN From(d, 2) ELSE d
FromFtn(K, s) ==
  LET o == Origin(s)
      p == FirstDigit(o, 1)
      a == TLCEval(Asc(K, SubSeq(o, p, Run(o, p) - 1), TRUE))
  IN IF IsRfc(o) THEN [id |-> o, zone |-> -2]
     ELSE [id |-> "<MSGID_" \o Quote(s) \o "@" \o IdDomain(K, IF a = NoNode THEN K.defzone ELSE a[1]) \o ">",
           zone |-> IF a = NoNode THEN -1 ELSE a[1]]

(* ---- ORIGID lines ------------------------------------------------------ *)
Orig(s) ==
  LET g == LastAt(s, ">", Len(s))
      cut == IF g = 0 THEN "" ELSE IF g < Len(s) /\ Chr(s, g + 1) = " " THEN SubSeq(s, 1, g) ELSE s
  IN IF g = 0 \/ FirstAt(cut, " ", 1) # 0 THEN None ELSE cut
=============================================================================
