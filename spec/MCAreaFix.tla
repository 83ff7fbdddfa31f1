------------------------------ MODULE MCAreaFix ------------------------------
(***************************************************************************)
(* Areafix at a small node, day after day: two nodes with different rights *)
(* write to it, with and without the password, the uplink sends traffic or *)
(* does not, ftnafutil is run. view: the areas the uplink takes us to be   *)
(* connected to, from the requests it got.                                 *)
(***************************************************************************)
EXTENDS AreaFix, FiniteSets
CONSTANTS MaxDay, WithNew
A == <<2, 4500, 2, 0>>
B == <<2, 4500, 3, 0>>
U == <<2, 5020, 100, 0>>
VARIABLES tab, view, day, last
vars == <<tab, view, day, last>>
Cfg ==
  [af |-> TRUE, ctx |-> "af", robot |-> "Areafix", fixname |-> "", onlyplus |-> FALSE, ignoreprl |-> FALSE,
   badchars |-> "", forbid |-> <<>>, autosub |-> <<>>, fechopath |-> "", hashelp |-> FALSE, help |-> <<>>,
   availall |-> FALSE, fstatus |-> FALSE, akas |-> <<<<2, 4500, 1, 0>>>>, addr |-> <<>>, num |-> <<>>,
   reqtmo |-> 1, traftmo |-> 2, now |-> 86400 * day,
   passwd |-> <<[ctx |-> "af", node |-> A, pw |-> "SESAM", lvl |-> 5, key |-> "K&~", g |-> 2, a |-> -1],
                [ctx |-> "af", node |-> B, pw |-> "OTHER", lvl |-> 1, key |-> "", g |-> -1, a |-> -1]>>,
   uplinks |-> <<[af |-> TRUE, node |-> U, robot |-> "AreaFix", pw |-> "UPW", opts |-> <<"-#">>,
                  items |-> <<[file |-> FALSE, neg |-> FALSE, pat |-> "Y"]>>]>>]
Area(n, lvl, key, pass) ==
  [dir |-> "-", name |-> n, pass |-> pass, ro |-> FALSE, aka |-> NoNode, lvl |-> lvl, key |-> key, haskey |-> key # "",
   time |-> 86400, en |-> 0, et |-> 0, desc |-> "", hasdesc |-> FALSE, st |-> "S", hasst |-> TRUE, up |-> 1,
   zone |-> 2, passive |-> <<>>, nodes |-> <<U, B>>]
L(sign, word, arg) == [raw |-> sign \o word \o arg, blank |-> FALSE, pct |-> sign = "", sign |-> sign, word |-> word,
                       plain |-> word, arg |-> arg, full |-> arg, ws |-> IF arg = "" THEN <<>> ELSE <<arg>>, pws |-> <<>>]
Lines1 == {L("+", "", "X"), L("+", "", "Z"), L("+", "", "Y"), L("-", "", "X"), L("-", "", "*"),
           L("", "passive", ""), L("", "active", ""), L("~", "", "Z")} \cup (IF WithNew THEN {L("+", "", "*")} ELSE {})
Nodes == {A, B}
(* requests as the uplink understands them *)
RECURSIVE Told(_, _)
Told(v, rs) ==
  IF rs = <<>> THEN v
  ELSE LET x == SubSeq(rs[1].text, 2, Len(rs[1].text))
       IN Told(IF rs[1].to # U \/ rs[1].name # "AreaFix" THEN v
               ELSE IF Ch(rs[1].text, 1) = "+" THEN v \cup {x} ELSE v \ {x}, Tail(rs))
Apply(S, what) ==
  /\ tab' = (IF S.chg THEN Rewritten(S.tab) ELSE tab)
  /\ view' = Told(view, S.req)
  /\ last' = [what EXCEPT !.req = S.req]
  /\ UNCHANGED day
No == [k |-> "none", node |-> NoNode, ok |-> FALSE, sign |-> "", arg |-> "", req |-> <<>>]
Write(n, pw, l) ==
  LET S == Mail(Cfg, Begin(tab, NoNode), [node |-> n, name |-> "x", subj |-> IF pw = "" THEN <<>> ELSE <<pw>>, lines |-> <<l>>])
  IN Apply(S, [No EXCEPT !.k = "mail", !.node = n, !.ok = \E p \in {Cfg.passwd[i] : i \in 1..2} : p.node = n /\ p.pw = pw,
                         !.sign = l.sign, !.arg = l.arg])
Maintain(cmd) == Apply(Util(Cfg, tab, cmd), [No EXCEPT !.k = cmd])
Traffic(i) ==
  /\ i <= Len(tab) /\ tab[i].name \in view
  /\ tab' = [tab EXCEPT ![i] = [(IF Asked(tab[i]) THEN ChState(tab[i], {"W", "F"}, "S") ELSE tab[i]) EXCEPT !.time = Cfg.now]]
  /\ last' = [No EXCEPT !.k = "traffic"]
  /\ UNCHANGED <<view, day>>
NextDay == day < MaxDay /\ day' = day + 1 /\ last' = [No EXCEPT !.k = "day"] /\ UNCHANGED <<tab, view>>
Init ==
  /\ tab = <<Area("X", -1, "", TRUE), Area("Z", 3, "K", TRUE)>>
  /\ view = {"X", "Z"} /\ day = 1 /\ last = No
Next ==
  \/ \E n \in Nodes, l \in Lines1 : Write(n, IF n = A THEN "SESAM" ELSE "OTHER", l)
  \/ \E n \in Nodes, l \in Lines1 : Write(n, IF n = B THEN "SESAM" ELSE "", l)
  \/ \E c \in {"expire", "delete", "unresubscribe"} : Maintain(c)
  \/ \E i \in 1..3 : Traffic(i)
  \/ NextDay
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Of(t, name) == First(t, LAMBDA a : a.name = name, [name |-> ""])
NamesOf(t) == {t[i].name : i \in 1..Len(t)}
Links(a) == IF a.name = "" THEN {} ELSE {a.nodes[k] : k \in 1..Len(a.nodes)} \cup {a.passive[k] : k \in 1..Len(a.passive)}
Active(a) == IF a.name = "" THEN {} ELSE {a.nodes[k] : k \in 1..Len(a.nodes)}
Unique == \A i, j \in 1..Len(tab) : tab[i].name = tab[j].name => i = j
Stable == Rewritten(Rewritten(tab)) = Rewritten(tab)
(* what the table says of the uplink is what the uplink was told *)
InStep == \A i \in 1..Len(tab) :
            /\ Asked(tab[i]) => tab[i].name \in view
            /\ (HasSt(tab[i], "U") \/ HasSt(tab[i], "P")) => tab[i].name \notin view
(* an area somebody takes is asked for *)
Served == \A i \in 1..Len(tab) : Active(tab[i]) \ {U} # {} => Asked(tab[i])
(* rights *)
Rights == [][last'.k = "mail" =>
  /\ (~last'.ok => tab' = tab /\ view' = view)
  /\ (last'.node = B => NamesOf(tab') \ NamesOf(tab) = {} /\ B \notin Links(Of(tab', "Z")) \ Links(Of(tab, "Z")))
  /\ (NamesOf(tab) \ NamesOf(tab') # {} => last'.node = A /\ last'.sign \in {"~", "-"})
  /\ \A x \in NamesOf(tab) \cap NamesOf(tab') :
        /\ Links(Of(tab', x)) \ {last'.node} = Links(Of(tab, x)) \ {last'.node}
        /\ Active(Of(tab', x)) \ {last'.node} = Active(Of(tab, x)) \ {last'.node}
  /\ (\E x \in NamesOf(tab') : A \in Links(Of(tab', x)) \ Links(Of(tab, x))) =>
        Cardinality({x \in NamesOf(tab') : A \in Links(Of(tab', x))}) <= 2]_vars
(* requests go out with changes of what is wanted, one for one *)
Asking == [][\A x \in {"X", "Y", "Z"} :
  LET k == Len(SelectSeq(last'.req, LAMBDA r : r.to = U /\ r.text \in {"+" \o x, "-" \o x}))
  IN last'.k \in {"mail", "expire"} => k <= 1 /\ ((x \in view) # (x \in view') => k = 1)]_vars
(* rules broken on purpose *)
AnyRight(S, right) == TRUE
NoLevel(S, a) == TRUE
Counting(S, n) == Cardinality({i \in 1..Len(S.tab) : Len(S.tab[i].nodes) > 1 /\ (Linked(S.tab[i], n) \/ Passive(S.tab[i], n))})
Silent(C, S, u, to, sign, area) ==
  IF sign = "-" THEN S
  ELSE [S EXCEPT !.req = Append(@, [to |-> to, name |-> u.robot, from |-> FixName(C), subj |-> u.pw, text |-> sign \o area])]
State == <<tab, view, day>>
=============================================================================
