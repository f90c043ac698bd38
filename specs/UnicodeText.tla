---------------------------- MODULE UnicodeText ----------------------------
(* Unicode string lists: the strings stored in a tag (UTF-16, little endian,  *)
(* terminated), the text they are written as and compiled from.  Characters   *)
(* are code points.                                                           *)
EXTENDS Integers, Sequences, Utf8
CR == 13
LF == 10
End == <<35,35,35,69,78,68,45,83,84,82,73,78,71,35,35,35>>          \* ###END-STRING###
-----------------------------------------------------------------------------
(* UTF-16 *)
Units(b, little) == [i \in 1..(Len(b) \div 2) |-> IF little THEN b[2 * i - 1] + (256 * b[2 * i]) ELSE (256 * b[2 * i - 1]) + b[2 * i]]
High(u) == u \in 55296..56319
Low(u) == u \in 56320..57343
Pair(u, i) == High(u[i]) /\ i < Len(u) /\ Low(u[i + 1])
ValidUtf16(u) == \A i \in 1..Len(u) : (High(u[i]) => Pair(u, i)) /\ (Low(u[i]) => i > 1 /\ High(u[i - 1]))
RECURSIVE FromUnits(_, _)
(* an unpaired surrogate becomes U+FFFD *)
FromUnits(u, i) ==
  IF i > Len(u) THEN <<>>
  ELSE IF Pair(u, i) THEN <<65536 + ((u[i] - 55296) * 1024) + (u[i + 1] - 56320)>> \o FromUnits(u, i + 2)
  ELSE <<IF High(u[i]) \/ Low(u[i]) THEN 65533 ELSE u[i]>> \o FromUnits(u, i + 1)
RECURSIVE ToBytes(_)
LOCAL Unit(u) == <<u % 256, u \div 256>>
ToBytes(s) == IF s = <<>> THEN <<>>
              ELSE (IF s[1] >= 65536 THEN Unit(55296 + ((s[1] - 65536) \div 1024)) \o Unit(56320 + ((s[1] - 65536) % 1024)) ELSE Unit(s[1])) \o ToBytes(Tail(s))
-----------------------------------------------------------------------------
(* strings as stored *)
Control(c) == c \in 0..31 \cup {127}
(* lines end in CR LF and no other control characters but tabs are kept *)
RECURSIVE CleanFrom(_, _, _)
CleanFrom(s, i, last) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = LF THEN (IF last = CR THEN <<LF>> ELSE <<CR, LF>>) \o CleanFrom(s, i + 1, LF)
  ELSE IF s[i] = CR THEN IF i < Len(s) /\ s[i + 1] = LF THEN <<CR>> \o CleanFrom(s, i + 1, CR) ELSE CleanFrom(s, i + 1, last)
  ELSE IF Control(s[i]) /\ s[i] # 9 THEN CleanFrom(s, i + 1, last)
  ELSE <<s[i]>> \o CleanFrom(s, i + 1, s[i])
Clean(s) == CleanFrom(s, 1, 0)
RECURSIVE Upto0(_, _)
Upto0(u, i) == IF i > Len(u) \/ u[i] = 0 THEN SubSeq(u, 1, i - 1) ELSE Upto0(u, i + 1)
(* what the stored bytes say, and whether they say it properly *)
Read(b) ==
  IF Len(b) % 2 # 0 \/ b = <<>> THEN [ok |-> FALSE, s |-> <<>>]
  ELSE LET all == Units(b, TRUE)
           term == all[Len(all)] = 0
           body == IF term THEN SubSeq(all, 1, Len(all) - 1) ELSE all
           u == Upto0(body, 1)
           raw == FromUnits(u, 1)
           s == Clean(raw)
       IN [ok |-> term /\ u = body /\ ValidUtf16(u) /\ s = raw, s |-> s]
Stored(s) == ToBytes(Clean(s)) \o <<0, 0>>
-----------------------------------------------------------------------------
(* text files *)
(* a compiled text is <<strings>>, or <<>> if it is refused *)
Refused == <<>>
(* <<characters>>, or <<>> if it is neither UTF-16 with a byte-order mark nor UTF-8 *)
Characters(b) ==
  LET bom == IF Len(b) < 2 \/ Len(b) % 2 # 0 THEN "none" ELSE IF b[1] = 255 /\ b[2] = 254 THEN "little" ELSE IF b[1] = 254 /\ b[2] = 255 THEN "big" ELSE "none"
  IN IF bom = "none" THEN IF ValidUtf8(b) THEN <<DecodeUtf8(b)>> ELSE <<>>
     ELSE LET u == Tail(Units(b, bom = "little")) IN IF ValidUtf16(u) THEN <<FromUnits(u, 1)>> ELSE <<>>
RECURSIVE LinesFrom(_, _, _)
(* lines end in LF or CR LF; what follows the last one is a line if there is anything *)
LinesFrom(s, i, cur) ==
  IF i > Len(s) THEN IF cur = <<>> THEN <<>> ELSE <<cur>>
  ELSE IF s[i] = LF THEN <<IF cur # <<>> /\ cur[Len(cur)] = CR THEN SubSeq(cur, 1, Len(cur) - 1) ELSE cur>> \o LinesFrom(s, i + 1, <<>>)
  ELSE LinesFrom(s, i + 1, Append(cur, s[i]))
Lines(s) == LinesFrom(s, 1, <<>>)
RECURSIVE TrimBlank(_)
TrimBlank(ls) == IF ls # <<>> /\ ls[Len(ls)] = <<>> THEN TrimBlank(SubSeq(ls, 1, Len(ls) - 1)) ELSE ls
RECURSIVE Join(_)
Join(ls) == IF ls = <<>> THEN <<>> ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<CR, LF>> \o Join(Tail(ls))
RECURSIVE SplitStrings(_, _, _)
SplitStrings(ls, i, cur) ==
  IF i > Len(ls) THEN <<>>
  ELSE IF ls[i] = End THEN <<Join(cur)>> \o SplitStrings(ls, i + 1, <<>>)
  ELSE SplitStrings(ls, i + 1, Append(cur, ls[i]))
(* the stored strings a text compiles to; every string is closed by a separator line *)
CompileCharacters(s) ==
  IF \E i \in 1..Len(s) : s[i] = 0 THEN Refused
  ELSE LET ls == TrimBlank(Lines(s))
       IN IF ls # <<>> /\ ls[Len(ls)] # End THEN Refused
          ELSE LET strs == SplitStrings(ls, 1, <<>>) IN <<[i \in 1..Len(strs) |-> Stored(strs[i])]>>
Compile(b) == LET c == Characters(b) IN IF c = <<>> THEN Refused ELSE CompileCharacters(c[1])
-----------------------------------------------------------------------------
(* the property: the text of a list compiles to the list *)
HasSeparator(s) == \E i \in 1..Len(Lines(s)) : Lines(s)[i] = End
Sound(list) == \A i \in 1..Len(list) : Read(list[i]).ok
Survives(list) == Sound(list) /\ \A i \in 1..Len(list) : ~HasSeparator(Read(list[i]).s)
(* one way of writing the text *)
RECURSIVE TextOf(_)
TextOf(list) == IF list = <<>> THEN <<>>
                ELSE LET s == Read(list[1]).s IN (IF s = <<>> THEN <<>> ELSE s \o <<CR, LF>>) \o End \o <<CR, LF>> \o TextOf(Tail(list))
=============================================================================
