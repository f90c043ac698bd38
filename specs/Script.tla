-------------------------------- MODULE Script --------------------------------
(* C16.  The scripts of a scenario: trees of nodes, and the source texts that  *)
(* mean the same.                                                             *)
(* Texts are sequences of characters (bytes); c + 256 * n stands for n times   *)
(* the letter, space or line end c.                                           *)
(* A node is [prim, glob, loc, ty, next, child, txt, val]: next and child are  *)
(* numbers of nodes (from 0), -1: none; txt is <<>> or <<its string>>.         *)
(* A scenario s is [name, len, size, max, count, nodes, globals, scripts]: the *)
(* name, what the header of the node table says, and the nodes; a global is    *)
(* [name, ty, root], a script [name, kind, ty, params, root].                  *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL U == INSTANCE Utf8
Letter(e) == IF e < 256 THEN e ELSE e % 256
Times(e) == IF e < 256 THEN 1 ELSE e \div 256
RECURSIVE Length(_, _)
Length(t, i) == IF i > Len(t) THEN 0 ELSE Times(t[i]) + Length(t, i + 1)
-----------------------------------------------------------------------------
(* source texts: "(", ")", atoms (quoted or not), comments.  A bracket is      *)
(* <<-1>> or <<-2>>, what cannot be read is <<-3>>; an atom is its characters. *)
Open == <<-1>>
Close == <<-2>>
Bad == <<-3>>
White(c) == c \in {9, 10, 11, 12, 13, 32}
Quote == 34
Slash == 92
RECURSIVE AfterLine(_, _), AfterBlock(_, _), Skip(_, _), Plain(_, _, _), Quoted(_, _, _)
AfterLine(t, i) == IF i > Len(t) THEN i ELSE IF Letter(t[i]) = 10 THEN i + 1 ELSE AfterLine(t, i + 1)
AfterBlock(t, i) == IF i >= Len(t) THEN Len(t) + 2 ELSE IF t[i] = 42 /\ t[i + 1] = 59 THEN i + 2 ELSE AfterBlock(t, i + 1)
Skip(t, i) == IF i > Len(t) THEN i
              ELSE IF White(Letter(t[i])) THEN Skip(t, i + 1)
              ELSE IF t[i] = 59 THEN Skip(t, IF i < Len(t) /\ t[i + 1] = 42 THEN AfterBlock(t, i + 2) ELSE AfterLine(t, i))
              ELSE i
Escaped(t, i) == t[i] = Slash /\ i < Len(t) /\ t[i + 1] = Quote
(* [to: what comes after it, t: the atom] *)
Plain(t, i, got) == IF i > Len(t) \/ White(Letter(t[i])) \/ t[i] \in {40, 41, 59} THEN [to |-> i, t |-> got]
                    ELSE IF Escaped(t, i) THEN Plain(t, i + 2, Append(got, Quote))
                    ELSE Plain(t, i + 1, Append(got, t[i]))
Quoted(t, i, got) == IF i > Len(t) THEN [to |-> i, t |-> Bad]
                     ELSE IF t[i] = Quote THEN [to |-> i + 1, t |-> got]
                     ELSE IF Escaped(t, i) THEN Quoted(t, i + 2, Append(got, Quote))
                     ELSE Quoted(t, i + 1, Append(got, t[i]))
RECURSIVE Tokens(_, _, _)
Tokens(t, i, got) ==
  LET k == Skip(t, i) IN
  IF k = Len(t) + 1 THEN got
  ELSE IF k > Len(t) THEN Append(got, Bad)
  ELSE IF t[k] = 40 THEN Tokens(t, k + 1, Append(got, Open))
  ELSE IF t[k] = 41 THEN Tokens(t, k + 1, Append(got, Close))
  ELSE LET a == IF t[k] = Quote THEN Quoted(t, k + 1, <<>>) ELSE Plain(t, k, <<>>) IN Tokens(t, a.to, Append(got, a.t))
Read(t) == Tokens(t, 1, <<>>)
-----------------------------------------------------------------------------
(* is everything there, and are the nodes of each script a tree? *)
NoDuplicates(q) == \A i \in 1..Len(q) : \A j \in 1..Len(q) : i # j => q[i].name # q[j].name
HeaderSize == 56
NodeSize == 20
HeaderFine(s) == s.len >= HeaderSize /\ s.size = NodeSize /\ s.len = HeaderSize + (NodeSize * s.max) /\ s.count <= s.max
MaxDepth == 512
Exists(s, i) == i \in 0..(Len(s.nodes) - 1)
Node(s, i) == s.nodes[i + 1]
(* where one gets from a node: to the next one, and into it *)
Nexts(s, i) == IF Node(s, i).next = -1 THEN {} ELSE {Node(s, i).next}
Insides(s, i) == IF Node(s, i).prim THEN {} ELSE {Node(s, i).child}
Ways(s, i) == Nexts(s, i) \cup Insides(s, i)
RECURSIVE Reached(_, _, _)
Reached(s, new, old) == IF new = {} THEN old
  ELSE LET all == old \cup new IN Reached(s, (UNION {{j \in Ways(s, i) : Exists(s, j)} : i \in new}) \ all, all)
(* a tree: each but the root is got to in one way, and the root in none *)
Tree(s, root) ==
  /\ Exists(s, root)
  /\ LET all == Reached(s, {root}, {}) IN
     /\ \A i \in all : \A j \in Ways(s, i) : Exists(s, j)
     /\ Cardinality({<<i, 0>> : i \in {i \in all : Nexts(s, i) # {}}} \cup {<<i, 1>> : i \in {i \in all : Insides(s, i) # {}}}) = Cardinality(all) - 1
(* the nodes in the blocks of one level are in blocks of the level above *)
RECURSIVE Block(_, _), Deep(_, _, _)
Block(s, i) == IF i = -1 THEN {} ELSE {i} \cup Block(s, Node(s, i).next)
Deep(s, level, n) == IF level = {} THEN n - 1 ELSE Deep(s, UNION {Block(s, Node(s, i).child) : i \in {i \in level : ~Node(s, i).prim}}, n + 1)
Depth(s, root) == Deep(s, Block(s, root), 0)
(* what is read of the strings *)
Valued == {"void", "boolean", "real", "short", "long"}
Shown(n) == n.prim /\ (n.glob \/ n.loc \/ n.ty \notin Valued)
Readable(s, root) == \A i \in Reached(s, {root}, {}) : Shown(Node(s, i)) => Node(s, i).txt # <<>>
(* a call in the outermost block of a script is looked at more closely *)
Outermost(s, root) == \A i \in Block(s, root) : ~Node(s, i).prim => Node(s, Node(s, i).child).txt # <<>>
RootFine(s, root) == Tree(s, root) /\ Depth(s, root) <= MaxDepth /\ Readable(s, root)
MaxName == 31
CanDecompile(s) ==
  /\ NoDuplicates(s.globals) /\ NoDuplicates(s.scripts)
  /\ Length(s.name, 1) <= MaxName
  /\ HeaderFine(s)
  /\ \A i \in 1..Len(s.globals) : RootFine(s, s.globals[i].root)
  /\ \A i \in 1..Len(s.scripts) : RootFine(s, s.scripts[i].root) /\ Outermost(s, s.scripts[i].root)
-----------------------------------------------------------------------------
(* what the text has to say *)
Text(n) == IF \E k \in 1..Len(n.txt[1]) : n.txt[1][k] \in 128..255 THEN U!LossyBy(n.txt[1], 63) ELSE n.txt[1]
Begin == <<98, 101, 103, 105, 110>>
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
Global == <<103, 108, 111, 98, 97, 108>>
ScriptWord == <<115, 99, 114, 105, 112, 116>>
RECURSIVE Positive(_)
Positive(v) == IF v < 10 THEN <<48 + v>> ELSE Append(Positive(v \div 10), 48 + (v % 10))
Smallest == (-2147483647) - 1
Number(v) == IF v = Smallest THEN <<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 56>> ELSE IF v < 0 THEN <<45>> \o Positive(-v) ELSE Positive(v)
(* val is [lo, hi: halves of the value, f: the characters of it as a number] *)
Signed(h) == IF h >= 32768 THEN h - 65536 ELSE h
Value(n) == CASE n.ty = "boolean" -> IF n.val.lo % 256 = 0 THEN False ELSE True
              [] n.ty = "short" -> Number(Signed(n.val.lo))
              [] n.ty = "long" -> Number((Signed(n.val.hi) * 65536) + n.val.lo)
              [] n.ty = "real" -> n.val.f
RECURSIVE Says(_, _, _)
(* the block from node i on; in the outermost block of a script, `begin' and its brackets are left out *)
Says(s, i, outermost) ==
  IF i = -1 THEN <<>>
  ELSE LET n == Node(s, i) IN
       (IF ~n.prim THEN IF outermost /\ Text(Node(s, n.child)) = Begin THEN Says(s, Node(s, n.child).next, FALSE) ELSE <<Open>> \o Says(s, n.child, FALSE) \o <<Close>>
        ELSE IF n.glob \/ n.loc THEN <<Text(n)>>
        ELSE IF n.ty = "void" THEN <<>>
        ELSE IF n.ty \in Valued THEN <<Value(n)>>
        ELSE <<Text(n)>>) \o Says(s, n.next, outermost)
GlobalSays(s, g) == <<Open, Global, g.tyc, g.name>> \o Says(s, g.root, FALSE) \o <<Close>>
RECURSIVE Params(_)
Params(q) == IF q = <<>> THEN <<>> ELSE <<Open, q[1].tyc, q[1].name, Close>> \o Params(Tail(q))
ScriptSays(s, x) ==
  <<Open, ScriptWord, x.kindc>> \o (IF x.kind \in {"static", "stub"} THEN <<x.tyc>> ELSE <<>>)
  \o (IF x.params = <<>> THEN <<x.name>> ELSE <<Open, x.name>> \o Params(x.params) \o <<Close>>)
  \o Says(s, x.root, TRUE) \o <<Close>>
RECURSIVE GlobalsSay(_, _), ScriptsSay(_, _)
GlobalsSay(s, n) == IF n = 0 THEN <<>> ELSE GlobalsSay(s, n - 1) \o GlobalSays(s, s.globals[n])
ScriptsSay(s, n) == IF n = 0 THEN <<>> ELSE ScriptsSay(s, n - 1) \o ScriptSays(s, s.scripts[n])
AllSays(s) == GlobalsSay(s, Len(s.globals)) \o ScriptsSay(s, Len(s.scripts))
-----------------------------------------------------------------------------
(* files: [name, text].  A file is ended after a definition with which it has  *)
(* 512 KiB (after the comment at its top); then they are numbered.             *)
Split == 524288
Digits(n) == IF n < 10 THEN 1 ELSE IF n < 100 THEN 2 ELSE IF n < 1000 THEN 3 ELSE 4
ShortName(name, n) == IF Len(name) <= MaxName - (1 + Digits(n)) THEN name
                      ELSE LET k == CHOOSE k \in 17..20 : name[k + 1] \notin 128..191 /\ \A j \in 17..(k - 1) : name[j + 1] \in 128..191 IN SubSeq(name, 1, k)
FileName(name, n, i) == IF n = 1 THEN name ELSE ShortName(name, n) \o <<45>> \o Positive(i)
RECURSIVE Balanced(_, _, _)
Balanced(q, i, depth) == IF i > Len(q) THEN depth = 0 ELSE IF q[i] = Open THEN Balanced(q, i + 1, depth + 1) ELSE IF q[i] = Close THEN depth > 0 /\ Balanced(q, i + 1, depth - 1) ELSE depth > 0 /\ Balanced(q, i + 1, depth)
(* where the last definition starts *)
RECURSIVE Last(_, _, _, _)
Last(t, i, depth, at) ==
  LET k == Skip(t, i) IN
  IF k > Len(t) THEN at
  ELSE IF t[k] = 40 THEN Last(t, k + 1, depth + 1, IF depth = 0 THEN k ELSE at)
  ELSE IF t[k] = 41 THEN Last(t, k + 1, depth - 1, at)
  ELSE Last(t, (IF t[k] = Quote THEN Quoted(t, k + 1, <<>>) ELSE Plain(t, k, <<>>)).to, depth, at)
First(t) == Skip(t, 1)
From(t) == Length(t, First(t))
RECURSIVE Files(_, _)
Files(fs, n) == IF n = 0 THEN <<>> ELSE Files(fs, n - 1) \o Read(fs[n].text)
IsSource(s, fs) ==
  LET says == AllSays(s)  n == Len(fs) IN
  /\ n > 0
  /\ Files(fs, n) = says
  /\ \A i \in 1..n :
       LET t == fs[i].text IN
       /\ fs[i].name = FileName(s.name, n, i)
       /\ Balanced(Read(t), 1, 0)
       /\ (i < n => From(t) >= Split)
       /\ From(t) - Length(t, Last(t, 1, 0, 1)) <= Split
=============================================================================
