-------------------------------- MODULE C08MC --------------------------------
(* Threads go through the list of tags; a tag is locked while it is verified, *)
(* verifying may verify and then read other tags, holding their locks, and    *)
(* some tags (context) are read without having been verified.  Whatever the   *)
(* interleaving: no deadlock, every tag gets a result, always the same one.   *)
(*   Program of a tag: <<"verify", c>> (a bad one skips to the matching       *)
(*   <<"end", c>>), <<"lock", c>>, <<"unlock", c>>, <<"end", c>>.             *)
EXTENDS Verify, TLC
CONSTANTS Threads, Skip, Early, Naive    \* three ways to get it wrong, all FALSE in the design
(* kinds of worlds; the threads go through them in order *)
V(c) == <<"verify", c>>
L(c) == <<"lock", c>>
U(c) == <<"unlock", c>>
E(c) == <<"end", c>>
Read(c) == <<V(c), L(c), U(c), E(c)>>
Base == {
  \* 2 scenery, 3 model, 4 animations, 5 HUD globals, 6 text
  [n |-> 6, child |-> <<0, 0, 0, 0, 0, 0>>, chains |-> <<<<>>, <<<<3, 4>>, <<6>>>>, <<>>, <<>>, <<<<6>>>>, <<>>>>,
   prog |-> <<<<>>, <<V(3), L(3)>> \o Read(4) \o <<U(3), E(3), L(5)>> \o Read(6) \o <<U(5)>>, <<>>, <<>>, Read(6), <<>>>>],
  \* 2 weapon, 3 its HUD, 4 child HUD, 5 bitmap, 6 structure BSP that looks at the scenario
  [n |-> 6, child |-> <<0, 0, 4, 0, 0, 0>>, chains |-> <<<<>>, <<<<3>>>>, <<<<5>>>>, <<<<5>>>>, <<>>, <<>>>>,
   prog |-> <<<<>>, <<V(3), L(3)>> \o Read(5) \o <<U(3), E(3)>>, Read(5) \o <<V(4), E(4)>>, Read(5), <<>>, <<L(1), U(1)>>>>],
  \* 1 and 3 look at 2, which is between them in the list
  [n |-> 3, child |-> <<0, 0, 0>>, chains |-> <<<<>>, <<>>, <<>>>>, prog |-> <<<<L(2), U(2)>>, <<>>, <<L(2), U(2)>>>>],
  \* HUDs 3, 4 in a loop, 2 leads into it; 5 is its own child
  [n |-> 5, child |-> <<0, 3, 4, 3, 5>>, chains |-> <<<<>>, <<>>, <<>>, <<>>, <<>>>>,
   prog |-> <<<<>>, <<V(3), E(3)>>, IF Naive THEN <<V(4), E(4)>> ELSE <<>>, IF Naive THEN <<V(3), E(3)>> ELSE <<>>, <<>>>>]}
Worlds == UNION {{[n |-> b.n, child |-> b.child, chains |-> b.chains, prog |-> b.prog, own |-> o] : o \in {f \in [1..b.n -> BOOLEAN] : Cardinality({i \in 1..b.n : f[i]}) <= 2}} : b \in Base}
Seq0(b) == [i \in 1..b.n |-> b.own[i]]
VARIABLES w, lock, res, pos, stack, fin
vars == <<w, lock, res, pos, stack, fin>>
World == [own |-> Seq0(w), chains |-> w.chains, child |-> w.child]
Init == /\ w \in Worlds
        /\ lock = [t \in 1..w.n |-> 0] /\ res = [t \in 1..w.n |-> "none"]
        /\ pos = [h \in Threads |-> 1] /\ stack = [h \in Threads |-> <<>>] /\ fin = FALSE
Top(h) == stack[h][Len(stack[h])]
Push(h, t) == [t |-> t, at |-> "lock", i |-> 1, bad |-> w.own[t] \/ Looping(World, t)]
Set(h, f) == [stack EXCEPT ![h] = [@ EXCEPT ![Len(@)] = f]]
(* the caller learns whether the tag is bad *)
RECURSIVE After(_, _, _)
After(p, i, c) == IF p[i] = E(c) THEN i ELSE After(p, i + 1, c)
Ret(h, bad) ==
  LET s == SubSeq(stack[h], 1, Len(stack[h]) - 1) IN
  IF s = <<>> THEN stack' = [stack EXCEPT ![h] = s]
  ELSE LET f == s[Len(s)] c == w.prog[f.t][f.i][2] IN
       stack' = [stack EXCEPT ![h] = [s EXCEPT ![Len(s)] = IF bad THEN [f EXCEPT !.bad = TRUE, !.i = After(w.prog[f.t], f.i, c)] ELSE [f EXCEPT !.i = @ + 1]]]
Visit(h) == /\ stack[h] = <<>> /\ pos[h] <= w.n
            /\ pos' = [pos EXCEPT ![h] = @ + 1]
            /\ IF (IF Skip THEN lock[pos[h]] # 0 ELSE res[pos[h]] # "none") THEN UNCHANGED stack
               ELSE stack' = [stack EXCEPT ![h] = <<Push(h, pos[h])>>]
            /\ UNCHANGED <<w, lock, res, fin>>
Step(h) ==
  /\ stack[h] # <<>>
  /\ LET f == Top(h) IN
     CASE f.at = "lock" -> /\ lock[f.t] = 0 /\ lock' = [lock EXCEPT ![f.t] = h]
                           /\ stack' = Set(h, [f EXCEPT !.at = "reserve"]) /\ UNCHANGED res
       [] f.at = "reserve" ->
            IF res[f.t] = "none" THEN res' = [res EXCEPT ![f.t] = "reserved"] /\ stack' = Set(h, [f EXCEPT !.at = "run"]) /\ UNCHANGED lock
            ELSE lock' = [lock EXCEPT ![f.t] = 0] /\ Ret(h, res[f.t] = "bad") /\ UNCHANGED res
       [] f.at = "run" ->
            LET p == w.prog[f.t] IN
            IF f.i > Len(p) THEN
              IF Early /\ lock[f.t] = h THEN lock' = [lock EXCEPT ![f.t] = 0] /\ stack' = Set(h, [f EXCEPT !.at = "store"]) /\ UNCHANGED res
              ELSE res' = [res EXCEPT ![f.t] = IF f.bad THEN "bad" ELSE "ok"] /\ stack' = Set(h, [f EXCEPT !.at = "unlock"]) /\ UNCHANGED lock
            ELSE LET op == p[f.i] c == op[2] next == Set(h, [f EXCEPT !.i = @ + 1]) IN
                 (CASE op[1] = "verify" -> stack' = [stack EXCEPT ![h] = Append(@, Push(h, c))] /\ UNCHANGED <<lock, res>>
                   [] op[1] = "lock" -> lock[c] = 0 /\ lock' = [lock EXCEPT ![c] = h] /\ stack' = next /\ UNCHANGED res
                   [] op[1] = "unlock" -> lock' = [lock EXCEPT ![c] = 0] /\ stack' = next /\ UNCHANGED res
                   [] op[1] = "end" -> stack' = next /\ UNCHANGED <<lock, res>>)
       [] f.at = "store" -> res' = [res EXCEPT ![f.t] = IF f.bad THEN "bad" ELSE "ok"] /\ Ret(h, f.bad) /\ UNCHANGED lock
       [] f.at = "unlock" -> lock' = [lock EXCEPT ![f.t] = 0] /\ Ret(h, f.bad) /\ UNCHANGED res
  /\ UNCHANGED <<w, pos, fin>>
Idle == \A h \in Threads : stack[h] = <<>> /\ pos[h] > w.n
Finish == /\ Idle /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<w, lock, res, pos, stack>>
Stop == fin /\ UNCHANGED vars
Next == Finish \/ Stop \/ \E h \in Threads : Visit(h) \/ Step(h)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* deadlock freedom is TLC's own check: until the end something can happen *)
Complete == fin => \A t \in 1..w.n : res[t] = IF t \in BadTags(World) THEN "bad" ELSE "ok"
Released == fin => \A t \in 1..w.n : lock[t] = 0
Terminates == <>fin
===============================================================================
