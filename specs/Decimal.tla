------------------------------ MODULE Decimal ------------------------------
(* Decimal arithmetic on numbers <<negative, digits before, digits after>>    *)
(* (as in Nudge).  Products, differences and shifts are exact; quotients and  *)
(* powers are good to KEEP digits, and what is cut off leaves a 1 behind, so  *)
(* that no number seems to lie exactly between two others when it does not.   *)
EXTENDS Integers, Sequences
LOCAL N == INSTANCE Nudge
KEEP == 30
LOCAL MaxOf(a, b) == IF a > b THEN a ELSE b
LOCAL Zeros(n) == [i \in 1..n |-> 0]
(* digits, and how many of them are after the point *)
LOCAL Digits(x) == x[2] \o x[3]
LOCAL Make(neg, d, after) ==
  IF after < 0 THEN N!Normal(<<neg, d \o Zeros(-after), <<>>>>)
  ELSE LET e == IF Len(d) < after + 1 THEN Zeros((after + 1) - Len(d)) \o d ELSE d
       IN N!Normal(<<neg, SubSeq(e, 1, Len(e) - after), SubSeq(e, (Len(e) - after) + 1, Len(e))>>)
IsZero(x) == \A i \in 1..Len(Digits(x)) : Digits(x)[i] = 0
(* from the last digit on *)
RECURSIVE Carry(_, _)
LOCAL Carry(d, c) == IF d = <<>> THEN (IF c = 0 THEN <<>> ELSE Append(Carry(<<>>, c \div 10), c % 10))
                     ELSE LET v == d[Len(d)] + c IN Append(Carry(SubSeq(d, 1, Len(d) - 1), v \div 10), v % 10)
Times(x, m) == Make(x[1], Carry([i \in 1..Len(Digits(x)) |-> m * Digits(x)[i]], 0), Len(x[3]))
Shift(x, k) == Make(x[1], Digits(x), Len(x[3]) + k)       \* divided by 10^k
RECURSIVE Long(_, _, _, _)
LOCAL Long(d, i, m, rem) == IF i > Len(d) THEN <<>> ELSE LET v == (10 * rem) + d[i] IN <<v \div m>> \o Long(d, i + 1, m, v % m)
RECURSIVE Left(_, _, _, _)
LOCAL Left(d, i, m, rem) == IF i > Len(d) THEN rem ELSE Left(d, i + 1, m, ((10 * rem) + d[i]) % m)
Over(x, m) == LET d == Digits(x) \o Zeros(KEEP) IN Make(x[1], Long(d, 1, m, 0) \o (IF Left(d, 1, m, 0) = 0 THEN <<0>> ELSE <<1>>), Len(x[3]) + KEEP + 1)
(* both with the same number of digits before and after *)
LOCAL Pad(x, i, f) == Zeros(i - Len(x[2])) \o x[2] \o x[3] \o Zeros(f - Len(x[3]))
RECURSIVE Less(_, _)
LOCAL Less(a, b) == a # <<>> /\ (a[1] < b[1] \/ (a[1] = b[1] /\ Less(Tail(a), Tail(b))))
RECURSIVE Sub(_, _, _)
LOCAL Sub(a, b, borrow) ==
  IF a = <<>> THEN <<>>
  ELSE LET v == (a[Len(a)] - b[Len(b)]) - borrow IN Append(Sub(SubSeq(a, 1, Len(a) - 1), SubSeq(b, 1, Len(b) - 1), IF v < 0 THEN 1 ELSE 0), IF v < 0 THEN v + 10 ELSE v)
LOCAL Plus(a, b) == Carry([i \in 1..Len(a) |-> a[i] + b[i]], 0)
Minus(x, y) ==
  LET i == MaxOf(Len(x[2]), Len(y[2]))  f == MaxOf(Len(x[3]), Len(y[3]))
      a == Pad(x, i, f)  b == Pad(y, i, f)
  IN IF x[1] # y[1] THEN Make(IF IsZero(x) /\ IsZero(y) THEN FALSE ELSE IF IsZero(x) THEN ~y[1] ELSE x[1], Plus(a, b), f)
     ELSE IF a = b THEN Make(FALSE, Zeros(Len(a)), f)
     ELSE IF Less(a, b) THEN Make(~x[1], Sub(b, a, 0), f) ELSE Make(x[1], Sub(a, b, 0), f)
Below(x, y) == LET d == Minus(x, y) IN d[1] /\ ~IsZero(d)
(* products of numbers with many digits *)
RECURSIVE Sum(_, _, _, _, _)
LOCAL Sum(a, b, k, i, last) == IF i > last THEN 0 ELSE (a[i] * b[k - i]) + Sum(a, b, k, i + 1, last)
LOCAL Product(a, b) == Carry([k \in 1..((Len(a) + Len(b)) - 1) |-> Sum(a, b, k + 1, MaxOf(1, (k + 1) - Len(b)), IF k < Len(a) THEN k ELSE Len(a))], 0)
(* [d |-> digits, after]: cut to KEEP digits *)
LOCAL Cut(d, after) == LET e == N!Lead(d)  n == Len(e) - KEEP IN
  IF n <= 0 THEN [d |-> e, after |-> after]
  ELSE [d |-> SubSeq(e, 1, KEEP) \o (IF N!Trail(SubSeq(e, KEEP + 1, Len(e))) = <<>> THEN <<0>> ELSE <<1>>), after |-> (after - n) + 1]
RECURSIVE Power(_, _, _)
LOCAL Power(d, after, n) ==
  IF n = 0 THEN [d |-> <<1>>, after |-> 0]
  ELSE LET h == Power(d, after, n \div 2)
           q == Cut(Product(h.d, h.d), 2 * h.after)
       IN IF n % 2 = 0 THEN q ELSE Cut(Product(q.d, d), q.after + after)
Pow(x, n) == IF IsZero(x) THEN (IF n = 0 THEN <<FALSE, <<1>>, <<>>>> ELSE <<FALSE, <<0>>, <<>>>>)
             ELSE LET p == Power(N!Lead(Digits(x)), Len(x[3]), n) IN Make(x[1] /\ n % 2 = 1, p.d, p.after)
=============================================================================
