------------------------------- MODULE Word --------------------------------
(* 256-bit words as sequences of 32 bytes, most significant byte first.     *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
Idx == [i \in 1..32 |-> i]
Idx33 == [i \in 1..33 |-> i]
Idx64 == [i \in 1..64 |-> i]
Bits8 == <<128, 64, 32, 16, 8, 4, 2, 1>>
Zero == [i \in 1..32 |-> 0]
One == [i \in 1..32 |-> IF i = 32 THEN 1 ELSE 0]
Ones == [i \in 1..32 |-> 255]
Min255 == [i \in 1..32 |-> IF i = 1 THEN 128 ELSE 0]   \* -2^255
Pad(n) == [i \in 1..n |-> 0]
(* small integers *)
W(n) == [i \in 1..32 |-> CASE i = 32 -> n % 256 [] i = 31 -> (n \div 256) % 256 [] i = 30 -> (n \div 65536) % 256
                           [] i = 29 -> n \div 16777216 [] OTHER -> 0]
IsSmall(x) == (\A i \in 1..28 : x[i] = 0) /\ x[29] < 64       \* < 2^30
Num(x) == x[32] + 256 * x[31] + 65536 * x[30] + 16777216 * x[29]
FromBytes(s) == [i \in 1..32 |-> IF i > 32 - Len(s) THEN s[i - (32 - Len(s))] ELSE 0]  \* at most 32 bytes
IsNeg(x) == x[1] >= 128
B(b) == IF b THEN One ELSE Zero
(* comparison; sequences of the same length *)
Less(x, y) == \E i \in 1..Len(x) : x[i] < y[i] /\ \A j \in 1..i - 1 : x[j] = y[j]
SLess(x, y) == IF IsNeg(x) # IsNeg(y) THEN IsNeg(x) ELSE Less(x, y)
(* a + b, a - b over n bytes, modulo 256^n; ix = <<1, .., n>> *)
AddN(x, y, ix) == FoldLeft(LAMBDA a, i : LET s == x[Len(ix) + 1 - i] + y[Len(ix) + 1 - i] + a[1] IN <<s \div 256, <<s % 256>> \o a[2]>>, <<0, <<>>>>, ix)
SubN(x, y, ix) == FoldLeft(LAMBDA a, i : LET s == x[Len(ix) + 1 - i] - y[Len(ix) + 1 - i] - a[1] + 256 IN <<1 - (s \div 256), <<s % 256>> \o a[2]>>, <<0, <<>>>>, ix)
Add(x, y) == AddN(x, y, Idx)[2]
Sub(x, y) == SubN(x, y, Idx)[2]
WNot(x) == [i \in 1..32 |-> 255 - x[i]]
Neg(x) == Sub(Zero, x)
Abs(x) == IF IsNeg(x) THEN Neg(x) ELSE x
WAnd(x, y) == [i \in 1..32 |-> x[i] & y[i]]
WOr(x, y) == [i \in 1..32 |-> x[i] | y[i]]
WXor(x, y) == [i \in 1..32 |-> x[i] ^^ y[i]]
(* the n low bytes of the product *)
MulN(x, y, ix) ==
    LET col(k) == FoldLeft(LAMBDA s, i : IF i <= k /\ k + 1 - i <= 32 THEN s + x[33 - i] * y[33 - (k + 1 - i)] ELSE s, 0, Idx) IN
    FoldLeft(LAMBDA a, k : LET s == col(k) + a[1] IN <<s \div 256, <<s % 256>> \o a[2]>>, <<0, <<>>>>, ix)[2]
Mul(x, y) == IF x = Zero \/ y = Zero THEN Zero ELSE MulN(x, y, Idx)
(* long division, bit by bit: x any length, y a nonzero word. <<quotient bytes, remainder word>> *)
Shl1(r, b) == [i \in 1..33 |-> ((r[i] * 2) % 256) + (IF i = 33 THEN b ELSE r[i + 1] \div 128)]
DivMod(x, y) ==
    LET y33 == <<0>> \o y
        bit(a, w, v) == LET r == Shl1(a[2], (v \div w) % 2) IN IF Less(r, y33) THEN <<a[1], r>> ELSE <<a[1] + w, SubN(r, y33, Idx33)[2]>>
        byte(a, v) == IF v = 0 /\ a[2] = Pad(33) THEN <<Append(a[1], 0), a[2]>>
                      ELSE LET d == FoldLeft(LAMBDA c, w : bit(c, w, v), <<0, a[2]>>, Bits8) IN <<Append(a[1], d[1]), d[2]>>
        res == FoldLeft(byte, <<<<>>, Pad(33)>>, x)
    IN <<res[1], SubSeq(res[2], 2, 33)>>
Div(x, y) == IF y = Zero THEN Zero ELSE DivMod(x, y)[1]
Mod(x, y) == IF y = Zero THEN Zero ELSE DivMod(x, y)[2]
SDiv(x, y) == IF y = Zero THEN Zero ELSE LET q == Div(Abs(x), Abs(y)) IN IF IsNeg(x) # IsNeg(y) THEN Neg(q) ELSE q
SMod(x, y) == IF y = Zero THEN Zero ELSE LET r == Mod(Abs(x), Abs(y)) IN IF IsNeg(x) THEN Neg(r) ELSE r
AddMod(x, y, z) == IF z = Zero THEN Zero ELSE LET s == AddN(x, y, Idx) IN DivMod(<<s[1]>> \o s[2], z)[2]
MulMod(x, y, z) == IF z = Zero THEN Zero ELSE DivMod(MulN(x, y, Idx64), z)[2]
(* powers: the bits of the exponent from the top *)
Exp(x, e) ==
    FoldLeft(LAMBDA r, v : IF v = 0 /\ r = One THEN r
                           ELSE FoldLeft(LAMBDA q, w : LET s == Mul(q, q) IN IF (v \div w) % 2 = 1 THEN Mul(s, x) ELSE s, r, Bits8), One, e)
ByteLen(x) == LET n == {i \in 1..32 : x[i] # 0} IN IF n = {} THEN 0 ELSE 33 - (CHOOSE i \in n : \A j \in n : i <= j)
P2(n) == 2 ^ n
At(x, i) == IF i >= 1 /\ i <= 32 THEN x[i] ELSE 0
SmallBelow(x, n) == IsSmall(x) /\ Num(x) < n
Shl(s, x) == IF ~SmallBelow(s, 256) THEN Zero ELSE
    LET k == Num(s) \div 8  r == Num(s) % 8 IN [i \in 1..32 |-> ((At(x, i + k) * P2(r)) % 256) + ((At(x, i + k + 1) * P2(r)) \div 256)]
Shr(s, x) == IF ~SmallBelow(s, 256) THEN Zero ELSE
    LET k == Num(s) \div 8  r == Num(s) % 8 IN [i \in 1..32 |-> (At(x, i - k) \div P2(r)) + ((At(x, i - k - 1) * P2(8 - r)) % 256)]
(* arithmetic shift right: the sign fills *)
Sar(s, x) == IF IsNeg(x) THEN WNot(Shr(s, WNot(x))) ELSE Shr(s, x)
Byte(n, x) == IF SmallBelow(n, 32) THEN W(x[Num(n) + 1]) ELSE Zero
SignExtend(b, x) == IF ~SmallBelow(b, 31) THEN x ELSE
    LET p == 32 - Num(b) IN [i \in 1..32 |-> IF i >= p THEN x[i] ELSE IF x[p] >= 128 THEN 255 ELSE 0]
=============================================================================
