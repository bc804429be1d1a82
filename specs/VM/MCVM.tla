-------------------------------- MODULE MCVM --------------------------------
(* All programs of Len0 instructions over a small instruction set, every     *)
(* pair of calls of each; and the identities of 256-bit arithmetic.          *)
EXTENDS VM
CONSTANTS Len0, MaxEnds
VARIABLE ends
(* instructions, immediate bytes included *)
Alphabet == { <<96, 0>>, <<96, 1>>, <<88>>, <<1>>, <<80>>, <<82>>, <<84>>, <<85>>, <<86>>, <<91>>, <<53>>, <<160>>, <<243>>, <<253>> }
RECURSIVE Progs(_)
Progs(k) == IF k = 0 THEN {<<>>} ELSE LET P == Progs(k - 1) IN P \cup {p \o i : p \in P, i \in Alphabet}
MCDatas == {<<1>>}
MCCode == Progs(Len0)
(* words that matter: around 0, around the sign bit, around 2^256 *)
Top == Min255
Samples == {Zero, One, W(2), W(3), W(255), W(256), W(65535), Ones, Top, Sub(Ones, One), Sub(Top, One), Add(Top, One)}
ASSUME Identities ==
    \A a \in Samples, b \in Samples :
        /\ Sub(Add(a, b), b) = a /\ Add(a, b) = Add(b, a) /\ Mul(a, b) = Mul(b, a)
        /\ (b # Zero => Add(Mul(DivMod(a, b)[1], b), DivMod(a, b)[2]) = a)
        /\ WXor(WXor(a, b), b) = a /\ WNot(WAnd(a, b)) = WOr(WNot(a), WNot(b))
        /\ Add(a, WNot(a)) = Ones
        /\ (b # Zero => Add(Mul(SDiv(a, b), b), SMod(a, b)) = a)
        /\ AddMod(a, b, W(0)) = Zero /\ (Less(a, b) => ~Less(b, a))
ASSUME Shifts == \A a \in Samples, n \in {0, 1, 7, 8, 31, 255} :
        /\ Shl(W(n), a) = Mul(a, Exp(W(2), W(n))) /\ Shr(W(n), a) = DivMod(a, Exp(W(2), W(n)))[1]
        /\ (a[1] < 128 => Sar(W(n), a) = Shr(W(n), a))
        /\ (a[1] >= 128 => Sar(W(n), a) = WNot(Shr(W(n), WNot(a))))
MCLimit == CallBase + 36000     \* two writes
MCInit == Init /\ ends = 0
MCNext == /\ (m.out = "idle" => ends < MaxEnds)
          /\ Next /\ ends' = IF m.out # "idle" /\ m'.out = "idle" THEN ends + 1 ELSE ends
MCSpec == MCInit /\ [][MCNext]_<<vars, ends>>
(* storage and balance change only at the end of a call that ended well *)
AllOrNothing == [][(sto' # sto \/ bal' # bal) => Ended /\ Good /\ env.mode = "on"]_<<vars, ends>>
(* every step costs or ends the call, but for an instruction that is free *)
Costs == [][m.out = "run" /\ m'.out = "run" => m'.q < m.q \/ CodeAt(code, m.pc) = 85]_<<vars, ends>>
=============================================================================
