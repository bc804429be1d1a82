------------------------------ MODULE MCWallet ------------------------------
EXTENDS Wallet
S1 == {1}
Next == \/ \E q \in Seeds, p \in Passes : Recover(q, p)
        \/ \E s \in Stores : Erase(s) \/ Add(s) \/ Forget(s) \/ Lock(s) \/ (\E p \in Passes : Drop(s, p) \/ Unlock(s, p)) \/ (\E h \in {"junk", "bad"} : Damage(s, h))
        \/ Refresh \/ Restart \/ (\E i \in {1, 2} : Listen(i) \/ Hush(i))
Spec == Init /\ [][Next]_vars
(* an address is found without passphrase exactly if it belongs to an open store *)
FoundIfOpen == \A q \in Seeds : (Has(q, 0) # {}) <=> (\E s \in open : s[1] = q)
=============================================================================
