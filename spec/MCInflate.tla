----------------------------- MODULE MCInflate -----------------------------
(* The decoder, block by block, over every stream of up to N bytes.           *)
EXTENDS Inflate
CONSTANTS N, Bytes
VARIABLES b, s
Init == \E n \in 1..N : b \in [1..n -> Bytes] /\ s = [p |-> 0, out |-> <<>>, st |-> "ok"]
Next == s.st = "ok" /\ s' = Block(BitsOf(b), s) /\ UNCHANGED b
Spec == Init /\ [][Next]_<<b, s>>
\* never behind the input, and every block consumes bits
Bounded == s.p <= 8 * Len(b) /\ \A i \in 1..Len(s.out) : s.out[i] \in 0..255
Progress == [][s'.p > s.p \/ s'.st = "error"]_<<b, s>>
\* a finished stream stays the same whatever follows it
Prefix == s.st = "done" => LET r == Raw(b \o <<170>>) IN r.st = "done" /\ r.out = s.out
\* cutting a finished stream never leaves a finished one with more output
Cut == s.st = "done" /\ (s.p + 7) \div 8 = Len(b) /\ Len(b) > 1 => Raw(SubSeq(b, 1, Len(b) - 1)).st = "error"
==============================================================================
