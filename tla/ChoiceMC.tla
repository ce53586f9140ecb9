------------------------------ MODULE ChoiceMC ----------------------------
(* All offers of few items: every value is picked by exactly its weight of  *)
(* the throws; doors open and close, and are chosen while there are any.    *)
EXTENDS Choice, TLC
CONSTANTS V, MaxW, MaxLen
VARIABLES offer, chosen
vars == <<offer, chosen>>
Init == offer = <<>> /\ chosen = "none"
Open == Len(offer) < MaxLen /\ \E v \in V : \E w \in 0..MaxW : offer' = Append(offer, [v |-> v, w |-> w]) /\ chosen' = "none"
Choose == /\ offer # <<>>
          /\ chosen' \in IF Total(offer) = 0 THEN Values(offer) ELSE {Pick(offer, u) : u \in 0..(Total(offer) - 1)}
          /\ UNCHANGED offer
Close == offer # <<>> /\ offer' = Tail(offer) /\ chosen' = "none"
Next == Open \/ Choose \/ Close
Spec == Init /\ [][Next]_vars
Legal == chosen # "none" => chosen \in Choosable(offer)
Proportional == Total(offer) > 0 => \A v \in Values(offer) :
    Cardinality({u \in 0..(Total(offer) - 1) : Pick(offer, u) = v}) = WeightOf(offer, v)
Complete == Total(offer) > 0 => {Pick(offer, u) : u \in 0..(Total(offer) - 1)} = Choosable(offer)
(* the test accepts what is exactly in proportion and refuses half and twice of it *)
Sharp == Total(offer) > 0 => \A v \in Values(offer) : LET w == WeightOf(offer, v)  t == Total(offer)  m == Mean(4000, w, t) IN
    /\ Fits(m, 4000, w, t)
    /\ (w > 0 /\ w < t => ~Fits(m \div 2, 4000, w, t)) /\ (2 * w <= t /\ w > 0 => ~Fits(2 * m, 4000, w, t))
=============================================================================
