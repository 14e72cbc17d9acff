---------------------------- MODULE MatchingTest ----------------------------
(* Longest is what its direct definition says, and what is computed instead agrees with it, on all  *)
(* short data (with the constants scaled).                                                           *)
EXTENDS Matching, TLC
CONSTANT N
Window_ == 7
MaxLen_ == 5
TooFar_ == 4
VARIABLE d
Init == d = <<>>
Next == Len(d) < N /\ \E b \in 0..1 : d' = Append(d,b)
Spec == Init /\ [][Next]_d
Same == \A p \in 0..Len(d)-1 :
          /\ IsLongest(d,p,Len(d),Longest(d,p,Len(d)))
          /\ \A n \in 2..Len(d) : Longer(d,p,Len(d),n) = (Longest(d,p,Len(d))[1] > n)
          /\ LET b == Longest(d,p,Len(d)) IN
             /\ Useful(d,p,Len(d)) = (b[1] > MinLen \/ (b[1] = MinLen /\ b[2] <= TooFar))
             /\ b[1] > 0 => \A x \in 1..p : (Repeats(d,p,p-x,b[1]) => Nearer(d,p,b[1],x) = (x > b[2]))
          /\ p > 0 => Run(d,p,Len(d)) = LET R == {n \in 0..Len(d)-p : n <= MaxLen /\ \A j \in 1..n : d[p+j] = d[p]}
                                        IN CHOOSE n \in R : \A m \in R : m <= n
=============================================================================
