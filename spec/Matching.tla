------------------------------ MODULE Matching ------------------------------
(* Which repetition an unlimited search finds.  Positions are counted from 0; the byte at p is     *)
(* d[p+1].  The data known when the byte at p is looked at ends at `end`.                           *)
EXTENDS Integers, Sequences, FiniteSets

Window == 32768
MinLen == 3
MaxLen == 258
TooFar == 8192                 \* a repetition of three bytes further back is not worth a match

Repeats(d,p,q,n) == SubSeq(d,p+1,p+n) = SubSeq(d,q+1,q+n)

\* Those of the positions in S at which another byte agrees, until there are none.
RECURSIVE Grow_(_,_,_,_,_)
Grow_(d,p,most,n,S) ==
  IF n = most THEN <<n,S>>
  ELSE LET T == {q \in S : d[q+n+1] = d[p+n+1]}
       IN IF T = {} THEN <<n,S>> ELSE Grow_(d,p,most,n+1,T)

\* The longest repetition at p: <<length, distance>>, the nearest of that length; <<0,0>> if there is none.
Longest(d,p,end) ==
  LET most == IF end - p < MaxLen THEN end - p ELSE MaxLen
      from == IF p < Window THEN 0 ELSE p - Window
      S == IF most < MinLen THEN {}
           ELSE {q \in from..(p-1) : /\ d[q+1] = d[p+1] /\ d[q+2] = d[p+2] /\ d[q+3] = d[p+3]}
      g == Grow_(d,p,most,MinLen,S)
  IN IF S = {} THEN <<0,0>> ELSE <<g[1], p - CHOOSE q \in g[2] : \A r \in g[2] : r <= q>>

\* What the definition above computes, said directly (used to check it on small cases).
IsLongest(d,p,end,b) ==
  LET C == {<<n,x>> \in (MinLen..(end-p)) \X (1..p) : n <= MaxLen /\ x <= Window /\ Repeats(d,p,p-x,n)}
  IN IF C = {} THEN b = <<0,0>>
     ELSE /\ b \in C /\ \A c \in C : c[1] < b[1] \/ (c[1] = b[1] /\ c[2] >= b[2])

\* The run of the byte before p that begins at p.
RECURSIVE Run_(_,_,_,_)
Run_(d,p,most,n) == IF n < most /\ d[p+n+1] = d[p] THEN Run_(d,p,most,n+1) ELSE n
Run(d,p,end) ==
  IF p = 0 THEN 0 ELSE Run_(d, p, IF end - p < MaxLen THEN end - p ELSE MaxLen, 0)

From(p) == IF p < Window THEN 0 ELSE p - Window

\* The same, asked for one token: is there a repetition of more than n bytes; one of n bytes nearer than x;
\* one that is worth a match?
Longer(d,p,end,n) ==
  /\ n < MaxLen /\ p + n < end
  /\ \E q \in From(p)..(p-1) : /\ d[q+n+1] = d[p+n+1] /\ d[q+1] = d[p+1] /\ d[q+2] = d[p+2]
                               /\ Repeats(d,p,q,n+1)
Nearer(d,p,n,x) ==
  \E q \in (p-x+1)..(p-1) : /\ d[q+n] = d[p+n] /\ d[q+1] = d[p+1] /\ Repeats(d,p,q,n)
Useful(d,p,end) ==
  /\ p + MinLen <= end
  /\ \E q \in From(p)..(p-1) : /\ d[q+1] = d[p+1] /\ d[q+2] = d[p+2] /\ d[q+3] = d[p+3]
                               /\ p - q <= TooFar \/ Longer(d,p,end,MinLen)

\* How many earlier positions there are within the window.
Earlier(p) == p - From(p)

(* The clauses that the token of n bytes (n = 1, x = 0: a literal) at p breaks, for the options      *)
(* checks, lazy (the value of lazy_if_less_than), isLazy.  They only speak of searches that the      *)
(* limit on the number of checks cannot have cut short: there are at most `checks` earlier positions. *)
(* Lazy matching may output a literal, though a repetition begins there, if a longer one begins at   *)
(* the next byte; it looks less far for that one if the first one has 32 bytes or more.               *)
TokenClauses(d,p,n,x,end,checks,lazy,isLazy) ==
  IF checks = 0 THEN
    IF ~isLazy THEN {}
    ELSE LET r == Run(d,p,end) IN
         IF x = 0 THEN (IF r >= MinLen THEN {"missed-match"} ELSE {})
         ELSE IF x = 1 /\ n < r THEN {"shorter-match"} ELSE {}
  ELSE IF Earlier(p) > checks THEN {}
  ELSE
    LET cut == /\ isLazy /\ Earlier(p) > checks \div 4
               /\ p > 0 /\ Longer(d,p-1,end,31)
        deferred == LET b == Longest(d,p,end) IN
                    /\ isLazy /\ b[1] < (IF lazy > MinLen THEN lazy ELSE MinLen)
                    /\ Longer(d,p+1,end,b[1])
        s == IF x > 0
             THEN (IF Longer(d,p,end,n) THEN {"shorter-match"} ELSE IF Nearer(d,p,n,x) THEN {"farther-match"} ELSE {})
             ELSE IF Useful(d,p,end) /\ ~deferred THEN {"missed-match"} ELSE {}
    IN IF s # {} /\ cut THEN {} ELSE s
=============================================================================
