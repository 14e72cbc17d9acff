------------------------------ MODULE RunLengths ------------------------------
(* How src/length_encode.rs (encode_lengths_m) writes a list of code lengths with the repeat codes *)
(* 16, 17 and 18 of RFC 1951, 3.2.7: one action per length read, with what is pending in `repeat`. *)
(* TLC enumerates lists made of RUNS runs with the given lengths (with the real constants of the   *)
(* format), and all lists up to FULL entries with scaled constants (Copy, Mid, Big).               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Copy,       \* longest repetition of the previous length (6)
          Mid, Big,    \* longest run of zeroes of the short and of the long code (10, 138)
          Sizes,       \* lengths of the runs
          RUNS,        \* at most this many runs
          FULL,        \* and all lists of up to this many entries
          Values,
          COUNT,       \* 0, or so many random lists instead
          Record, Bugs

Least == 3            \* shortest repetition
VARIABLES l,          \* the list
          p,          \* entries read
          prev, repeat, out,
          done
vars == <<l,p,prev,repeat,out,done>>

RECURSIVE Runs(_)
Runs(k) == IF k = 0 THEN {<<>>}
           ELSE {<<>>} \cup {[i \in 1..s |-> v] \o r : s \in Sizes, v \in Values, r \in Runs(k-1)}
Lists == (Runs(RUNS) \cup UNION {[1..k -> Values] : k \in 1..FULL}) \ {<<>>}

\* lists of RUNS runs drawn at random, for replay against the code
Drawn(k) == FoldLeft(LAMBDA x,j: LET r == RandomElement(Sizes \X Values) IN x \o [i \in 1..r[1] |-> r[2]], <<>>, [j \in 1..k |-> j])

Init == /\ IF COUNT = 0 THEN l \in Lists ELSE l \in {Drawn(1 + (j % RUNS)) : j \in 1..COUNT}
        /\ p = 0 /\ repeat = 0 /\ out = <<>> /\ done = FALSE
        /\ prev = 255 - l[1]          \* something else than the first length

\* ---------------------------------------------------------------------------------- the algorithm
Lit(v) == <<"lit",v>>
Max_(v) == IF v = 0 THEN (IF "big" \in Bugs THEN Big+1 ELSE Big) ELSE Copy
NotMax(v,r) == r < Max_(v)
Code(v,r) == IF v # 0 THEN <<"copy",r>>
             ELSE IF r <= (IF "mid" \in Bugs THEN Mid+1 ELSE Mid) THEN <<"mid",r>> ELSE <<"big",r>>
AtEnd(i) == i = Len(l)

Read ==
  /\ ~done /\ p < Len(l)
  /\ LET i == p+1
         v == l[i]
         rep == IF v = prev /\ NotMax(v,repeat) THEN repeat+1 ELSE repeat
     IN IF ~(v # prev \/ AtEnd(i) \/ ~NotMax(v,rep)) THEN repeat' = rep /\ out' = out
        ELSE IF rep >= Least THEN
          LET o == Append(out,Code(prev,rep)) IN
          IF v = prev THEN out' = o /\ repeat' = 0
          ELSE IF v # 0 \/ (AtEnd(i) /\ "lastzero" \notin Bugs) THEN out' = Append(o,Lit(v)) /\ repeat' = 0
          ELSE out' = o /\ repeat' = 1
        ELSE
          LET skip == IF AtEnd(i) /\ v = prev THEN 1 ELSE 0
              extra == IF v # 0 \/ AtEnd(i) THEN 1 ELSE 0
              from == i - 1 + (IF "skip" \in Bugs THEN 0 ELSE skip) - rep     \* entries before it have been written
              k == LET m == rep + extra IN IF from + m > Len(l) THEN Len(l) - from ELSE m
          IN /\ out' = out \o [j \in 1..k |-> Lit(l[from+j])]
             /\ repeat' = 1 - extra
  /\ prev' = l[p+1] /\ p' = p+1
  /\ UNCHANGED <<l,done>>
Finish == p = Len(l) /\ ~done /\ done' = TRUE /\ UNCHANGED <<l,p,prev,repeat,out>>
Next == Read \/ Finish \/ (done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------------------------- properties
\* how a decoder reads the codes
RECURSIVE Expand(_,_)
Expand(o,acc) ==
  IF o = <<>> THEN acc
  ELSE LET c == Head(o) IN
    IF c[1] = "lit" THEN Expand(Tail(o),Append(acc,c[2]))
    ELSE IF c[1] = "copy" THEN
      IF acc = <<>> THEN <<"copy of nothing">>
      ELSE Expand(Tail(o),acc \o [i \in 1..c[2] |-> acc[Len(acc)]])
    ELSE Expand(Tail(o),acc \o [i \in 1..c[2] |-> 0])

\* what was written and what is pending is what was read
Right == LET pend == IF p = 0 THEN <<>> ELSE [i \in 1..repeat |-> prev] IN Expand(out,<<>>) \o pend = SubSeq(l,1,p)
Complete == done => Expand(out,<<>>) = l
\* each code can represent its count
InRange == \A i \in 1..Len(out) : LET c == out[i] IN
  /\ c[1] = "copy" => c[2] \in Least..Copy
  /\ c[1] = "mid"  => c[2] \in Least..Mid
  /\ c[1] = "big"  => c[2] \in Mid+1..Big
\* no run that a repeat code could have carried is written length by length
Short == done => \A i \in 1..Len(out)-3 :
  ~(\A j \in 0..3 : out[i+j] = out[i] /\ out[i][1] = "lit")
Shapes == Record /\ ~done /\ p = Len(l) => PrintT("HISTORY " \o ToJson([l |-> l, o |-> out]))
===============================================================================
