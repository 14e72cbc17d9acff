----------------------------- MODULE CodeLengths -----------------------------
(* How src/length_encode.rs assigns code lengths to symbols (mod in_place): Moffat and Katajainen's *)
(* in-place algorithm on the sorted frequencies, loop by loop, then the length limiting of miniz,   *)
(* iteration by iteration, then the assignment back to the symbols.  Checked against definitions    *)
(* that know nothing of the algorithm: the cost of a Huffman code (Deflate!Huffman, itself checked   *)
(* against the definition of optimality), Kraft's equality, the limit.                              *)
(* TLC enumerates every sorted vector of N frequencies up to FMAX (Skewed: also Fibonacci-like and  *)
(* geometric vectors of up to SKEW symbols, which are the ones that reach the limit).               *)
EXTENDS Deflate, Json

CONSTANTS N,       \* at most this many symbols
          FMAX,    \* with frequencies 1..FMAX
          SKEW,    \* symbols of the skewed vectors (0: none)
          LIMIT,   \* longest code allowed
          EXTRA,   \* num_codes has room for codes up to LIMIT + EXTRA (32 in the code: no distribution gets there)
          BRUTE,   \* check the cost against all codes for vectors of up to this many symbols
          Record,  \* print the vectors: they are replayed against the code
          Bugs

VARIABLES pc, f,               \* f: the sorted frequencies, f[0] the smallest
          a,                   \* the array of the in-place algorithm
          root, leaf, next, t, \* its indices
          avail, used, depth,
          cnt, total,          \* number of codes of each length, their code space
          len                  \* result: length of each symbol (indexed as f)
vars == <<pc,f,a,root,leaf,next,t,avail,used,depth,cnt,total,len>>

n == Len(f)
\* arrays count from 0 as in the code
At(s,i) == s[i+1]
Set(s,i,v) == [s EXCEPT ![i+1] = v]
None == <<>>

Sum(s) == FoldLeft(LAMBDA x,y: x+y, 0, s)
MaxOf(s) == FoldLeft(LAMBDA x,y: Max2(x,y), 0, s)

\* ---------------------------------------------------------------------------- what is enumerated
RECURSIVE Sorted(_,_)
Sorted(k,lo) == IF k = 0 THEN {<<>>} ELSE UNION {{<<v>> \o s : s \in Sorted(k-1,v)} : v \in lo..FMAX}
RECURSIVE Fib(_,_,_)
Fib(x,y,k) == IF k = 0 THEN <<>> ELSE <<x>> \o Fib(y,x+y,k-1)
RECURSIVE Geo(_,_,_,_)
Geo(x,p,q,k) == IF k = 0 THEN <<>> ELSE <<x>> \o Geo((x*p) \div q + 1,p,q,k-1)
Ones(k) == [i \in 1..k |-> 1]
SkewSet == UNION {
    {Ones(m) \o Fib(x,y,k) : x \in 1..2, y \in 2..4, m \in 0..3}
    \cup {Geo(x,p,q,k) : x \in 1..3, p \in {3,4,5,8}, q \in {2,3}}
    \cup {[i \in 1..k |-> 1] \o <<w>> : w \in {1,2,3,10,50}}
    : k \in 2..SKEW}
SortUp(s) == SortSeq(s, LAMBDA x,y: x < y)
Vectors == UNION {Sorted(k,1) : k \in 2..N} \cup (IF SKEW = 0 THEN {} ELSE {SortUp(s) : s \in SkewSet})

Init == /\ f \in Vectors
        /\ a = [f EXCEPT ![1] = f[1] + f[2]]
        /\ root = 0 /\ leaf = 2 /\ next = 1
        /\ pc = "pair"
        /\ t = 0 /\ avail = 0 /\ used = 0 /\ depth = 0
        /\ cnt = None /\ total = 0 /\ len = None

\* ---------------------------------------------------------------------------------------- step_1
\* one iteration of the loop over `next`: two nodes become the children of a[next]
Pair ==
  /\ pc = "pair" /\ next < n-1
  /\ LET first == leaf >= n \/ (IF "tie" \in Bugs THEN At(a,root) <= At(a,leaf) ELSE At(a,root) < At(a,leaf))
         a1 == IF first THEN Set(Set(a,next,At(a,root)),root,next) ELSE Set(a,next,At(a,leaf))
         r1 == IF first THEN root+1 ELSE root
         l1 == IF first THEN leaf ELSE leaf+1
         second == l1 >= n \/ ((r1 < next \/ "ownchild" \in Bugs) /\ At(a1,r1) < At(a1,l1))
         a2 == IF second THEN Set(Set(a1,next,At(a1,next)+At(a1,r1)),r1,next) ELSE Set(a1,next,At(a1,next)+At(a1,l1))
     IN /\ a' = a2
        /\ root' = IF second THEN r1+1 ELSE r1
        /\ leaf' = IF second THEN l1 ELSE l1+1
  /\ next' = next+1
  /\ UNCHANGED <<pc,f,t,avail,used,depth,cnt,total,len>>
Paired ==
  /\ pc = "pair" /\ next >= n-1
  /\ pc' = "depths" /\ a' = Set(a,n-2,0) /\ t' = n-3
  /\ UNCHANGED <<f,root,leaf,next,avail,used,depth,cnt,total,len>>

\* ---------------------------------------------------------------------------------------- step_2
\* parents become depths
Depths ==
  /\ pc = "depths" /\ t >= 0
  /\ a' = Set(a,t,At(a,At(a,t))+1)
  /\ t' = t-1
  /\ UNCHANGED <<pc,f,root,leaf,next,avail,used,depth,cnt,total,len>>
DepthsDone ==
  /\ pc = "depths" /\ t < 0
  /\ pc' = "leaves" /\ avail' = 1 /\ used' = 0 /\ depth' = 0 /\ root' = n-2 /\ next' = n-1
  /\ UNCHANGED <<f,a,leaf,t,cnt,total,len>>
\* internal nodes at this depth; what remains of the level are leaves
RECURSIVE CountRoots(_,_)
CountRoots(r,d) == IF r >= 0 /\ At(a,r) = d THEN 1 + CountRoots(r-1,d) ELSE 0
Leaves ==
  /\ pc = "leaves" /\ avail > 0
  /\ LET u == CountRoots(root,depth)
         k == avail - u
     IN /\ a' = [i \in 1..n |-> IF i-1 <= next /\ i-1 > next-k THEN depth ELSE a[i]]
        /\ root' = root-u /\ next' = next-k
        /\ avail' = 2*u
  /\ depth' = depth+1
  /\ UNCHANGED <<pc,f,leaf,t,used,cnt,total,len>>

\* -------------------------------------------------------------------- enforce_max_code_lengths
Counted ==
  /\ pc = "leaves" /\ avail = 0
  /\ LET c == FoldLeft(LAMBDA x,d: [x EXCEPT ![d+1] = @+1], [i \in 1..LIMIT+EXTRA+1 |-> 0], a)
         over == IF "toofew" \in Bugs THEN Sum(SubSeq(c,LIMIT+2,Min2(Len(c),LIMIT+3))) ELSE Sum(SubSeq(c,LIMIT+2,Len(c)))
         c1 == [c EXCEPT ![LIMIT+1] = @ + over]
     IN /\ cnt' = c1
        /\ total' = Sum([i \in 1..LIMIT |-> c1[i+1] * Pow2[LIMIT-i]])
  /\ pc' = "limit"
  /\ UNCHANGED <<f,a,root,leaf,next,t,avail,used,depth,len>>
\* the longest code shorter than the limit is split to make room for one that is too long
Limit ==
  /\ pc = "limit" /\ total # Pow2[LIMIT]
  /\ LET S == {i \in 1..LIMIT-1 : cnt[i+1] # 0}
         c1 == [cnt EXCEPT ![LIMIT+1] = @-1]
     IN cnt' = IF S = {} THEN c1
               ELSE LET i == CHOOSE i \in S : \A j \in S : j <= i IN
                    [c1 EXCEPT ![i+1] = @-1, ![i+2] = @ + (IF "split" \in Bugs THEN 1 ELSE 2)]
  /\ total' = total-1
  /\ UNCHANGED <<pc,f,a,root,leaf,next,t,avail,used,depth,len>>
\* the shortest codes go to the most frequent symbols
Assign ==
  /\ pc = "limit" /\ total = Pow2[LIMIT]
  /\ LET asc == FoldLeft(LAMBDA x,i: x \o [k \in 1..cnt[i+1] |-> i], <<>>, [i \in 1..LIMIT |-> i])
     IN len' = IF "direction" \in Bugs THEN [i \in 1..n |-> IF i <= Len(asc) THEN asc[i] ELSE 0]
               ELSE [i \in 1..n |-> IF n+1-i <= Len(asc) THEN asc[n+1-i] ELSE 0]
  /\ pc' = "done"
  /\ UNCHANGED <<f,a,root,leaf,next,t,avail,used,depth,cnt,total>>

Next == Pair \/ Paired \/ Depths \/ DepthsDone \/ Leaves \/ Counted \/ Limit \/ Assign
        \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------------------------------------- properties
\* Kraft sum in units of 2^-m
Kraft(L,m) == Sum([i \in 1..Len(L) |-> Pow2[m-L[i]]])

\* the weights still to be combined are those of the input, none lost
Weights == pc = "pair" =>
  Sum([i \in 1..n |-> IF (i-1 >= root /\ i-1 < next) \/ i-1 >= leaf THEN a[i] ELSE 0]) = Sum(f)
\* after step_2 the array holds the depths of a complete tree, deepest first, of least cost
Tree == pc = "leaves" /\ avail = 0 =>
  /\ \A i \in 1..n-1 : a[i] >= a[i+1]
  /\ MaxOf(a) <= 30 /\ Kraft(a,MaxOf(a)) = Pow2[MaxOf(a)]
  /\ CodeBits(f,a) = Huffman(f)[1]
  /\ MaxOf(a) = Huffman(f)[2]
\* num_codes is an array of 33
Room == pc = "leaves" /\ avail = 0 => MaxOf(a) <= LIMIT + EXTRA
\* the loop that limits ends: it can always go down to the right code space and never misses it
Limiting == pc = "limit" =>
  /\ total >= Pow2[LIMIT]
  /\ total = Sum([i \in 1..LIMIT |-> cnt[i+1] * Pow2[LIMIT-i]])
  /\ Sum([i \in 1..LIMIT |-> cnt[i+1]]) = n
  /\ (total > Pow2[LIMIT] => \E i \in 1..LIMIT-1 : cnt[i+1] # 0)
\* the result: a complete code within the limit, frequent symbols not longer than rare ones,
\* and of least cost if there is an optimal code within the limit
Good == pc = "done" =>
  /\ Len(len) = n
  /\ \A i \in 1..n : len[i] \in 1..LIMIT
  /\ Kraft(len,LIMIT) = Pow2[LIMIT]
  /\ \A i,j \in 1..n : f[i] > f[j] => len[i] <= len[j]
  /\ (Huffman(f)[2] <= LIMIT => CodeBits(f,len) = Huffman(f)[1])

\* Huffman's cost is the least of all complete codes: every multiset of lengths, rare symbols longest
RECURSIVE Codes(_,_,_)
\* all nonincreasing sequences of k lengths up to m, whose code space is exactly s (in units of 2^-m)
Codes(k,m,s) ==
  IF k = 0 THEN IF s = 0 THEN {<<>>} ELSE {}
  ELSE UNION {{Append(c,l) : c \in {d \in Codes(k-1,m,s - Pow2[m-l]) : \A i \in 1..k-1 : d[i] >= l}} : l \in {l \in 1..m : Pow2[m-l] <= s}}
Optimal == pc = "done" /\ n <= BRUTE =>
  \A c \in Codes(n,n-1,Pow2[n-1]) : CodeBits(f,c) >= Huffman(f)[1]

Ends == <>(pc = "done")

Bounds == Record /\ pc = "done" => PrintT("HISTORY " \o ToJson([f |-> f, deep |-> MaxOf(a), limited |-> MaxOf(a) > LIMIT]))
=============================================================================
