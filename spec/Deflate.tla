------------------------------- MODULE Deflate -------------------------------
(* RFC 1951 as definitions: how a DEFLATE bit stream is read.  Everything here is written from    *)
(* the RFC and from what strict decoders (zlib) accept; nothing is taken from the encoder under    *)
(* test.  Bytes are sequences of 0..255, bit positions count from 0, LSB first.                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Pow2 == [i \in 0..30 |-> 2^i]

LBase  == <<3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258>>
LExtra == <<0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0>>
DBase  == <<1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,
            4097,6145,8193,12289,16385,24577>>
DExtra == <<0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13>>
\* the order in which the code lengths of the code length alphabet are stored
CLOrder == <<16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15>>

Byte(B,i) == IF i <= Len(B) THEN B[i] ELSE 0
\* at least 17 valid bits from bit position p on, the first one least significant
Peek(B,p) == LET i == p \div 8 + 1 IN
  (Byte(B,i) + 256*Byte(B,i+1) + 65536*Byte(B,i+2)) \div Pow2[p % 8]
Bits(B,p,n) == Peek(B,p) % Pow2[n]

\* ---------------------------------------------------------------- canonical Huffman codes (3.2.2)
\* number of codes of each length 0..15, at index length + 1
Counts(L) == FoldLeft(LAMBDA a,l: [a EXCEPT ![l+1] = @+1], [i \in 1..16 |-> 0], L)
\* symbols (counted from 1) with a code, by length and then by symbol
SymsSorted(L) ==
  FoldLeft(LAMBDA a,len: a \o SelectSeq([i \in 1..Len(L) |-> i], LAMBDA i: L[i]=len),
           <<>>, [i \in 1..15 |-> i])
\* code space left over: 0 complete, < 0 over-subscribed, > 0 incomplete (in units of 2^-15)
Left(C) == 32768 - FoldLeft(LAMBDA a,i: a + C[i+1] * Pow2[15-i], 0, [i \in 1..15 |-> i])

\* Decode one symbol bit by bit: <<symbol + 1, bits used>>, or <<0,0>> if no code matches.
RECURSIVE Walk(_,_,_,_,_,_,_)
Walk(C,S,w,len,code,first,index) ==
  IF len > 15 THEN <<0,0>>
  ELSE LET c2  == code + (w % 2)
           cnt == C[len+1]
       IN IF c2 - cnt < first THEN <<S[index + (c2-first) + 1], len>>
          ELSE Walk(C,S,w \div 2,len+1,2*c2,2*(first+cnt),index+cnt)
\* A code: counts, sorted symbols, and the result of Walk tabulated for codes of up to 9 bits.
Slow(L) == [C |-> [Counts(L) EXCEPT ![1] = 0], S |-> SymsSorted(L), fast |-> <<>>]
MkCode(L) ==
  LET t == Slow(L) IN
  [t EXCEPT !.fast = TLCEval([i \in 1..512 |->
      LET r == Walk(t.C,t.S,i-1,1,0,0,0) IN IF r[2] > 9 THEN <<0,0>> ELSE r])]
Decode(T,w) == IF T.fast = <<>> THEN Walk(T.C,T.S,w,1,0,0,0)
               ELSE LET e == T.fast[(w % 512)+1] IN
                    IF e[2] > 0 THEN e ELSE Walk(T.C,T.S,w,1,0,0,0)

FixedLitLens == [i \in 1..288 |-> IF i <= 144 THEN 8 ELSE IF i <= 256 THEN 9 ELSE IF i <= 280 THEN 7 ELSE 8]
FixedLit  == MkCode(FixedLitLens)
FixedDist == Slow([i \in 1..30 |-> 5])
\* bits of a symbol (counted from 0) in a fixed block
FixedBits(s) == IF s <= 143 THEN 8 ELSE IF s <= 255 THEN 9 ELSE IF s <= 279 THEN 7 ELSE 8

\* ------------------------------------------------------------------ dynamic block header (3.2.7)
RECURSIVE RdLens(_,_,_,_,_,_)
\* <<bit position, lengths, error, symbol counts>>; reads `need` code lengths with the code T
RdLens(b,p,T,need,acc,cf) ==
  IF Len(acc) = need THEN <<p,acc,"",cf>>
  ELSE IF Len(acc) > need THEN <<p,acc,"len-overrun",cf>>
  ELSE IF p > 8*Len(b) THEN <<p,acc,"overrun",cf>>
  ELSE
  LET e == Walk(T.C,T.S,Peek(b,p),1,0,0,0)
      s == e[1]-1
      q == p+e[2]
      c2 == [cf EXCEPT ![s+1] = @+1] IN
  IF e[1] = 0 THEN <<p,acc,IF p+15 > 8*Len(b) THEN "overrun" ELSE "bad-clcode",cf>>
  ELSE IF s < 16 THEN RdLens(b,q,T,need,Append(acc,s),c2)
  ELSE IF s = 16 THEN
    IF acc = <<>> THEN <<p,acc,"repeat-first",cf>>
    ELSE LET r == 3+Bits(b,q,2) IN RdLens(b,q+2,T,need,acc \o [i \in 1..r |-> acc[Len(acc)]],c2)
  ELSE IF s = 17 THEN LET r == 3+Bits(b,q,3) IN RdLens(b,q+3,T,need,acc \o [i \in 1..r |-> 0],c2)
  ELSE LET r == 11+Bits(b,q,7) IN RdLens(b,q+7,T,need,acc \o [i \in 1..r |-> 0],c2)

\* how many symbols a code has
Used(C) == FoldLeft(LAMBDA a,i: a + C[i+1], 0, [i \in 1..15 |-> i])
\* What a strict decoder demands of the three codes of a dynamic block.
CodeError(name,L,single,empty) ==
  LET C == [Counts(L) EXCEPT ![1] = 0]
      n == Used(C)
      l == Left(C) IN
  IF l < 0 THEN name \o "-oversubscribed"
  ELSE IF l = 0 THEN ""
  ELSE IF n = 0 /\ empty THEN ""
  ELSE IF n = 1 /\ single /\ C[2] = 1 THEN ""
  ELSE name \o "-incomplete"

\* The header of a dynamic block whose 3 bit block header is at p.
DynHeader(b,p) ==
  LET nl == Bits(b,p+3,5)+257
      nd == Bits(b,p+8,5)+1
      nc == Bits(b,p+13,4)+4
      cl == FoldLeft(LAMBDA a,i: [a EXCEPT ![CLOrder[i]+1] = Bits(b,p+17+3*(i-1),3)],
                     [i \in 1..19 |-> 0], [i \in 1..nc |-> i])
      ce == CodeError("clcode",cl,FALSE,FALSE)
      r  == RdLens(b,p+17+3*nc,Slow(cl),nl+nd,<<>>,[i \in 1..19 |-> 0])
      ll == SubSeq(r[2],1,nl)
      dl == SubSeq(r[2],nl+1,nl+nd)
      le == CodeError("litcode",ll,FALSE,FALSE)
      de == CodeError("distcode",dl,TRUE,TRUE)
  IN IF p+17+3*nc > 8*Len(b) THEN [p |-> p, err |-> "overrun"]
     ELSE IF nl > 286 THEN [p |-> p, err |-> "hlit"]
     ELSE IF nd > 30 THEN [p |-> p, err |-> "hdist"]
     ELSE IF ce # "" THEN [p |-> p, err |-> ce]
     ELSE IF r[3] # "" THEN [p |-> p, err |-> r[3]]
     ELSE IF r[1] > 8*Len(b) THEN [p |-> p, err |-> "overrun"]
     ELSE IF ll[257] = 0 THEN [p |-> p, err |-> "no-eob"]
     ELSE IF le # "" THEN [p |-> p, err |-> le]
     ELSE IF de # "" THEN [p |-> p, err |-> de]
     ELSE [p |-> r[1], err |-> "", ll |-> ll, dl |-> dl, cl |-> cl, cf |-> r[4]]

\* the length symbol (257..285) and the distance symbol (0..29) of a value: for the cost of tokens
RECURSIVE Find(_,_,_)
Find(base,x,i) == IF i < Len(base) /\ base[i+1] <= x THEN Find(base,x,i+1) ELSE i

Min2(a,b) == IF a <= b THEN a ELSE b
Max2(a,b) == IF a >= b THEN a ELSE b

\* ------------------------------------------------------------- the cost of optimal prefix codes
\* Total bits and depth of a Huffman code for the positive frequencies in F, ties in favour of
\* leaves (which gives the least depth).  <<bits, depth>>
Huffman(F) ==
  LET W == SortSeq(SelectSeq(F, LAMBDA f: f > 0), LAMBDA a,b: a < b)
      n == Len(W)
      \* state: next leaf, internal nodes as <<weight,depth>>, next internal, total
      Take(s) ==
        LET leaf == s.l <= n /\ (s.i > Len(s.q) \/ W[s.l] <= s.q[s.i][1])
        IN IF leaf THEN <<[s EXCEPT !.l = @+1], W[s.l], 0>>
           ELSE <<[s EXCEPT !.i = @+1], s.q[s.i][1], s.q[s.i][2]>>
      Merge(s,k) ==
        LET a == Take(s)  b == Take(a[1])
            w == a[2]+b[2]
            d == 1 + Max2(a[3],b[3])
        IN [b[1] EXCEPT !.q = Append(@,<<w,d>>), !.t = @+w]
  IN IF n = 0 THEN <<0,0>>
     ELSE IF n = 1 THEN <<W[1],1>>
     ELSE LET r == FoldLeft(Merge,[l |-> 1, q |-> <<>>, i |-> 1, t |-> 0],[x \in 1..n-1 |-> x])
          IN <<r.t, r.q[n-1][2]>>
\* bits spent on the symbols counted in F with code lengths L
CodeBits(F,L) == FoldLeft(LAMBDA a,i: a + F[i]*L[i], 0, [i \in 1..Len(L) |-> i])

\* A stored block is no sensible choice for bytes that literals alone would code far shorter.
StoredTooBig(bytes) ==
  LET n == Len(bytes)
      F == FoldLeft(LAMBDA a,x: [a EXCEPT ![x+1] = @+1], [[i \in 1..257 |-> 0] EXCEPT ![257] = 1], bytes)
  IN n >= 2000 /\ 10 * (Huffman(F)[1] + 2300) < 7 * 8 * n
=============================================================================
