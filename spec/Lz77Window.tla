------------------------------ MODULE Lz77Window ------------------------------
(* How src/lz77.rs, src/rle.rs and src/input_buffer.rs turn a stream of writes and flushes into      *)
(* values and blocks, without the data: which match is found where is chosen nondeterministically.   *)
(* What is left is the bookkeeping that has to be right for every data and every split of it: the    *)
(* window that is processed, the overlap of a match into the next window, the byte held back when     *)
(* matching lazily, the sliding of buffer and hash table, what a block covers and where in the buffer *)
(* its bytes are (for stored blocks), which bytes are entered into the hash table.                    *)
(* Sizes are scaled down; the relations between them are those of the code (window > block > match). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS W,          \* window (code: 32768)
          MM,         \* longest match (258)
          BCAP,       \* values per block (31744)
          LAZYS,      \* set of lazy_if_less_than
          MODES,      \* subset of {"lazy","greedy","rle"}
          LENS,       \* lengths of matches considered
          N,          \* bytes in all at most
          WRITES,     \* sizes of writes
          FLUSHES,    \* sync flushes at most
          Bugs,
          Record      \* print the situations in which blocks end (see gen/plans.py, situations)
MN == 3
BUF == 2*W + MM

VARIABLES mode, lazy, tok,  \* tok: length of the last value
  pc,                 \* "idle", "loop", "chunk", "ended" (a block ends), "over"
  call,               \* [rem, flush, p, s, e, ov, len, full]
  base, end,          \* the buffer holds the bytes base .. base+end-1 of the input
  hbase,              \* what the positions in the hash table are relative to
  n,                  \* bytes accepted
  overlap, cs, first, last, warm, bytes, wl, bth,
  roll,               \* the bytes the rolling hash is made of
  hashed,             \* positions < hashed have been entered (or skipped at a flush)
  covered, bstart, shorts, pos, flushes, fin, bad
vars == <<tok,mode,lazy,pc,call,base,end,hbase,n,overlap,cs,first,last,warm,bytes,wl,bth,roll,hashed,covered,bstart,shorts,pos,flushes,fin,bad>>

Bug(b) == b \in Bugs
MinOf(a,b) == IF a <= b THEN a ELSE b
MaxOf(a,b) == IF a >= b THEN a ELSE b
B2N(b) == IF b THEN 1 ELSE 0

NoCs == [len |-> 0, add |-> FALSE, prev |-> 0, cur |-> 0]
NoCall == [rem |-> 0, flush |-> "None", p |-> 0, s |-> 0, e |-> 0, ov |-> 0, prevlen |-> 0, ign |-> FALSE, pend |-> 0]

Init ==
  /\ mode \in MODES /\ lazy \in (IF mode = "lazy" THEN LAZYS ELSE {0})
  /\ pc = "idle" /\ call = NoCall /\ tok = 0
  /\ base = 0 /\ end = 0 /\ hbase = 0 /\ n = 0
  /\ overlap = 0 /\ cs = NoCs /\ first = TRUE /\ last = FALSE /\ warm = TRUE
  /\ bytes = 0 /\ wl = 0 /\ bth = 0 /\ roll = <<>> /\ hashed = 0
  /\ covered = 0 /\ bstart = 0 /\ shorts = 0 /\ pos = 0 /\ flushes = 0 /\ fin = FALSE /\ bad = {}

Roll(r,x) == IF Len(r) >= 3 THEN <<r[2],r[3],x>> ELSE Append(r,x)

\* ---------------------------------------------------------------- a call of lz77_compress_block
\* data: the bytes of the caller that have not been added to the buffer yet
Enter(k,flush) ==
  LET k1 == MinOf(k, BUF - end)
  IN /\ call' = [NoCall EXCEPT !.rem = k - k1, !.flush = flush]
     /\ end' = end + k1
     /\ pc' = "loop"
     /\ UNCHANGED <<warm,roll,hashed,tok,mode,lazy,base,hbase,overlap,cs,first,last,bytes,wl,bth,covered,bstart,shorts,pos>>

Write(k) == /\ pc = "idle" /\ ~fin /\ n + k <= N
            /\ n' = n + k /\ Enter(k,"None") /\ UNCHANGED <<flushes,fin,bad>>
Sync == /\ pc = "idle" /\ ~fin /\ flushes < FLUSHES
        /\ flushes' = flushes + 1 /\ Enter(0,"Sync") /\ UNCHANGED <<n,fin,bad>>
Finish == /\ pc = "idle" /\ ~fin
          /\ fin' = TRUE /\ Enter(0,"Finish") /\ UNCHANGED <<n,flushes,bad>>

Finishing == call.flush # "None"

\* k bytes from x on extend the rolling hash, each entering the position two before it
Entered(x,k,r,h) ==
  [roll |-> IF k = 0 THEN r ELSE SubSeq(r \o [i \in 1..k |-> x+i-1], MaxOf(1,Len(r)+k-2), Len(r)+k),
   hashed |-> IF k = 0 THEN h ELSE x-2+k]

\* ---------------------------------------------------------------- its loop
Loop ==
  /\ pc = "loop"
  /\ IF end < BUF /\ ~Finishing
     THEN /\ pc' = "idle" /\ UNCHANGED <<call,roll,hashed,bth,cs,bad,warm>>
     ELSE LET late == ~first /\ end >= W + 2
              ks == IF late /\ mode # "rle" /\ ~Bug("bth") THEN MinOf(bth, end - (W+2)) ELSE 0
              s == overlap + (IF first THEN 0 ELSE W)
              e == MinOf(W + (IF first THEN 0 ELSE W), end)
              h == Entered(base+W+2, ks, roll, hashed)
              \* at the start, and after a flush: what could not be entered before, for want of what follows
              f == MaxOf(0, s-2)
              g == IF Bug("D10") THEN 0 ELSE f
              kw == IF warm /\ end - f >= 2 /\ ~Bug("D10") THEN MinOf(s-f, end-f-2) ELSE 0
              hw == IF warm /\ end - f >= 2 THEN Entered(base+f+2, kw, Roll(Roll(h.roll,base+g),base+g+1), h.hashed) ELSE h
          IN /\ roll' = hw.roll
             /\ hashed' = hw.hashed
             /\ warm' = FALSE
             /\ bad' = bad \cup (IF s > e THEN {"range"} ELSE {})
             /\ bth' = IF late THEN 0 ELSE bth
             /\ call' = [call EXCEPT !.p = IF mode = "rle" THEN MaxOf(s,1) ELSE s, !.s = s, !.e = e, !.ov = 0,
                                     !.prevlen = cs.len, !.ign = cs.len >= MaxOf(lazy,MN), !.pend = B2N(cs.add)]
             \* nothing to process (the last block ended with the window): the match found stays pending
             /\ cs' = IF s >= e /\ ~Bug("D14") THEN cs ELSE [cs EXCEPT !.len = 0, !.prev = cs.cur]
             /\ pc' = IF mode = "rle" /\ s = 0 /\ e > 0 THEN "rle0" ELSE "chunk"
  /\ UNCHANGED <<tok,mode,lazy,base,end,hbase,n,overlap,first,last,bytes,wl,covered,bstart,shorts,pos,flushes,fin>>

\* a literal of byte q (relative), a match of l bytes from q
Lit(q) == /\ tok' = 1 /\ covered' = covered + 1 /\ wl' = wl + 1 /\ shorts' = shorts
          /\ bad' = bad \cup (IF base + q # covered THEN {"cover"} ELSE {})
Mat(q,l) == /\ tok' = l /\ covered' = covered + l /\ wl' = wl + 1 /\ shorts' = shorts + (IF l = MN THEN 1 ELSE 100)
            /\ bad' = bad \cup (IF base + q # covered \/ q + l > end THEN {"cover"} ELSE {})
Quiet == UNCHANGED <<tok,covered,wl,shorts>>
WillBeFull == wl + 1 >= BCAP
Same == UNCHANGED <<mode,lazy,base,end,hbase,n,overlap,first,last,warm,bytes,bth,bstart,pos,flushes,fin>>

\* the block is full; w: position of the next byte to be looked at
Full(w,ov) == pc' = "full" /\ call' = [call EXCEPT !.p = w, !.ov = ov]

\* enter the bytes q.. (at most k, not beyond the chunk, and only those followed by two more)
EnterHash(q,k,r0,h0) ==
  LET m == MaxOf(0, MinOf(k, MinOf(call.e, end-2) - q))
  IN [m |-> m, roll |-> IF m = 0 THEN r0 ELSE SubSeq(r0 \o [i \in 1..m |-> base+q+1+i], Len(r0)+m-2, Len(r0)+m),
      hashed |-> IF m = 0 THEN h0 ELSE base+q+m]

\* one byte of process_chunk_lazy
Lens(p,prev) == IF prev >= MM \/ p + prev >= end \/ p = 0 THEN {0}
                ELSE {0} \cup {l \in LENS : l > prev /\ p + l <= end}

Lazy ==
  /\ pc = "chunk" /\ mode = "lazy" /\ call.p < call.e
  /\ LET p == call.p  prev == call.prevlen IN
     IF p + 2 < end THEN
       LET r1 == Roll(roll,base+p+2)
       IN \E len \in (IF call.ign THEN {0} ELSE Lens(p,prev)) :
            LET ign2 == ~call.ign /\ len >= MaxOf(lazy,MN) IN
            IF prev >= len /\ prev >= MN THEN
              LET x == EnterHash(p+1, prev-2, r1, base+p+1)
                  ov == IF p + prev > call.e THEN p + prev - call.e - 1 ELSE call.ov
              IN /\ Mat(p-1,prev)
                 /\ roll' = x.roll /\ hashed' = x.hashed
                 /\ cs' = [cs EXCEPT !.len = 0, !.add = FALSE, !.cur = base+p, !.prev = base+p]
                 /\ IF WillBeFull THEN Full(p+prev-1,ov)
                    ELSE pc' = pc /\ call' = [call EXCEPT !.p = p+prev-1, !.ov = ov, !.prevlen = 0, !.ign = FALSE]
            ELSE IF cs.add THEN
              /\ Lit(p-1)
              /\ roll' = r1 /\ hashed' = base+p+1
              /\ cs' = [cs EXCEPT !.len = len, !.cur = base+p, !.prev = IF WillBeFull THEN @ ELSE base+p]
              /\ IF WillBeFull THEN Full(p+1,0) ELSE pc' = pc /\ call' = [call EXCEPT !.p = p+1, !.prevlen = len, !.ign = ign2]
            ELSE
              /\ Quiet /\ bad' = bad
              /\ roll' = r1 /\ hashed' = base+p+1
              /\ cs' = [cs EXCEPT !.len = len, !.add = TRUE, !.cur = base+p, !.prev = base+p]
              /\ pc' = pc /\ call' = [call EXCEPT !.p = p+1, !.prevlen = len, !.ign = ign2]
     ELSE \* the last two bytes
       IF prev >= MN THEN
         LET ov == MaxOf(0, MaxOf(0, p + prev - call.e) - 1) IN
         /\ Mat(p-1,prev)
         /\ cs' = [cs EXCEPT !.len = 0, !.add = FALSE, !.cur = base+p]
         /\ IF WillBeFull THEN Full(call.e+ov,ov) ELSE pc' = "chunked" /\ call' = [call EXCEPT !.ov = ov]
         /\ UNCHANGED <<roll,hashed>>
       ELSE IF cs.add THEN
         /\ Lit(p-1)
         /\ cs' = [cs EXCEPT !.add = FALSE, !.cur = base+p]
         /\ IF WillBeFull THEN Full(p,0) ELSE pc' = pc /\ UNCHANGED call    \* the same byte again, now without one pending
         /\ UNCHANGED <<roll,hashed>>
       ELSE
         /\ Lit(p) /\ cs' = [cs EXCEPT !.cur = base+p]
         /\ IF WillBeFull THEN Full(p+1,0) ELSE pc' = pc /\ call' = [call EXCEPT !.p = p+1]
         /\ UNCHANGED <<roll,hashed>>
  /\ Same

Greedy ==
  /\ pc = "chunk" /\ mode = "greedy" /\ call.p < call.e
  /\ LET p == call.p IN
     IF p + 2 < end THEN
       \E len \in Lens(p,0) :
         LET r1 == Roll(roll,base+p+2) IN
         IF len >= MN THEN
           LET x == EnterHash(p+1, len-1, r1, base+p+1)
               ov == IF p + len > call.e THEN p + len - call.e ELSE call.ov
           IN /\ Mat(p,len) /\ roll' = x.roll /\ hashed' = x.hashed
              /\ IF WillBeFull THEN Full(p+len,ov) ELSE pc' = pc /\ call' = [call EXCEPT !.p = p+len, !.ov = ov]
         ELSE /\ Lit(p) /\ roll' = r1 /\ hashed' = base+p+1
              /\ IF WillBeFull THEN Full(p+1,0) ELSE pc' = pc /\ call' = [call EXCEPT !.p = p+1]
     ELSE /\ Lit(p) /\ UNCHANGED <<roll,hashed>>
          /\ IF WillBeFull THEN Full(p+1,0) ELSE pc' = pc /\ call' = [call EXCEPT !.p = p+1]
  /\ UNCHANGED cs /\ Same

Rle0 == \* the first byte of the input
  /\ pc = "rle0" /\ Lit(0)
  /\ IF WillBeFull THEN Full(1,0) ELSE pc' = "chunk" /\ UNCHANGED call
  /\ UNCHANGED <<cs,roll,hashed>> /\ Same

Rle ==
  /\ pc = "chunk" /\ mode = "rle" /\ call.p < call.e
  /\ LET p == call.p IN
     \E len \in {0} \cup {l \in LENS : p + l <= end} :
       IF len >= MN THEN
         LET ov == IF p + len > call.e THEN p + len - call.e ELSE call.ov IN
         /\ Mat(p,len)
         /\ IF WillBeFull THEN Full(p+len,ov) ELSE pc' = pc /\ call' = [call EXCEPT !.p = p+len, !.ov = ov]
       ELSE /\ Lit(p)
            /\ IF WillBeFull THEN Full(p+1,0) ELSE pc' = pc /\ call' = [call EXCEPT !.p = p+1]
  /\ UNCHANGED <<cs,roll,hashed>> /\ Same

\* a match that has been found is kept until the next byte has been looked at
ChunkEnds == /\ pc = "chunk" /\ call.p >= call.e /\ pc' = "chunked"
             /\ bad' = bad \cup (IF mode = "lazy" /\ cs.len # call.prevlen THEN {"dropped"} ELSE {})
             /\ UNCHANGED <<tok,call,cs,roll,hashed,covered,wl,shorts>> /\ Same

\* ---------------------------------------------------------------- after process_chunk
\* InputBuffer::slide and ChainedHashTable::slide
SlideTo == LET left == end - W
               k == MinOf(call.rem, W)
           IN [base |-> base + W, end |-> left + k, rem |-> call.rem - k]
Slide == /\ base' = SlideTo.base /\ end' = SlideTo.end /\ hbase' = IF Bug("hslide") THEN hbase ELSE hbase + W

Situation == [mode |-> mode, lazy |-> lazy, win |-> (base + (IF first THEN 0 ELSE W)) \div W, tok |-> tok,
              d |-> covered - (base + call.e), store |-> shorts <= 1, held |-> B2N(cs.add), flushed |-> flushes,
              more |-> call.rem > 0, flush |-> call.flush]
BlockFull ==
  /\ pc = "full"
  /\ Record => PrintT("HISTORY " \o ToJson(Situation))
  /\ bytes' = bytes + (call.p - call.s + call.pend - B2N(cs.add))
  /\ bth' = call.ov
  /\ LET p0 == call.p - B2N(cs.add) IN
     IF call.ov > 0 THEN
       IF ~first THEN
         /\ Slide /\ call' = [call EXCEPT !.rem = SlideTo.rem] /\ first' = first
         /\ pos' = IF Bug("D5") THEN p0 ELSE p0 - W
         /\ overlap' = call.ov
         /\ bad' = bad \cup (IF end <= 2*W THEN {"slide"} ELSE {})
       ELSE /\ first' = FALSE /\ pos' = p0 /\ overlap' = call.ov /\ UNCHANGED <<base,end,hbase,call,bad>>
     ELSE /\ overlap' = call.p - (IF first THEN 0 ELSE W)
          /\ pos' = p0 /\ UNCHANGED <<base,end,hbase,call,first,bad>>
  /\ pc' = "block"
  /\ UNCHANGED <<tok,mode,lazy,n,cs,last,warm,wl,roll,hashed,covered,bstart,shorts,flushes,fin>>

Chunked ==
  /\ pc = "chunked"
  /\ bytes' = bytes + (call.e - call.s + call.ov + (IF Bug("pending") THEN 0 ELSE call.pend) - B2N(cs.add))
  /\ bth' = call.ov
  /\ IF (first \/ call.rem = 0) /\ Finishing /\ call.e >= end
     THEN /\ pos' = IF first THEN call.e - B2N(cs.add) ELSE end
          /\ bad' = bad \cup (IF cs.add \/ cs.len > 0 THEN {"pending"} ELSE {})
          /\ IF call.flush = "Finish"
             THEN last' = TRUE /\ first' = FALSE /\ overlap' = call.ov /\ warm' = warm
             ELSE last' = last /\ first' = first /\ warm' = ~Bug("warm")
                  /\ overlap' = IF first THEN call.e ELSE end - W
          /\ pc' = "finished" /\ UNCHANGED <<base,end,hbase,call>>
     ELSE IF first THEN /\ first' = FALSE /\ overlap' = call.ov /\ pc' = "loop"
                        /\ UNCHANGED <<pos,bad,last,warm,base,end,hbase,call>>
     ELSE /\ Slide /\ call' = [call EXCEPT !.rem = SlideTo.rem] /\ overlap' = (IF Bug("overlap") THEN 0 ELSE call.ov) /\ pc' = "loop"
          /\ bad' = bad \cup (IF end <= 2*W THEN {"slide"} ELSE {})
          /\ UNCHANGED <<pos,last,warm,first>>
  /\ UNCHANGED <<tok,mode,lazy,n,cs,wl,roll,hashed,covered,bstart,shorts,flushes,fin>>

\* ---------------------------------------------------------------- the block is output (src/compress.rs)
\* Worth storing: no long matches, and only so many short ones.  (With the real sizes: a block of 31744
\* values holds at most about 250 matches of 3 bytes if it is not worth compressing, so it has at most
\* 31744 + 2*250 < 32768 bytes; each match saves 5 bits or more, the rest of the block costs about
\* 1000 bits more than storing it.)
Storable == shorts <= 1
BlockBad ==
  (IF bytes # covered - bstart THEN {"block-bytes"} ELSE {})
  \cup (IF Storable /\ pos < bytes THEN {"forgotten"} ELSE {})
  \cup (IF Storable /\ base + pos # covered THEN {"stored-slice"} ELSE {})
  \cup (IF Storable /\ pos > end THEN {"stored-slice"} ELSE {})

Block ==
  /\ pc \in {"block","finished"}
  /\ bad' = bad \cup BlockBad \cup (IF pc = "finished" /\ covered # n THEN {"short"} ELSE {})
  /\ bytes' = 0 /\ wl' = 0 /\ bstart' = covered /\ shorts' = 0
  /\ IF pc = "finished" THEN pc' = (IF fin THEN "over" ELSE "idle") /\ UNCHANGED <<call,roll,hashed,warm,end>>
     ELSE \* the next call, with what the last one did not consume
       LET k1 == MinOf(call.rem, BUF - end) IN
       /\ pc' = "loop" /\ end' = end + k1 /\ call' = [NoCall EXCEPT !.rem = call.rem - k1, !.flush = call.flush]
       /\ UNCHANGED <<roll,hashed,warm>>
  /\ UNCHANGED <<tok,mode,lazy,base,hbase,n,overlap,cs,first,last,bth,covered,pos,flushes,fin>>

Next == \/ \E k \in WRITES : Write(k)
        \/ Sync \/ Finish \/ Loop \/ Lazy \/ Greedy \/ Rle0 \/ Rle \/ ChunkEnds \/ BlockFull \/ Chunked \/ Block
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- what is checked
\* every byte is covered by exactly one value, in order; blocks know their bytes and where they are
Right == bad = {}
\* no more is held than the buffer has room for, and a window is always kept
Fits == end <= BUF /\ wl <= BCAP /\ hbase = base
History == pc = "chunk" /\ base > 0 => base + call.p - covered <= W
NotLost == n - (base + end) = call.rem
\* When a chunk is begun, the two bytes before the next one to be entered are in the rolling hash, and
\* all earlier positions have been entered: entries are right, and none are missing.
HashReady == /\ Len(roll) >= 2 /\ roll[Len(roll)-1] = base+call.s /\ roll[Len(roll)] = base+call.s+1
             /\ hashed = base+call.s
Begins == pc = "chunk" /\ mode # "rle" /\ call.p = call.s /\ call.s < call.e /\ call.s + 2 < end
Hashed == Begins => HashReady
=============================================================================
