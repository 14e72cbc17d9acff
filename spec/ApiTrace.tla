------------------------------ MODULE ApiTrace ------------------------------
(* Validates executions recorded from the real encoders against the specification.                 *)
(*                                                                                                 *)
(* Each line of the log is one execution: the data accepted and delivered per stream, and every     *)
(* observable event in order.  The state machine consumes one event per step (Contract); whenever   *)
(* the contract says what the delivered bytes have to amount to (flush, finish, reset, drop, end),   *)
(* it decodes them, bit for bit, with the definitions in Deflate and Containers, against the data   *)
(* the encoder accepted.  Nothing here depends on how the encoder works.                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils,
        Deflate, Checksums, Containers, Contract, Matching

CONSTANTS Relevant(_),     \* the clauses that belong to a property
          DecodeClauses    \* the clauses that need the delivered bytes to be decoded

Log  == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

VARIABLES k,      \* the execution, an index of Log
          i,      \* the next event
          ph,     \* "ev": consume it, "dec": decode for it, "fin": all consumed, "end"
          c,      \* contract state
          D,      \* decoder state of the current stream
          sum,    \* checksum of what was accepted in the current stream
          viol,   \* clauses broken so far
          stat    \* what was seen, for the record
vars == <<k,i,ph,c,D,sum,viol,stat>>
View == <<k,i,ph,D.p,D.o,D.m,D.wait>>

L    == Log[k]
Fmt  == L.fmt
Ev   == L.ev[i]
Inp  == L.in[c.st]
Out  == L.out[c.st]
Lim  == 8 * c.del[c.st]          \* bits delivered so far
Acc  == c.acc[c.st]
Freq == L.fl % 2 = 1
\* Without decoding the delivered bytes are only compared with those of other executions.
Judged   == Relevant(Prop)
Decoded  == Judged \cap DecodeClauses # {}
Decodes  == L.fl < 2 /\ Decoded
RleMode  == L.opts[1] = 0 /\ L.opts[3] = 1
HuffMode == L.opts[1] = 0 /\ L.opts[3] = 0
\* The positions at which to see whether the best repetition was used, if nothing failed so far.
SearchClauses == {"missed-match","shorter-match","farther-match"}
Probes(goal) ==
  IF Judged \cap SearchClauses = {} \/ stat.errs > 0 \/ goal \notin {"flush","complete"} THEN {}
  ELSE ToSet(L.prb[c.st])

SumInit == IF Fmt = "zlib" THEN AdlerInit ELSE CrcInit
Summed == Judged \cap {"sum","trailer"} # {}
SumOf(s,bytes) == IF ~Summed THEN s ELSE IF Fmt = "zlib" THEN Adler(s,bytes) ELSE IF Fmt = "gzip" THEN Crc(s,bytes) ELSE s

NoFreq == <<>>
Zeros(n) == [x \in 1..n |-> 0]
CovOf(s) == LET r == SelectSeq(L.cov, LAMBDA x: x[1] = s) IN IF r = <<>> THEN <<s,0,0,0>> ELSE r[1]

\* m: what comes next - "start" (container header), "hdr" (block header), "sym", "stored", "trailer" -
\* or "done", "bad".  p: bits read, o: bytes produced.  hs, bo: where the current block began, in
\* bits and bytes.  sb: bits its symbols take in a fixed block.  cl: symbols for the bytes in the range of cov.
DInit == [m |-> "start", p |-> 0, o |-> 0, fin |-> FALSE, ty |-> "", lt |-> <<>>, dt |-> <<>>,
          hs |-> 0, bo |-> 0, sb |-> 0, last |-> "", why |-> "", wait |-> FALSE,
          lits |-> 0, mats |-> 0, maxd |-> 0, cl |-> 0, F |-> NoFreq, xb |-> 0, sr |-> 0, prb |-> {}, head |-> <<>>,
          nb |-> <<0,0,0>>, cost |-> {}]

Stop(d) == d.wait \/ d.m \in {"done","bad"}
Bad(d,why) == [d EXCEPT !.m = "bad", !.why = why]
Wait(d) == [d EXCEPT !.wait = TRUE]

StartStep(d) ==
  IF Fmt = "raw" THEN [d EXCEPT !.m = "hdr"]
  ELSE LET h == IF Fmt = "zlib" THEN ZlibHeader(Out, c.del[c.st])
                ELSE GzipHeader(Out, c.del[c.st], L.gz[c.st])
       IN IF h[2] # "" THEN Bad(d,h[2])
          ELSE IF h[1] = 0 THEN Wait(d)
          ELSE [d EXCEPT !.m = "hdr", !.p = 8*h[1]]

AlignUp(p) == ((p + 7) \div 8) * 8

HdrStep(d) ==
  LET p == d.p
      ty == Bits(Out,p+1,2)
      e == [d EXCEPT !.fin = (Bits(Out,p,1) = 1), !.hs = p, !.bo = d.o, !.sb = 0, !.xb = 0,
                     !.F = IF Freq THEN [Zeros(316) EXCEPT ![257] = 1] ELSE NoFreq]
  IN IF p + 3 > Lim THEN Wait(d)
     ELSE IF ty = 3 THEN Bad(d,"block-type")
     ELSE IF ty = 1 THEN [e EXCEPT !.m = "sym", !.ty = "F", !.p = p+3, !.lt = FixedLit, !.dt = FixedDist]
     ELSE IF ty = 2 THEN
       LET h == DynHeader(Out,p) IN
       IF h.p > Lim \/ h.err = "overrun" \/ (h.err # "" /\ p + 2400 > Lim /\ ~c.over) THEN Wait(d)
       ELSE IF h.err # "" THEN Bad(d,h.err)
       ELSE [e EXCEPT !.m = "sym", !.ty = "D", !.p = h.p, !.lt = MkCode(h.ll), !.dt = MkCode(h.dl),
                      !.head = IF Freq THEN <<h.ll,h.dl,h.cl,h.cf>> ELSE <<>>]
     ELSE
       LET q == AlignUp(p+3)
           n == Bits(Out,q,16)
           x == Bits(Out,q+16,16)
           data == q + 32 IN
       IF q + 32 > Lim THEN Wait(d)
       ELSE IF n + x # 65535 THEN Bad(d,"stored-length")
       ELSE IF data + 8*n > Lim THEN Wait(d)
       ELSE IF d.o + n > Acc THEN Bad(d,"content")
       ELSE IF SubSeq(Out, data \div 8 + 1, data \div 8 + n) # SubSeq(Inp, d.o + 1, d.o + n)
            THEN Bad(d,"content")
       ELSE [e EXCEPT !.m = IF e.fin THEN "trailer" ELSE "hdr", !.p = data + 8*n, !.o = d.o + n,
                      !.last = IF n = 0 THEN "S0" ELSE "S", !.nb[1] = @ + 1,
                      !.cost = @ \cup (IF Freq /\ StoredTooBig(SubSeq(Inp, d.o+1, d.o+n)) THEN {"not-cheapest-stored"} ELSE {}),
                      !.cl = @ + LET cv == CovOf(c.st) IN
                             Max2(0, Min2(d.o+n, cv[3]) - Max2(d.o, cv[2]))]

\* One symbol.  a: <<bits, bytes, status, literals, matches, largest distance, fixed bits, symbols for
\* the range of cov, frequencies, extra bits, tokens at the positions prb>>; status "" go on, "eob",
\* "wait", or an error.
SymStep(b,inp,lim,acc,lt,dt,cv,prb,a) ==
  LET e == Decode(lt, Peek(b,a[1]))
      s == e[1] - 1
      p == a[1] + e[2]
      o == a[2]
  IN IF e[1] = 0 THEN [a EXCEPT ![3] = IF a[1] + 15 > lim THEN "wait" ELSE "bad-code"]
     ELSE IF p > lim THEN [a EXCEPT ![3] = "wait"]
     ELSE IF s < 256 THEN
       IF o >= acc THEN [a EXCEPT ![3] = "content"]
       ELSE IF inp[o+1] # s THEN [a EXCEPT ![3] = "content"]
       ELSE <<p, o+1, "", a[4]+1, a[5], a[6], a[7] + FixedBits(s),
              IF o >= cv[2] /\ o < cv[3] THEN a[8]+1 ELSE a[8],
              IF a[9] = NoFreq THEN NoFreq ELSE [a[9] EXCEPT ![s+1] = @ + 1], a[10],
              IF o \in prb THEN Append(a[11],<<o,1,0>>) ELSE a[11]>>
     ELSE IF s = 256 THEN [a EXCEPT ![1] = p, ![3] = "eob", ![7] = @ + 7]
     ELSE IF s > 285 THEN [a EXCEPT ![3] = "bad-length"]
     ELSE
       LET li == s - 256
           len == LBase[li] + Bits(b,p,LExtra[li])
           p2 == p + LExtra[li]
           de == Decode(dt, Peek(b,p2))
           di == de[1]
           p3 == p2 + de[2]
           dist == DBase[di] + Bits(b,p3,DExtra[di])
           p4 == p3 + DExtra[di]
       IN IF di = 0 THEN [a EXCEPT ![3] = IF p2 + 15 > lim THEN "wait" ELSE "bad-code"]
          ELSE IF p4 > lim THEN [a EXCEPT ![3] = "wait"]
          ELSE IF dist > o THEN [a EXCEPT ![3] = "distance"]
          ELSE IF o + len > acc THEN [a EXCEPT ![3] = "content"]
          ELSE IF SubSeq(inp,o+1,o+len) # SubSeq(inp,o+1-dist,o+len-dist)
               THEN [a EXCEPT ![3] = "content"]
          ELSE <<p4, o+len, "", a[4], a[5]+1, Max2(a[6],dist),
                 a[7] + FixedBits(s) + LExtra[li] + 5 + DExtra[di],
                 IF o >= cv[2] /\ o < cv[3] THEN a[8]+1 ELSE a[8],
                 IF a[9] = NoFreq THEN NoFreq ELSE [a[9] EXCEPT ![s+1] = @ + 1, ![286+di] = @ + 1],
                 a[10] + LExtra[li] + DExtra[di],
                 IF o \in prb THEN Append(a[11],<<o,len,dist>>) ELSE a[11]>>

Chunk == [x \in 1..400 |-> x]

\* What a stored block for n bytes takes when its header begins at bit p, given chunks of at most
\* 32767 bytes.
StoredBits(p,n) ==
  LET chunks == Max2(1, (n + 32766) \div 32767)
  IN (AlignUp(p+3) - p) + 8*n + 32*chunks + 8*(chunks-1)

\* The optimal cost of the symbols counted in F (literals/lengths at 1..286, distances at 287..316).
OptLit(F) == Huffman(SubSeq(F,1,286))
OptDist(F) == Huffman(SubSeq(F,287,316))
\* at most what a dynamic header takes, when the code lengths are not even run-length coded
PlainHeader(F) ==
  LET nl == LET S == {x \in 258..286 : F[x] > 0} IN IF S = {} THEN 257 ELSE CHOOSE x \in S : \A y \in S : y <= x
      nd == LET S == {x \in 287..316 : F[x] > 0} IN IF S = {} THEN 1 ELSE (CHOOSE x \in S : \A y \in S : y <= x) - 286
  IN 3 + 14 + 57 + 7*(nl+nd)

BlockClauses(d,p) ==
  LET bits == p - d.hs
      fixed == 3 + d.sb
      lit == OptLit(d.F)
      dis == OptDist(d.F)
  IN (IF bits > fixed THEN {"not-cheapest"} ELSE {})
     \cup (IF d.o > d.bo /\ bits > StoredBits(d.hs, d.o - d.bo) THEN {"not-cheapest"} ELSE {})
     \cup (IF Freq /\ d.ty = "F" /\ lit[2] <= 15 /\ dis[2] <= 15
              /\ bits > PlainHeader(d.F) + lit[1] + dis[1] + d.xb
           THEN {"not-cheapest"} ELSE {})
     \cup (IF Freq /\ d.ty = "D" THEN
             LET ll == d.head[1]  dl == d.head[2]
                 cl == d.head[3]  cf == d.head[4]
                 FL == SubSeq(d.F,1,Len(ll))  FD == SubSeq(d.F,287,286+Len(dl))
                 oc == Huffman(cf)
             IN (IF lit[2] <= 15 /\ CodeBits(FL,ll) > lit[1] THEN {"not-optimal"} ELSE {})
                \cup (IF dis[2] <= 15 /\ CodeBits(FD,dl) > dis[1] THEN {"not-optimal"} ELSE {})
                \cup (IF oc[2] <= 7 /\ CodeBits(cf,cl) > oc[1] THEN {"not-optimal"} ELSE {})
           ELSE {})

SymsStep(d) ==
  LET b == Out  inp == Inp  lim == Lim  acc == Acc  cv == CovOf(c.st)  prb == d.prb
      r == FoldLeft(LAMBDA a,x: IF a[3] # "" THEN a ELSE SymStep(b,inp,lim,acc,d.lt,d.dt,cv,prb,a),
                    <<d.p,d.o,"",d.lits,d.mats,d.maxd,d.sb,d.cl,d.F,d.xb,<<>>>>, Chunk)
      e == [d EXCEPT !.p = r[1], !.o = r[2], !.lits = r[4], !.mats = r[5], !.maxd = r[6],
                     !.sb = r[7], !.cl = r[8], !.F = r[9], !.xb = r[10], !.sr = @ + Len(r[11]),
                     !.cost = @ \cup UNION {TokenClauses(inp, t[1], t[2], t[3], acc, L.opts[1], L.opts[2], L.opts[3] = 1)
                                            : t \in ToSet(r[11])}]
  IN IF r[3] = "" THEN e
     ELSE IF r[3] = "wait" THEN Wait(e)
     ELSE IF r[3] = "eob" THEN
       [e EXCEPT !.m = IF e.fin THEN "trailer" ELSE "hdr", !.last = e.ty,
                 !.nb[IF e.ty = "F" THEN 2 ELSE 3] = @ + 1,
                 !.cost = @ \cup BlockClauses(e, r[1]), !.lt = <<>>, !.dt = <<>>, !.head = <<>>]
     ELSE Bad(e,r[3])

TrailerStep(d) ==
  LET q == AlignUp(d.p) \div 8
      want == IF Fmt = "zlib" THEN ZlibTrailer(sum) ELSE GzipTrailer(sum,Acc)
  IN IF Fmt = "raw" THEN [d EXCEPT !.m = "done", !.p = 8*q]
     ELSE IF d.o # Acc THEN Bad(d,"content-short")
     ELSE IF q + Len(want) > c.del[c.st] THEN Wait(d)
     ELSE IF SubSeq(Out,q+1,q+Len(want)) # want THEN Bad(d,"trailer")
     ELSE [d EXCEPT !.m = "done", !.p = 8*(q + Len(want))]

DStep(d) ==
  CASE d.m = "start" -> StartStep(d)
    [] d.m = "hdr" -> HdrStep(d)
    [] d.m = "sym" -> SymsStep(d)
    [] d.m = "trailer" -> TrailerStep(d)

\* ----------------------------------------------------------------------- clauses at a goal
Overhead == IF Fmt = "raw" THEN 0 ELSE IF Fmt = "zlib" THEN 6
            ELSE LET h == L.gz[c.st] IN 18 + (IF h.extra = Absent THEN 0 ELSE 2 + Len(h.extra))
                   + (IF h.name = Absent THEN 0 ELSE 1 + Len(h.name))
                   + (IF h.comment = Absent THEN 0 ELSE 1 + Len(h.comment))

GoalClauses(goal,d) ==
     (IF d.m = "bad" THEN {d.why} ELSE {})
  \cup d.cost
  \cup (IF RleMode /\ d.maxd > 1 THEN {"rle-distance"} ELSE {})
  \cup (IF HuffMode /\ d.mats > 0 THEN {"huffman-match"} ELSE {})
  \cup (IF goal = "flush" /\ d.m # "bad" /\
           ~(d.m = "hdr" /\ d.p = Lim /\ d.o = Acc /\ d.last = "S0") THEN {"flush-incomplete"} ELSE {})
  \cup (IF goal = "drained" /\ d.m # "bad" /\ ~(AlignUp(d.p) = Lim /\ d.o = Acc) THEN {"flush-incomplete"} ELSE {})
  \cup (IF goal = "complete" THEN
            (IF d.m \notin {"done","bad"} THEN {"incomplete"} ELSE {})
        \cup (IF d.m = "done" /\ d.o # Acc THEN {"content-short"} ELSE {})
        \cup (IF d.m = "done" /\ d.p # Lim THEN {"trailing"} ELSE {})
        \cup (IF c.del[c.st] > Acc + 10 * (Acc \div 31744 + 1 + c.flushes) + Overhead
              THEN {"expansion"} ELSE {})
        \cup (IF d.m = "done" /\ CovOf(c.st)[3] > 0 /\ d.cl > CovOf(c.st)[4] THEN {"coverage"} ELSE {})
        ELSE {})
  \cup (IF goal = "prefix" /\ d.m = "done" /\ d.p # Lim THEN {"trailing"} ELSE {})

Tag(S,why) == {[c |-> x, i |-> i, cl |-> D.cl, s |-> c.st, p |-> D.p, o |-> D.o] : x \in S}

\* ----------------------------------------------------------------------- the state machine
Init ==
  /\ k \in 1..Len(Log)
  /\ i = 1 /\ ph = "ev"
  /\ c = CInit /\ D = DInit
  /\ sum = SumInit
  /\ viol = {}
  /\ stat = [steps |-> 0, goals |-> 0, lits |-> 0, mats |-> 0, nb |-> <<0,0,0>>, sinks |-> 0, errs |-> 0, srch |-> 0]

HasSum(e) == Op(e) \in {"n","w","f","r","end"} /\ Ret(e) >= -1 /\ Fmt # "raw"

\* An event that is fully judged by the contract.
Event ==
  /\ ph = "ev" /\ i <= Len(L.ev)
  /\ LET e == Ev
         c2 == CStep(c,e)
         goal == IF Decodes THEN Goal(c,e) ELSE "none"
         newbytes == IF Op(e) \in {"w","o"} /\ Ret(e) > 0
                     THEN SubSeq(Inp, Acc + 1, c2.acc[c.st]) ELSE <<>>
         s2 == IF Op(e) = "r" /\ Ret(e) = 0 THEN SumInit ELSE SumOf(sum,newbytes)
     IN /\ viol' = viol \cup Tag(Clauses(c,e) \cup
                                (IF Summed /\ HasSum(e) /\ Op(e) # "end" /\ <<e[6],e[7]>> # s2 THEN {"sum"} ELSE {}), "")
        /\ stat' = [stat EXCEPT !.steps = @ + 1, !.sinks = IF Op(e) = "k" THEN @ + 1 ELSE @,
                                !.errs = IF Ret(e) < 0 THEN @ + 1 ELSE @]
        /\ IF goal = "none"
           THEN /\ c' = c2 /\ i' = i + 1 /\ ph' = "ev" /\ sum' = s2 /\ UNCHANGED D
           ELSE \* decode first, with what is accepted and delivered now
                /\ c' = IF Op(e) = "o" THEN c2 ELSE c
                /\ sum' = IF Op(e) = "o" THEN s2 ELSE sum
                /\ D' = [D EXCEPT !.wait = FALSE, !.prb = Probes(goal)]
                /\ ph' = "dec" /\ UNCHANGED i
        /\ UNCHANGED k

Decoding ==
  /\ ph = "dec" /\ ~Stop(D)
  /\ D' = DStep(D)
  /\ stat' = [stat EXCEPT !.steps = @ + 1]
  /\ UNCHANGED <<k,i,ph,c,sum,viol>>

GoalReached ==
  /\ ph = "dec" /\ Stop(D)
  /\ LET e == Ev
         goal == Goal(c,e)
         c2 == IF Op(e) = "o" THEN c ELSE CStep(c,e)
     IN /\ viol' = viol \cup Tag(GoalClauses(goal,D), D.why)
        /\ c' = c2
        /\ D' = IF c2.st # c.st THEN DInit ELSE D
        /\ sum' = IF c2.st # c.st THEN SumInit ELSE sum
        /\ stat' = IF c2.st # c.st \/ i = Len(L.ev)
                   THEN [stat EXCEPT !.goals = @ + 1, !.lits = @ + D.lits, !.mats = @ + D.mats, !.srch = @ + D.sr,
                                     !.nb = <<@[1]+D.nb[1], @[2]+D.nb[2], @[3]+D.nb[3]>>]
                   ELSE [stat EXCEPT !.goals = @ + 1]
        /\ i' = i + 1 /\ ph' = "ev"
        /\ UNCHANGED k

HeaderLen(fmt,b,h) ==
  IF fmt = "raw" THEN 0 ELSE IF fmt = "zlib" THEN 2 ELSE GzipHeader(b,Len(b),h)[1]
TrailerLen(fmt) == IF fmt = "raw" THEN 0 ELSE IF fmt = "zlib" THEN 4 ELSE 8
Body(l,s) == LET b == l.out[s] IN SubSeq(b, HeaderLen(l.fmt,b,l.gz[s]) + 1, Len(b) - TrailerLen(l.fmt))

RefClauses ==
  UNION { LET r == L.ref[x]
              o == Log[k - r[2]] IN
          IF r[1] > Len(L.out) \/ r[3] > Len(o.out) THEN {"reference"}
          ELSE IF r[4] = 0 THEN (IF L.out[r[1]] = o.out[r[3]] THEN {} ELSE {"reference"})
          ELSE IF r[4] = 1 THEN (IF Body(L,r[1]) = Body(o,r[3]) THEN {} ELSE {"reference"})
          ELSE IF r[4] = 2 THEN (IF IsPrefix(L.out[r[1]], o.out[r[3]]) THEN {} ELSE {"reference"})
          ELSE IF Len(L.out[r[1]]) <= Len(o.out[r[3]]) + r[4] THEN {} ELSE {"reference"}
        : x \in 1..Len(L.ref) }

Aborted == \E v \in viol : v.c \in {"panic","hang"}

Finish ==
  /\ ph = "ev" /\ i > Len(L.ev)
  /\ viol' = viol \cup (IF Aborted THEN {} ELSE Tag(RefClauses,"reference"))
  /\ ph' = "fin"
  /\ UNCHANGED <<k,i,c,D,sum,stat>>

Verdict ==
  /\ ph = "fin"
  /\ LET bad == {v \in viol : v.c \in Judged} IN
     PrintT("VERDICT " \o ToJson([id |-> L.id, k |-> k, bad |-> bad, other |-> {v.c : v \in viol \ bad}, stat |-> stat]))
  /\ ph' = "end"
  /\ UNCHANGED <<k,i,c,D,sum,viol,stat>>

Next == Event \/ Decoding \/ GoalReached \/ Finish \/ Verdict
Spec == Init /\ [][Next]_vars

\* Used when replaying one execution: TLC then prints the steps up to the violation.
NoViolation == \A v \in viol : v.c \notin Judged
=============================================================================
