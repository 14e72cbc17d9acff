------------------------------ MODULE EncoderApi ------------------------------
(* The encoders as they are built (src/writer.rs, src/compress.rs, src/deflate_state.rs), with the  *)
(* data reduced to units: one unit of input becomes one unit of output.  Everything that decides     *)
(* which bytes are delivered, and what the calls return, is kept: the input buffer that is only      *)
(* processed when full, the block that is only output when full, the output buffer that is only      *)
(* drained when large, pending flushes, header, trailer, checksum, and the three ways of closing.    *)
(* The sink answers every call nondeterministically.  The history of calls is judged by Contract,    *)
(* the same definition that judges executions recorded from the real encoders.                      *)
(*                                                                                                   *)
(* Bugs is a set of names of defects, to show that each of them is found: D1 D2 D3 D4 D8 D8b D11     *)
(* were in the code (known-findings.txt); the others are variations on its mechanisms.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, Contract

CONSTANTS Fmts,        \* subset of {"raw","zlib","gzip"}
          INCAP,       \* units the input buffer holds
          LARGE,       \* the output buffer is drained when it holds more units than this
          BLKV,        \* units in a full block
          MAXU,        \* units written at most, in all streams
          MAXN,        \* units in one write at most
          CALLS,       \* calls at most
          FAULTS,      \* times the sink does not take everything
          STREAMS,     \* streams at most (1: no resets)
          Kinds,       \* sink faults: subset of {"I","E","0","short"}
          Bugs,
          Record       \* keep the history, to print it

VARIABLES fmt, e, call, pc, c, out, viol, left, ncalls, nunits, dead, canon, hist, hard
vars == <<fmt,e,call,pc,c,out,viol,left,ncalls,nunits,dead,canon,hist,hard>>

Bug(b) == b \in Bugs
MinOf(a,b) == IF a <= b THEN a ELSE b

\* hd: header not output yet (0: none); trl: trailer produced; nf: needs_flush; last: is_last_block
Fresh(h) == [buf |-> <<>>, blk |-> <<>>, ob |-> <<>>, pos |-> 0, nf |-> FALSE, last |-> FALSE,
             hd |-> IF fmt = "raw" THEN 0 ELSE h, trl |-> FALSE, sum |-> 0]
NoCall == [op |-> "", n |-> 0, mode |-> "", rem |-> 0, bw |-> 0, stage |-> 0, fp |-> FALSE, failed |-> "", ferr |-> ""]

Init ==
  /\ fmt \in Fmts
  /\ e = [buf |-> <<>>, blk |-> <<>>, ob |-> <<>>, pos |-> 0, nf |-> FALSE, last |-> FALSE,
          hd |-> IF fmt = "raw" THEN 0 ELSE 1, trl |-> FALSE, sum |-> 0]
  /\ call = NoCall /\ pc = "idle"
  /\ c = CInit /\ out = <<<<>>>> /\ viol = {}
  /\ left = FAULTS /\ ncalls = 0 /\ nunits = 0 /\ dead = FALSE
  /\ canon = <<>>
  /\ hist = <<>>
  /\ hard = FALSE     \* the sink has failed, not just been interrupted or taken less

Log(x) == hist' = IF Record THEN Append(hist,x) ELSE hist

\* ------------------------------------------------------------------ what was delivered
St == c.st
Data(o) == SelectSeq(o, LAMBDA t: t[1] = "D")
Header(h) == IF fmt = "raw" THEN <<>> ELSE <<<<"H",h>>>>
\* header that stream s has to have
WantHd(s) == s
Trailer(n) == IF fmt = "raw" THEN <<>> ELSE <<<<"T1",n>>,<<"T2",n>>>>
Shape(o,s) == \* without the sync markers: header, data, last, trailer
  SelectSeq(o, LAMBDA t: t[1] # "S")
Full(s,n) == Header(WantHd(s)) \o [i \in 1..n |-> <<"D",i>>] \o <<<<"L",0>>>> \o Trailer(n)
NoSyncAfterEnd(o) == \A i,j \in 1..Len(o) : o[i][1] = "L" /\ o[j][1] = "S" => j < i
NoSyncBeforeHeader(o) == fmt = "raw" \/ o = <<>> \/ o[1][1] = "H"

GoalClauses(goal,o,s,n) ==
  CASE goal = "none" -> {}
    [] goal = "complete" -> IF Shape(o,s) = Full(s,n) /\ NoSyncAfterEnd(o) /\ NoSyncBeforeHeader(o) THEN {} ELSE {"incomplete"}
    [] goal = "flush" -> IF /\ Shape(o,s) = Header(WantHd(s)) \o [i \in 1..n |-> <<"D",i>>]
                            /\ o # <<>> /\ o[Len(o)][1] = "S" /\ NoSyncBeforeHeader(o) THEN {} ELSE {"flush-incomplete"}
    [] goal = "drained" -> IF IsPrefix(Shape(o,s), Full(s,n)) /\ Len(Data(o)) = n THEN {} ELSE {"flush-incomplete"}
    [] goal = "prefix" -> IF /\ NoSyncAfterEnd(o) /\ NoSyncBeforeHeader(o)
                             \* the trailer may follow on less data only if nothing more was accepted
                             /\ \/ IsPrefix(Shape(o,s), Full(s,n))
                                \/ IsPrefix(Shape(o,s), Header(WantHd(s)) \o [i \in 1..n |-> <<"D",i>>])
                          THEN {} ELSE {"content"}

Ev(op,n,ret,err) == <<op,n,ret,err,St,0,0>>

\* after a call has returned: judge it; ee is the encoder state then
Return(ev,ee) ==
  LET goal == Goal(c,ev)
      c2 == CStep(c,ev)
      o == out[St]
      n == c.acc[St]
  IN /\ viol' = viol \cup Clauses(c,ev) \cup GoalClauses(goal,o,St,n)
                \cup (IF fmt # "raw" /\ ~c2.over /\ ee.sum # c2.acc[c2.st] THEN {"sum"} ELSE {})
                \cup (IF goal = "complete" /\ ~hard /\ o # Header(WantHd(St)) \o canon \o <<<<"L",0>>>> \o Trailer(n)
                      THEN {"reference"} ELSE {})
     /\ c' = c2

\* ------------------------------------------------------------------ lz77_compress_block
RECURSIVE Lz(_,_,_,_,_)
Lz(x,base,rem,bw,fin) ==
  LET k == MinOf(rem, INCAP - Len(x.buf))
      y == [x EXCEPT !.buf = @ \o [i \in 1..k |-> <<"D",base+bw+i>>]]
      r == rem - k
      b == bw + k
  IN IF Len(y.buf) < INCAP /\ ~fin THEN [x |-> y, rem |-> r, bw |-> b, status |-> "NeedInput"]
     ELSE IF y.buf = <<>> THEN [x |-> y, rem |-> r, bw |-> b, status |-> "Finished"]
     ELSE LET z == [y EXCEPT !.blk = Append(@,Head(y.buf)), !.buf = Tail(@)]
          IN IF Len(z.blk) >= BLKV THEN [x |-> z, rem |-> r, bw |-> b, status |-> "EndBlock"]
             ELSE Lz(z,base,r,b,fin)

\* ------------------------------------------------------------------ the caller
Idle == pc = "idle" /\ ~c.over /\ ncalls < CALLS

PutHeader(x) == IF x.hd = 0 THEN x ELSE [x EXCEPT !.ob = Append(@,<<"H",x.hd>>), !.hd = 0]

Write(n) ==
  /\ Idle /\ nunits + n <= MAXU
  /\ ~c.closing
  /\ e' = PutHeader(e)
  /\ call' = [NoCall EXCEPT !.op = "w", !.n = n, !.mode = "None", !.rem = n]
  /\ pc' = "top" /\ ncalls' = ncalls + 1
  /\ Log(<<"w",n>>)
  /\ UNCHANGED <<fmt,c,out,viol,left,nunits,dead,canon,hard>>

Close(op) ==
  /\ Idle
  /\ op = "r" => c.st < STREAMS
  /\ Record /\ op \in {"x","d"} => 2 * ncalls >= CALLS     \* histories to be replayed shall not be too short
  /\ LET x == IF op = "r" /\ Bug("D8") THEN [e EXCEPT !.hd = IF fmt = "gzip" /\ c.closing THEN c.st+1 ELSE @] ELSE e
     IN e' = IF op = "f" /\ Bug("D1") THEN x
             ELSE IF op # "f" /\ Bug("nohead") THEN x ELSE PutHeader(x)
  /\ call' = [NoCall EXCEPT !.op = op, !.mode = IF op = "f" THEN "Sync" ELSE "Finish", !.stage = 1, !.fp = e.nf]
  /\ canon' = IF op = "f" THEN Append(canon,<<"S",0>>) ELSE canon
  /\ pc' = "top" /\ ncalls' = ncalls + 1
  /\ Log(<<op,0>>)
  /\ UNCHANGED <<fmt,c,out,viol,left,nunits,dead,hard>>

Stop ==
  /\ pc = "idle" /\ ~c.over /\ (Record => ncalls = CALLS)
  /\ Return(Ev("end",0,0,""), e)
  /\ pc' = "over"
  /\ UNCHANGED <<fmt,e,call,out,left,ncalls,nunits,dead,canon,hist,hard>>

\* ------------------------------------------------------------------ compress_data_dynamic_n
\* the top of its loop
Top ==
  /\ pc = "top"
  /\ IF e.nf THEN pc' = "out" /\ UNCHANGED <<e,call>>
     ELSE IF Len(e.ob) > LARGE THEN pc' = "full" /\ UNCHANGED <<e,call>>
     ELSE IF e.last THEN pc' = "out" /\ UNCHANGED <<e,call>>
     ELSE LET r == Lz(e, c.acc[St], call.rem, call.bw, call.mode # "None")
              x == r.x
              b == [x EXCEPT !.ob = @ \o x.blk, !.blk = <<>>]
          IN /\ call' = [call EXCEPT !.rem = r.rem, !.bw = r.bw]
             /\ IF r.status = "NeedInput" THEN e' = x /\ pc' = "ok"
                ELSE IF r.status = "EndBlock" THEN e' = b /\ pc' = "top"
                ELSE IF call.mode = "Sync"
                     THEN e' = [b EXCEPT !.ob = Append(@,<<"S",0>>), !.nf = ~Bug("nonf")] /\ pc' = "out"
                     ELSE e' = [b EXCEPT !.ob = Append(@,<<"L",0>>), !.last = TRUE] /\ pc' = "out"
  /\ UNCHANGED <<fmt,c,out,viol,left,ncalls,nunits,dead,canon,hist,hard>>

Offered == SubSeq(e.ob, e.pos+1, Len(e.ob))

\* the bytes are taken out of the output buffer
Drained(n) == IF e.pos + n < Len(e.ob) THEN [e EXCEPT !.pos = IF Bug("pos") THEN n ELSE @ + n]
              ELSE [e EXCEPT !.pos = 0, !.ob = <<>>, !.nf = FALSE]

\* A call of the sink: n accepted (n >= 0), or error k.  pcf: where it was called from.
Sink(n,k) ==
  LET m == Len(Offered)
      ret == IF k = "" THEN n ELSE -1
      ev == <<"k",m,ret,k,St,0,0>>
      zero == k = "" /\ n = 0 /\ m > 0 /\ ~Bug("D3")
      err == IF k # "" THEN k ELSE IF zero THEN "Z" ELSE ""
      x == Drained(n)
  IN /\ viol' = viol \cup Clauses(c,ev)
     /\ c' = [CStep(c,ev) EXCEPT !.zeros = MinOf(@,3)]   \* only whether there were any matters here
     /\ out' = [out EXCEPT ![St] = @ \o SubSeq(Offered,1,n)]
     /\ IF pc = "full"
        THEN IF err # "" THEN
               IF call.bw > 0 /\ ~Bug("D2") THEN pc' = "ok" /\ UNCHANGED <<e,call>>
               ELSE pc' = "err" /\ call' = [call EXCEPT !.failed = err] /\ UNCHANGED e
             ELSE /\ e' = x
                  /\ IF call.bw = 0 THEN pc' = "err" /\ call' = [call EXCEPT !.failed = "I"]
                     ELSE pc' = "ok" /\ UNCHANGED call
        ELSE IF err # "" THEN pc' = "err" /\ call' = [call EXCEPT !.failed = err] /\ UNCHANGED e
             ELSE /\ e' = x
                  /\ IF call.bw = 0 /\ call.n > 0 /\ ~e.last /\ ~Bug("D4")
                     THEN pc' = "err" /\ call' = [call EXCEPT !.failed = "I"]
                     ELSE pc' = "ok" /\ UNCHANGED call
     /\ UNCHANGED <<fmt,ncalls,nunits,canon>>
     /\ hard' = (hard \/ (k = "E") \/ zero)

AtSink == pc \in {"full","out"}
Takes == AtSink /\ ~dead /\ Sink(Len(Offered),"") /\ Log(<<"k","*">>) /\ UNCHANGED <<left,dead>>
Faulty(k) ==
  /\ AtSink /\ ~dead /\ left > 0 /\ Offered # <<>>
  /\ left' = left - 1
  /\ \/ k = "short" /\ Len(Offered) > 1 /\ \E n \in 1..Len(Offered)-1 : Sink(n,"") /\ Log(<<"k","s">>)
     \/ k = "0" /\ Sink(0,"") /\ Log(<<"k","0">>)
     \/ k \in {"I","E"} /\ Sink(0,k) /\ Log(<<"k",k>>)
  /\ UNCHANGED dead
\* from now on the sink accepts nothing any more (a full buffer)
Dies == /\ AtSink /\ ~dead /\ left > 0 /\ "dead" \in Kinds /\ Offered # <<>>
        /\ dead' = TRUE /\ Sink(0,"") /\ Log(<<"k","t">>) /\ UNCHANGED left
Dead == /\ AtSink /\ dead /\ Sink(0,"") /\ UNCHANGED <<left,dead,hist>>

\* ------------------------------------------------------------------ back from compress_data_dynamic_n
WriteReturns ==
  /\ pc \in {"ok","err"} /\ call.op = "w"
  /\ LET n == call.n - call.rem
         ok == pc = "ok"
         x == [e EXCEPT !.sum = IF ok THEN @ + call.bw ELSE IF Bug("sumall") THEN @ + call.n ELSE @]
     IN /\ e' = x
        /\ Return(IF ok THEN Ev("w",call.n,call.bw,"") ELSE Ev("w",call.n,-1,call.failed), x)
        /\ nunits' = nunits + (IF ok THEN call.bw ELSE 0)
        /\ canon' = IF ok THEN canon \o [i \in 1..call.bw |-> <<"D",c.acc[St]+i>>] ELSE canon
  /\ pc' = "idle" /\ call' = NoCall
  /\ UNCHANGED <<fmt,out,left,ncalls,dead,hist,hard>>

Again == pc' = "top" /\ call' = [call EXCEPT !.fp = e.nf, !.failed = "", !.bw = 0]

\* compress_until_done: may there be more to output?
More == \/ pc = "err" /\ call.failed = "I"
        \/ pc = "ok" /\ call.fp /\ call.mode = "Finish" /\ ~Bug("D11")
        \/ pc = "ok" /\ e.ob # <<>>

CloseAgain == /\ pc \in {"ok","err"} /\ call.op # "w" /\ More /\ Again
              /\ UNCHANGED <<fmt,e,c,out,viol,left,ncalls,nunits,dead,canon,hist,hard>>

Done == pc = "ok" /\ ~More
Failed == pc = "err" /\ ~More

FlushReturns ==
  /\ call.op = "f" /\ (Done \/ Failed)
  /\ Return(IF Done THEN Ev("f",0,0,"") ELSE Ev("f",0,-1,call.failed), e)
  /\ pc' = "idle" /\ call' = NoCall
  /\ UNCHANGED <<fmt,e,out,left,ncalls,nunits,dead,canon,hist,hard>>

\* output_all: after the DEFLATE data the trailer, through the same buffer
ToTrailer ==
  /\ call.op \in {"x","r","d"} /\ Done /\ call.stage = 1 /\ fmt # "raw"
  /\ e' = IF e.trl /\ ~Bug("D8b") THEN e ELSE [e EXCEPT !.ob = @ \o Trailer(e.sum), !.trl = TRUE]
  /\ pc' = "top" /\ call' = [call EXCEPT !.stage = 2, !.fp = e.nf]
  /\ UNCHANGED <<fmt,c,out,viol,left,ncalls,nunits,dead,canon,hist,hard>>

Closed == Done /\ (call.stage = 2 \/ fmt = "raw")

FinishReturns ==
  /\ call.op \in {"x","d"}
  /\ \/ /\ Closed \/ (Failed /\ (call.op = "d" \/ call.ferr # ""))
        /\ Return(IF call.op = "d" THEN Ev("d",0,0,"") ELSE IF call.ferr # "" THEN Ev("x",0,-1,call.ferr) ELSE Ev("x",0,0,""), e)
        /\ pc' = "over" /\ UNCHANGED call
     \/ /\ Failed /\ call.op = "x" /\ call.ferr = ""
        \* the encoder is dropped, which tries once more
        /\ pc' = "top" /\ call' = [call EXCEPT !.ferr = call.failed, !.stage = 1, !.fp = e.nf, !.failed = "", !.bw = 0]
        /\ UNCHANGED <<c,viol>>
  /\ UNCHANGED <<fmt,e,out,left,ncalls,nunits,dead,canon,hist,hard>>

ResetReturns ==
  /\ call.op = "r"
  /\ \/ /\ Closed
        /\ LET x == [Fresh(c.st+1) EXCEPT !.trl = Bug("trlkept") /\ e.trl, !.sum = IF Bug("sumkept") THEN e.sum ELSE 0]
           IN e' = x /\ Return(Ev("r",c.st,0,""), x)
        /\ out' = Append(out,<<>>) /\ canon' = <<>>
     \/ /\ Failed
        /\ Return(Ev("r",0,-1,call.failed), e)
        /\ UNCHANGED <<e,out,canon>>
  /\ pc' = "idle" /\ call' = NoCall
  /\ IF Closed THEN Log(<<"R",0>>) ELSE UNCHANGED hist
  /\ UNCHANGED <<fmt,left,ncalls,nunits,dead,hard>>

\* at the end, the history is printed (when recording)
PrintHist == /\ pc = "over" /\ Record /\ hist # <<>>
         /\ PrintT("HISTORY " \o ToJson([fmt |-> fmt, h |-> hist]))
         /\ hist' = <<>>
         /\ UNCHANGED <<fmt,e,call,pc,c,out,viol,left,ncalls,nunits,dead,canon,hard>>

Next == \/ \E n \in 0..MAXN : Write(n)
        \/ \E op \in {"f","x","r","d"} : Close(op)
        \/ Stop \/ Top \/ Takes \/ Dies \/ Dead
        \/ \E k \in Kinds : Faulty(k)
        \/ WriteReturns \/ CloseAgain \/ FlushReturns \/ ToTrailer \/ FinishReturns \/ ResetReturns
        \/ PrintHist

Internal == Top \/ Takes \/ Dead \/ WriteReturns \/ CloseAgain \/ FlushReturns \/ ToTrailer \/ FinishReturns \/ ResetReturns
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(Internal)

\* ------------------------------------------------------------------ what is checked
ContractKept == viol = {}
\* C14: the buffers are bounded whatever the history
Bounded == Len(e.buf) <= INCAP /\ Len(e.blk) <= BLKV /\ Len(e.ob) - e.pos <= LARGE + BLKV + 4
\* C08: every call returns, even when the sink accepts nothing any more
Returns == pc \notin {"idle","over"} ~> pc \in {"idle","over"}
\* data is never given up: what is not delivered is still held
Held == ~c.over => Data(out[St]) \o Data(SubSeq(e.ob,e.pos+1,Len(e.ob))) \o e.blk \o e.buf
                   = [i \in 1..Len(Data(out[St]) \o Data(SubSeq(e.ob,e.pos+1,Len(e.ob))) \o e.blk \o e.buf) |-> <<"D",i>>]
=============================================================================
