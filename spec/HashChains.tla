----------------------------- MODULE HashChains -----------------------------
(* src/chained_hash_table.rs and the walk of src/matching.rs (longest_match), with a scaled window: *)
(* two arrays of W entries hold, for positions in a buffer of 2*W bytes that is moved by W now and   *)
(* then, the newest position of every hash and the one before each position.  The walk from a        *)
(* position has to visit all earlier positions of the same hash within the window, the nearest first,*)
(* before any other; otherwise repetitions are missed, or found at a greater distance than needed.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS W,        \* window (code: 32768)
          HASHES,   \* the hashes that occur, a subset of 0..W-1
          N,        \* positions in all
          RESETS,   \* resets at most
          Bugs
Bug(b) == b \in Bugs
MaxOf(a,b) == IF a > b THEN a ELSE b
VARIABLES head, prev, next,   \* next: the position to be entered, relative to the buffer
          base,               \* absolute position of the beginning of the buffer
          hist,               \* the hash of every absolute position
          resets
vars == <<head,prev,next,base,hist,resets>>

Self == [x \in 0..W-1 |-> x]
Init == head = Self /\ prev = Self /\ next = 0 /\ base = 0 /\ hist = <<>> /\ resets = 0

\* add_with_hash
Enter(h) ==
  /\ next < 2*W /\ Len(hist) < N
  /\ prev' = [prev EXCEPT ![next % W] = head[h]]
  /\ head' = [head EXCEPT ![h] = next]
  /\ next' = next + 1 /\ hist' = Append(hist,h) /\ UNCHANGED <<base,resets>>

Slid(t) == [x \in 0..W-1 |-> IF t[x] >= W THEN t[x] - W ELSE x]
Slide ==
  /\ next = 2*W
  /\ head' = IF Bug("headkept") THEN head ELSE Slid(head)
  /\ prev' = IF Bug("prevkept") THEN prev
             ELSE IF Bug("zero") THEN [x \in 0..W-1 |-> IF prev[x] >= W THEN prev[x] - W ELSE 0] ELSE Slid(prev)
  /\ next' = W /\ base' = base + W /\ UNCHANGED <<hist,resets>>

Reset ==
  /\ resets < RESETS /\ next > 0
  /\ head' = Self /\ prev' = IF Bug("D7") THEN prev ELSE Self
  /\ next' = 0 /\ base' = 0 /\ hist' = <<>> /\ resets' = resets + 1

Next == Slide \/ Reset \/ (\E h \in HASHES : Enter(h))
Spec == Init /\ [][Next]_vars

\* longest_match: the positions checked for the newest position, in this order
Limit(p) == IF p > W THEN p - W ELSE 0
RECURSIVE Walk(_,_)
Walk(cur,limit) ==
  LET x == prev[cur % W] IN
  IF x >= cur \/ x < limit THEN <<>> ELSE <<x>> \o Walk(x,limit)

Newest == next - 1
\* the positions of the same hash, within the window and still in the buffer, nearest first
Want ==
  LET h == hist[base + Newest + 1]
      S == {q \in 0..(Newest-1) : q >= Limit(Newest) /\ hist[base+q+1] = h}
      F[T \in SUBSET S] == IF T = {} THEN <<>>
                           ELSE LET m == CHOOSE x \in T : \A y \in T : y <= x IN <<m>> \o F[T \ {m}]
  IN F[S]

\* after a slide nothing is looked up before the next position is entered
Complete ==
  next > 0 /\ ~(next = W /\ base > 0) =>
    LET w == Walk(Newest,Limit(Newest)) IN
    /\ Len(Want) <= Len(w)
    /\ SubSeq(w,1,Len(Want)) = Want
\* the history begins with the stream, so output after a reset is that of a fresh encoder
Fresh == next = 0 => prev = Self /\ head = Self
\* every entry is a position that was entered, or its own index
Sane == \A x \in 0..W-1 : /\ head[x] < MaxOf(next,W) /\ prev[x] < MaxOf(next,W)
=============================================================================
