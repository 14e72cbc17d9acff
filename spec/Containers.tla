----------------------------- MODULE Containers -----------------------------
(* The zlib (RFC 1950) and gzip (RFC 1952) wrappers around a DEFLATE stream.                       *)
EXTENDS Integers, Sequences, SequencesExt

\* A header parser returns <<bytes used, error>>, with 0 bytes used and no error if more is needed.
\* b: the delivered bytes, n: how many of them count, h: what was asked for.

ZlibHeader(b,n) ==
  IF n < 2 THEN <<0,"">>
  ELSE IF b[1] % 16 # 8 THEN <<0,"zlib-method">>
  ELSE IF b[1] \div 16 > 7 THEN <<0,"zlib-window">>
  ELSE IF (b[2] \div 32) % 2 # 0 THEN <<0,"zlib-dictionary">>
  ELSE IF (b[1]*256 + b[2]) % 31 # 0 THEN <<0,"zlib-check">>
  ELSE <<2,"">>

RECURSIVE ZeroFrom(_,_,_)
ZeroFrom(b,n,i) == IF i > n THEN 0 ELSE IF b[i] = 0 THEN i ELSE ZeroFrom(b,n,i+1)

Absent == <<-1>>
\* h: [extra, name, comment (<<-1>> if absent), mtime <<hi,lo>>, os (-1 if unset), xfl]
GzipHeader(b,n,h) ==
  LET flg   == b[4]
      fext  == (flg \div 4) % 2 = 1
      fname == (flg \div 8) % 2 = 1
      fcomm == (flg \div 16) % 2 = 1
      elen  == b[11] + 256*b[12]
      i1    == IF fext THEN 12 + elen ELSE 10            \* bytes before the name
      z1    == IF fname THEN ZeroFrom(b,n,i1+1) ELSE i1
      z2    == IF fcomm THEN ZeroFrom(b,n,z1+1) ELSE z1
  IN IF n < 10 THEN <<0,"">>
     ELSE IF b[1] # 31 \/ b[2] # 139 THEN <<0,"gzip-magic">>
     ELSE IF b[3] # 8 THEN <<0,"gzip-method">>
     ELSE IF flg \div 32 # 0 THEN <<0,"gzip-reserved-flags">>
     ELSE IF flg % 2 = 1 \/ (flg \div 2) % 2 = 1 THEN <<0,"gzip-flags">>
     ELSE IF b[5] + 256*b[6] # h.mtime[2] \/ b[7] + 256*b[8] # h.mtime[1] THEN <<0,"gzip-mtime">>
     ELSE IF b[9] # h.xfl THEN <<0,"gzip-xfl">>
     ELSE IF h.os >= 0 /\ b[10] # h.os THEN <<0,"gzip-os">>
     ELSE IF fext # (h.extra # Absent) THEN <<0,"gzip-extra">>
     ELSE IF fname # (h.name # Absent) THEN <<0,"gzip-name">>
     ELSE IF fcomm # (h.comment # Absent) THEN <<0,"gzip-comment">>
     ELSE IF fext /\ n < 12 THEN <<0,"">>
     ELSE IF n < i1 THEN <<0,"">>
     ELSE IF fext /\ SubSeq(b,13,i1) # h.extra THEN <<0,"gzip-extra">>
     ELSE IF z1 = 0 THEN <<0,"">>
     ELSE IF fname /\ SubSeq(b,i1+1,z1-1) # h.name THEN <<0,"gzip-name">>
     ELSE IF z2 = 0 THEN <<0,"">>
     ELSE IF fcomm /\ SubSeq(b,z1+1,z2-1) # h.comment THEN <<0,"gzip-comment">>
     ELSE <<z2,"">>

\* Bytes of the trailer for a checksum <<hi,lo>> and a length < 2^31.
BE2(x) == <<x \div 256, x % 256>>
LE2(x) == <<x % 256, x \div 256>>
ZlibTrailer(sum) == BE2(sum[1]) \o BE2(sum[2])
GzipTrailer(sum,len) == LE2(sum[2]) \o LE2(sum[1]) \o LE2(len % 65536) \o LE2(len \div 65536)

ASSUME ZlibHeader(<<120,156>>,2) = <<2,"">>
ASSUME ZlibHeader(<<120,157>>,2)[2] # ""
=============================================================================
