-------------------------------- MODULE Props --------------------------------
(* Which clauses decide which property.                                                            *)
EXTENDS TLC

\* anything that keeps a decoder from getting the accepted data back
Decode_ == {"block-type","stored-length","bad-code","bad-clcode","bad-length","distance","content",
            "content-short","incomplete","trailing","overrun","repeat-first","len-overrun","hlit",
            "hdist","no-eob","clcode-oversubscribed","clcode-incomplete","litcode-oversubscribed",
            "litcode-incomplete","distcode-oversubscribed","distcode-incomplete"}
Header_ == {"bad-clcode","repeat-first","len-overrun","hlit","hdist","no-eob","clcode-oversubscribed",
            "clcode-incomplete","litcode-oversubscribed","litcode-incomplete",
            "distcode-oversubscribed","distcode-incomplete","bad-code"}
Zlib_ == {"zlib-method","zlib-window","zlib-dictionary","zlib-check","trailer"}
Gzip_ == {"gzip-magic","gzip-method","gzip-reserved-flags","gzip-flags","gzip-mtime","gzip-xfl",
          "gzip-os","gzip-extra","gzip-name","gzip-comment","trailer"}
Stream_ == Decode_ \cup Zlib_ \cup Gzip_ \cup {"panic","hang"}

Effort_ == {"not-cheapest","not-cheapest-stored","expansion","not-optimal","coverage","rle-distance",
            "huffman-match","flush-incomplete","missed-match","shorter-match","farther-match"}
DecodeClauses_ == (Stream_ \ {"panic","hang"}) \cup Effort_

Clauses_(p) ==
  CASE p = "C01" -> Decode_ \cup {"error-unexplained"}
    [] p = "C02" -> Stream_
    [] p = "C03" -> Stream_
    [] p = "C04" -> Stream_ \cup {"over-accept","zero-accept","stuck"}
    [] p = "C05" -> Stream_ \cup {"flush-incomplete"}
    [] p = "C06" -> Stream_ \cup {"reference","flush-incomplete"}
    [] p = "C07" -> Stream_ \cup {"flush-incomplete","error-unexplained","error-hidden","over-accept",
                                  "stuck","zero-accept","wrong-sink","reference"}
    [] p = "C08" -> {"stuck","zero-accept","over-accept","error-unexplained"}
    [] p = "C09" -> Stream_ \cup {"reference","wrong-sink","flush-incomplete","sum","write-after-end"}
    [] p = "C10" -> {"sum"}
    [] p = "C11" -> Stream_ \cup {"reference","wrong-sink","write-after-end"}
    [] p = "C12" -> {"rle-distance","huffman-match","distance","bad-length","reference"}
    [] p = "C13" -> {"not-cheapest","not-cheapest-stored","expansion"}
    [] p = "C14" -> {"memory","error-unexplained"}
    [] p = "C15" -> {"reference"}
    [] p = "C16" -> Header_ \cup {"not-optimal"}
    [] p = "C17" -> {"coverage"}
    [] p = "C18" -> {"missed-match","shorter-match","farther-match"}
    [] OTHER -> Stream_

\* Nothing can be relied upon if the call does not return.
Relevant_(p) == Clauses_(p) \cup {"panic","hang"}
=============================================================================
