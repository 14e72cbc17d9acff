"""Which histories decide which property, and which models are checked with it."""
import itertools
import re
from data import *


# --------------------------------------------------------------------------- families
def tiny(S, n, fmts=FMTS):
    """All short strings over two bytes, some over three; one-shot and streamed."""
    words = [bytes(w) for l in range(0, 7) for w in itertools.product((0, 255), repeat=l)]
    words += [bytes(w) for l in range(1, 5) for w in itertools.product((97, 98, 99), repeat=l)]
    for w in S.sample(words, n):
        pool = "x:" + w.hex() if w else ""
        f, o = S.pick(fmts), S.pick(ALLOPTS + DEEP)
        g = S.pick(GZ)
        if S.rnd.random() < 0.5:
            S.group("tiny", sc(pool, "o", f, o, gz=g))
        else:
            S.group("tiny", sc(pool, ["W%d/%d" % (len(w), S.pick([1, 2, 9]))] + (["F"] if S.rnd.random() < .3 else []) + ["x"], f, o, gz=g))


def sizes(S, n, fmts=["raw"]):
    """Data of every kind in every size up to some thousand bytes, one-shot."""
    for i in range(n):
        m = S.pick([8, 30, 100, 257, 258, 259, 260, 300, 513, 1000, 2500, 5000])
        m += S.rnd.randrange(3)
        p = S.pick(kinds(S, m))
        o = S.pick(ALLOPTS + DEEP)
        S.group("sizes", sc(p, S.pick(["o", "o", "W9999999;x"]), S.pick(fmts), o, gz=S.pick(GZ)))


def big(S, n, fmts=["raw"], ops=None):
    """Long inputs that cross windows and buffers, and are cheap to decode."""
    for i in range(n):
        p = mixed(S, S.pick([40000, 66000, 70000, 100000, 140000, 200000]))
        o = S.pick(ALLOPTS)
        S.group("big", sc(p, ops or "o", S.pick(fmts), o, gz=S.pick(GZ)))


def edges(S, n, opts=None, ks=(1, 2, 3), ops="o", styles=("dyn", "sto", "short"), fmts=["raw"], fam="edge"):
    """The value that fills a block lies across, just before or just after the end of a window."""
    for i in range(n):
        o = S.pick(opts or ["default", "default", "fast", "high", "rle", "128,0,L", "4,258,G", "huff", "64,400,L"])
        k = S.pick(ks)
        tok = S.pick(TOKENS)
        t = 1 if tok[0] == "l" else tok[1]
        # the end of the value from inside the window to the whole value after it
        d = S.pick([-2, -1, 0, 1, 2, 3, 4, t - 2, t - 1, t, t + 1, t // 2, 257, 258, 259])
        e = S.pick([0, 0, 0, -1, 1, -2, 2])
        if o == "rle" and tok[0] == "m" and tok[1] == 3:
            tok = ("m", 4)
        try:
            p = edge(S, k, d, e, tok, o, S.pick(styles))
        except AssertionError:
            continue
        p += tail(S)
        tot = seglen(p)
        x = ops if isinstance(ops, str) else ops(S, tot)
        S.group(fam, sc(p, x, S.pick(fmts), o))


def flushed_edge(S, o, k, t, d, e):
    """A block starting with a flush whose value BLOCK + e (t bytes) ends d bytes after the k-th window; all stored."""
    end = k * W + d
    if o == "huff":
        t = 1
    s = end - t - (BLOCK - 1 + e)
    p = ["t:%d:%d" % (S.seed(), end - t)]
    if t > 1:
        p.append("c:%d:%d" % (1 if o == "rle" else S.rnd.randrange(300, 6000), t))
    else:
        p.append("t:%d:1" % S.seed())
    p += tail(S)
    tot = seglen(p)
    if s <= 0:
        ops = ["W%d" % tot, "x"]
    else:
        # flush so that the last full block starts at s
        ops = ["W%d" % s, "F", "W%d%s" % (tot - s, S.pick(["", "/4096", "/97"]) if tot - s < 40000 else ""), "x"]
    if S.rnd.random() < .3:
        ops.insert(-1, "F")
    return p, ops


def flushed_edges(S, n, fmts=["raw"], fam="flushedge"):
    """As edges, with a flush placing the start of the block; all stored, so cheap."""
    for i in range(n):
        o = S.pick(["default", "default", "fast", "high", "128,0,L", "4,258,G", "rle", "huff", "64,400,L"])
        k = S.pick([1, 2, 3])
        t = S.pick([1, 3, 4, 5, 20, 257, 258])
        d = S.pick([-2, -1, 0, 1, 2, 3, t - 2, t - 1, t, t + 1, t // 2])
        e = S.pick([0, 0, 0, 1, -1])
        p, ops = flushed_edge(S, o, k, t, d, e)
        S.group(fam, sc(p, ops, S.pick(fmts), o))


def situations(S, n, H, fmts=["raw"], fam="situation", ops=None):
    """Situations in which a block ends, from spec/Lz77Window.tla, with the real sizes."""
    seen, hist = set(), []
    for h in H.get("window", []):
        key = tuple(sorted(h.items()))
        if key not in seen and -2 <= h["d"]:
            seen.add(key)
            hist.append(h)
    for h in S.sample(sorted(hist, key=lambda h: sorted(h.items(), key=str).__repr__()), n):
        o = {"greedy": S.pick(["fast", "4,258,G"]), "rle": "rle",
             "lazy": {0: S.pick(["128,0,L", "16,0,L"]), 4: S.pick(["128,4,L", "default"])}.get(h["lazy"], S.pick(["64,400,L", "high"]))}[h["mode"]]
        k, t, d = h["win"] + 1, h["tok"], h["d"]
        if t == 5:
            t = S.pick([258, 258, 257, 20])
            d = {0: 0, 1: 1, 2: t // 2, 3: t - 2, 4: t - 1}.get(d, d)
        if t == 3 and S.rnd.random() < .3:
            t = 4
        if t == 3 and o == "rle":
            t = 4
        if h["flushed"]:
            p, x = flushed_edge(S, o, k, t, d, 0)
        else:
            try:
                p = edge(S, k, d, 0, ("m", t) if t > 1 else ("l",), o, "sto" if h["store"] and k > 1 else S.pick(["dyn", "short"]))
            except AssertionError:
                continue
            p += tail(S)
            tot = seglen(p)
            x = ["o"] if not h["more"] and S.rnd.random() < .5 else splits(S, tot, .03, small=False) + ["x"]
        if ops:
            x = ops
        S.group(fam, sc(p, x, S.pick(fmts), o))


def windows(S, n, fmts=["raw"], flush=0.25, fam="window"):
    """Matches and literals around window edges, with splits and flushes near them."""
    for i in range(n):
        o = S.pick(["default", "default", "fast", "high", "128,0,L", "4,258,G", "rle", "64,400,L"])
        k = S.pick([1, 2, 2, 3])
        t = S.pick([0, 3, 4, 5, 6, 20, 100, 258, 259, 600])
        d = S.pick([0, 1, 2, 3, 4, 5, t // 2, t, t + 1, t + 2, t + 3])
        p = ["t:%d:%d" % (S.seed(), max(600, k * W - d - 60))]
        if S.rnd.random() < .5:
            p += [LAZY_SRC, "t:%d:8" % S.seed(), LAZY_USE[S.pick([2, 3, 4])]]
        if t:
            have = seglen(p)
            p.append("c:%d:%d" % (1 if o == "rle" else S.pick([1, 2, S.rnd.randrange(4, 8000), S.rnd.randrange(4, min(have, W))]), t))
        p += tail(S)
        if S.rnd.random() < .5:
            p.append(mixed(S, S.pick([10, 1000, 40000])))
        tot = seglen(p)
        S.group(fam, sc(p, splits(S, tot, flush) + [S.pick(["x", "x", "d"])], S.pick(fmts), o))


def streams(S, n, fmts=FMTS, flush=0.3, total=None, fam="stream", end=("x", "x", "d")):
    for i in range(n):
        m = total or S.pick([0, 5, 300, 2000, 33000, 66000, 70000, 100000, 140000])
        p = mixed(S, m) if m > 5 else ("r:%d:%d" % (S.seed(), m) if m else "")
        ops = splits(S, m, flush)
        if S.rnd.random() < .2:
            ops.insert(0, "F")
        S.group(fam, sc(p, ops + [S.pick(end)], S.pick(fmts), S.pick(ALLOPTS), gz=S.pick(GZ)))


def flush_small(S, n, fmts=FMTS, fam="flush"):
    """Small writes and flushes at every position, also as the first call and repeated."""
    for i in range(n):
        p = S.pick(kinds(S, S.pick([9, 40, 300, 1200])))
        tot, ops, at = seglen(p), [], 0
        while at < tot:
            m = S.pick([1, 1, 2, 2, 3, 4, 5, 20, 259])
            if len(ops) > 30:
                m = tot
            ops += ["W%d" % m] + ["F"] * S.pick([0, 1, 1, 2])
            at += m
        if S.rnd.random() < .4:
            ops.insert(0, "F")
        S.group(fam, sc(p, ops + [S.pick(["x", "d"])], S.pick(fmts), S.pick(ALLOPTS), gz=S.pick(GZ)))


SHORT = ["l:1", "l:2", "l:3,1", "l:I,*", "l:I,1", "l:1,I,I,5", "l:7,100,I,*", "l:1000", "l:I,I,I,I,3", "l:*,I,1", "s:1,1,1,*", "s:I,I,2,I,*", "l:4096", "l:32767,1,I", "l:100,I"]
# with a limit on what is delivered, many calls of one byte are too many steps
BIGSHORT = ["l:1000", "l:4096,I", "l:32767,1,I", "l:777,I,I,20000", "l:I,*", "s:I,1,1,I,3,*", "s:10000,1,I,1,*", "l:*,I,1,*", "s:32768,I,*", "s:32767,I,1,*"]


def short(S, n, fmts=FMTS, fam="short"):
    """The same history with a sink that takes everything and with ones that do not."""
    for i in range(n):
        f, o, g = S.pick(fmts), S.pick(ALLOPTS), S.pick(GZ)
        if S.rnd.random() < .65:
            p = small_pool(S)
            tot = seglen(p) if p else 0
            ops = splits(S, tot, .4)
            sinks = SHORT
        else:
            m = S.pick([66000, 70000, 100000, 140000, 200000])
            p = mixed(S, m) if S.rnd.random() < .5 else "r:%d:%d" % (S.seed(), m)
            ops = splits(S, m, .2, small=False)
            sinks = BIGSHORT
        if S.rnd.random() < .2:
            ops.insert(0, "F")
        ops.append(S.pick(["x", "x", "d"]))
        g0 = [sc(p, ops, f, o, gz=g)]
        for j, k in enumerate(S.sample(sinks, 2)):
            g0.append(sc(p, ops, f, o, gz=g, sink=k, ref="1:%d:1:0" % (j + 1)))
        S.group(fam, *g0)


def fault_sink(S, small):
    l = [S.pick(["*", "1", "2", "5", "10", "100", "I", "B", "E", "0"]) if small else
         S.pick(["*", "*", "1", "1000", "32768", "I", "B", "E", "0", "20000"]) for _ in range(S.pick([1, 2, 3, 4, 6]))]
    if all(x in "IBE0" for x in l):
        l.append(S.pick(["*", "3"]))
    if not small and not any(x in ("*", "32768", "20000", "1000") for x in l):
        l.append("*")
    if not small and l[-1] == "1":
        l.append("*")
    return ("l:" if S.rnd.random() < .6 else "s:") + ",".join(l) + ("" if l[-1] not in "IBE0" else ",*")


def faults(S, n, fmts=FMTS, fam="fault"):
    """Writers that fail and recover; calls retried, or not."""
    for i in range(n):
        f, o, g = S.pick(fmts), S.pick(ALLOPTS), S.pick(GZ)
        bigd = S.rnd.random() < .35
        m = S.pick([66000, 70000, 140000, 200000]) if bigd else None
        p = ("r:%d:%d" % (S.seed(), m) if S.rnd.random() < .6 else mixed(S, m)) if bigd else small_pool(S)
        tot = m or (seglen(p) if p else 0)
        ops = splits(S, tot, .3, small=not bigd)
        ops = [x.replace("F", S.pick(["F", "f"])) for x in ops]
        if S.rnd.random() < .2:
            ops.insert(0, S.pick(["f", "F"]))
        sinks = [fault_sink(S, not bigd)]
        if S.rnd.random() < .3:
            sinks = [S.pick(["t0", "t1", "t5", "t11", "T0", "T3", "T12", "t40000", "T33000"])]
        gz2 = S.pick(GZ)
        for _ in range(S.pick([0, 0, 1, 2])):
            r = S.pick(["r", "rr", "RR/" + gz2 if f == "gzip" else "rr"])
            ops += [r] + splits(S, 0)
            sinks.append(S.pick(["all", fault_sink(S, not bigd)]))
        S.group(fam, sc(p, ops + [S.pick(["x", "x", "d", "f"])], f, o, sink="|".join(sinks), gz=g))


def retried(S, n, fam="retry"):
    """Every fault position: the k-th sink call fails once; the final bytes are those without faults."""
    for i in range(n):
        f, o, g = S.pick(FMTS), S.pick(ALLOPTS), S.pick(GZ)
        if S.rnd.random() < .6:
            p = small_pool(S)
            tot = seglen(p) if p else 0
            ops = splits(S, tot, .5)
        else:
            tot = S.pick([66000, 100000, 140000])
            p = "r:%d:%d" % (S.seed(), tot)
            ops = splits(S, tot, .2, small=False)
        if S.rnd.random() < .3:
            ops.insert(0, "F")
        ops.append("rr")           # closing that can be retried
        g0 = [sc(p, ops + ["d"], f, o, gz=g)]
        k = S.rnd.randrange(0, 8)
        for j, kind in enumerate(S.sample(["B", "E", "I", "0"], 2)):
            script = ["*"] * k + [kind] * S.pick([1, 1, 2, 4]) + ["*"]
            g0.append(sc(p, ops + ["d"], f, o, gz=g, sink="s:" + ",".join(script) + "|all", ref="1:%d:1:0" % (j + 1)))
        S.group(fam, *g0)


def indep(S, n, seeds):
    """Segments that do not depend on what came before them."""
    out, have = [], 0
    while have < n:
        m = min(n - have, S.pick([1, 3, 300, 2000, 10000, 33000]))
        s = S.pick(seeds)
        out.append(S.pick(["r:%d:%d" % (s, m), "r:%d:%d" % (s, m), "w:%d:%d:20" % (s, min(m, 3000)), "a:%d:%d:50" % (s, min(m, 4000)), "z:%d:%d" % (s % 256, m), "q:%d" % m]))
        have += seglen(out[-1])
    return out


def resets(S, n, fam="reset", faulty=0.25, decode=True):
    """After reset(s) the encoder must behave as a fresh one."""
    for i in range(n):
        f, o = S.pick(FMTS), S.pick(ALLOPTS)
        seeds = [S.seed() for _ in range(3)]
        parts = []
        for j in range(S.pick([2, 2, 3])):
            m = S.pick([0, 1, 2, 3, 4, 300, 2000, 33000, 66000, 70000, 100000])
            x = indep(S, m, seeds) if m else []
            t = seglen(x) if x else 0
            ops = splits(S, t, .2, small=t < 5000)
            if S.rnd.random() < .15:
                ops.insert(0, "F")
            parts.append((x, ops, S.pick(GZ)))
        pool, ops, sinks = [], [], []
        for j, (x, p, g) in enumerate(parts):
            pool += x
            if j:
                r = S.pick(["rr", "r"]) if f != "gzip" or g == "-" else "RR/" + g
                if f == "gzip" and g == "-":
                    r = S.pick(["rr", "RR/-"])
                ops.append(r)
            ops += p
            sinks.append("all")
        ops.append(S.pick(["x", "d", "rr;d"]))
        if S.rnd.random() < faulty:
            sinks[0] = S.pick(["l:I,*", "l:1000,I", "s:1,1,E,*", "s:I,3,B,*", "s:*,E,*", "s:0,0,*"])
            ops = ["rr" if x == "r" else x for x in ops]
        # one fresh encoder per part, then the reused one, compared with each of them
        g0 = []
        for j, (x, p, g) in enumerate(parts):
            g0.append(sc(x, p + ["x"], f, o, gz=g, flags=0 if decode and S.rnd.random() < .3 else 2))
        refs = ["%d:%d:1:0" % (j + 1, len(parts) - j) for j in range(len(parts)) if j or sinks[0] == "all"]
        g0.append(sc(pool, ops, f, o, gz=parts[0][2], sink="|".join(sinks), ref=",".join(refs),
                     flags=0 if decode and seglen(pool) < 140000 else 2))
        S.group(fam, *g0)


def drops(S, n, fam="drop"):
    for i in range(n):
        f, o, g = S.pick(FMTS), S.pick(ALLOPTS), S.pick(GZ)
        if S.rnd.random() < .7:
            p = small_pool(S)
            tot = seglen(p) if p else 0
        else:
            tot = S.pick([33000, 66000, 70000, 140000])
            p = mixed(S, tot)
        ops = splits(S, tot, .3)
        if S.rnd.random() < .2:
            ops.insert(0, "F")
        if S.rnd.random() < .25:
            ops += ["rr", "W9"]
        sink = S.pick(["all", "all", "l:7,I,*", "l:I,100", "l:1000"])
        if tot > 5000 and sink == "l:I,100":
            sink = "l:I,1000"
        g0 = [sc(p, ops + ["x"], f, o, gz=g, sink=sink), sc(p, ops + ["d"], f, o, gz=g, sink=sink, ref="1:1:1:0")]
        S.group(fam, *g0)
    # a failed finish, then nothing more than once; a drop after failures that were not retried
    for i in range(n):
        f, o, g = S.pick(FMTS), S.pick(ALLOPTS), S.pick(GZ)
        p = small_pool(S)
        tot = seglen(p) if p else 0
        ops = splits(S, tot, .0) + S.pick([[], ["f"], ["F"], ["f", "f"], ["r"], ["f", "r"]])
        k = S.rnd.randrange(0, 5)
        sink = "s:" + ",".join(S.pick(["*", "3", "1"]) for _ in range(k)) + ("," if k else "") + S.pick(["E,*", "B,*", "0,*", "E,1,E,*", "I,E,*", "E,E,E,*"])
        S.group("dropfault", sc(p, ops + [S.pick(["x", "d", "d"])], f, o, gz=g, sink=sink + "|all"))


def same_options(S, n, fam="same"):
    """Options documented, or built, to mean the same."""
    pairs = [("C-fast", "fast"), ("C-default", "default"), ("C-best", "high"), ("default", "128,32,L"), ("fast", "1,0,G"),
             ("high", "1768,128,L"), ("huff", "0,0,G"), ("rle", "0,0,L"), ("0,77,L", "rle"), ("0,300,G", "huff"),
             ("128,258,L", "128,300,L"), ("128,258,L", "128,65535,L"), ("40,32768,L", "40,40000,L"), ("32768,32,L", "65535,32,L"),
             ("32768,0,G", "65535,0,G"), ("128,0,L", "128,0,G"), ("4,0,L", "4,0,G"), ("1,0,L", "fast"), ("1000,0,L", "1000,17,G"), ("16,1,G", "16,258,G"),
             ("20,1,L", "20,3,L"), ("20,2,L", "20,0,L")]
    for i in range(n):
        a, b = pairs[i % len(pairs)]
        deep = "32768" in a
        if S.rnd.random() < .5 or deep:
            p = S.pick(kinds(S, S.pick([300, 2000, 8000])))
        else:
            p = mixed(S, S.pick([40000, 70000, 140000]))
        ops = S.pick([["W9999999", "x"], ["W700", "F", "W9999999", "x"], ["W40000", "F", "W9999999", "F", "x"]])
        f = S.pick(FMTS)
        if S.rnd.random() < .3:
            ops = ["o"]
        S.group(fam, sc(p, ops, f, a, flags=2), sc(p, ops, f, b, flags=2, ref="1:1:1:0"))
    # `deflate_bytes` and its friends use the default options
    for i in range(max(3, n // 6)):
        p = S.pick(kinds(S, S.pick([0, 5, 300, 3000]) or 1))
        f = S.pick(FMTS)
        S.group("defaults", sc(p, "o", f, "default", flags=2), sc(p, "O", f, "default", flags=2, ref="1:1:1:0"))


def special_modes(S, n, fam="mode"):
    """rle and huffman-only on data full of repetitions; maximal distances and lengths for the others."""
    for i in range(n):
        m = S.pick([300, 1500, 4000])
        p = S.pick(kinds(S, m) + [mixed(S, m), "p:%d:%d:%d" % (S.seed(), m, S.pick([1, 2, 3])), "z:7:%d;x:08;z:7:%d;c:300:200" % (m, m)])
        o = S.pick(["rle", "rle", "huff", "0,0,L", "0,77,L", "0,1,G", "0,65535,G", "0,65535,L"])
        ops = S.pick(["o", "W9999999;x", "W100;F;W1;F;W9999999;x", "W1;F;W1;F;W2;F;W9999999;x"])
        S.group(fam, sc(p, ops, S.pick(FMTS), o))
    far(S, n // 2)


def far(S, n, fmts=["raw"], fam="far", ops=None):
    """Repetitions at distances around the largest one, at positions around all kinds of boundaries."""
    for i in range(n):
        d = S.pick([32506, 32766, 32767, 32768, 32768, 32769, 32770])
        at = max(d, S.pick([d, d + 1, BLOCK + S.rnd.randrange(0, 4), W + 258, 2 * W - S.pick([1, 2, 3, 5, 258]), 2 * W + S.pick([0, 1, 2, 100]), 3 * W - 1, 3 * W + 1, BUF - 2, BUF + W, S.rnd.randrange(d, 100000)]))
        l = S.pick([3, 4, 5, 20, 258, 259, 300, 1000])
        p = ["t:%d:%d" % (S.seed(), at), "c:%d:%d" % (d, l)]
        if S.rnd.random() < .3:       # a shorter repetition nearer by, or one a byte later
            p += ["t:%d:%d" % (S.seed(), S.pick([1, 2, 50])), "c:%d:%d" % (min(at, S.pick([l, 32767, 32768])), S.pick([3, 5, 30]))]
        p += ["t:%d:20" % S.seed()]
        tot = seglen(p)
        x = ops or S.pick([["o"], ["W%d" % (at - 3), "F", "W9999999", "x"], ["W%d" % at, "F", "W9999999", "x"], splits(S, tot, .1, small=False) + ["x"]])
        S.group(fam, sc(p, x, S.pick(fmts), S.pick(["default", "high", "fast", "4,0,L", "64,258,L", "16,258,G", "1,0,L", "128,3,L"])))


def costs(S, n, fam="cost"):
    """Small blocks around the points where stored, fixed and dynamic blocks cost the same."""
    for i in range(n):
        m = S.pick([0, 1, 4, 5, 6, 8, 12, 20, 40, 70, 100, 150, 200, 260, 400, 800, 1500])
        t = S.rnd.randrange(9)
        if t == 0:
            p = "r:%d:%d" % (S.seed(), m)
        elif t == 1:
            p = "a:%d:%d:%d" % (S.seed(), m, S.pick([2, 3, 8, 20, 64, 100, 130, 144, 160, 200, 250]))
        elif t == 2:
            p = "g:%d:%d:%d" % (S.seed(), m, S.pick([3, 6, 10, 20]))
        elif t == 3:
            p = "w:%d:%d:%d" % (S.seed(), m, S.pick([3, 10, 40]))
        elif t == 4:    # matches at all kinds of distances and hardly any literals
            h = max(8, m)
            p = "r:%d:%d" % (S.seed(), h)
            for _ in range(S.pick([1, 3, 10, 40])):
                l = S.pick([3, 4, 5, 8, 20, 258])
                p += ";c:%d:%d;r:%d:%d" % (S.rnd.randrange(1, h + 1), l, S.seed(), S.pick([0, 1, 2]))
                h += l
        elif t == 5:    # every value equally often: equal code lengths, long runs in the header
            p = "n:%d:%s" % (S.seed(), ",".join("%d.%d" % (v, S.pick([1, 1, 1, 2])) for v in range(S.pick([0, 100]), S.pick([140, 160, 256]))))
        elif t == 6:
            p = "r:%d:%d;z:%d:%d" % (S.seed(), m, S.rnd.randrange(256), S.pick([3, 20, 258, 600]))
        elif t == 7:
            a = S.rnd.randrange(256)
            p = "n:%d:%s" % (S.seed(), ",".join("%d.%d" % ((a + j * S.pick([1, 1, 2, 9])) % 256, S.pick([1, 1, 2, 3, 30])) for j in range(S.pick([2, 5, 20, 60]))))
        else:
            p = small_pool(S)
        tot = seglen(p) if p else 0
        o = S.pick(["huff", "default", "default", "high", "rle", "fast", "16,258,L"])
        ops = S.pick([["o"], ["o"], ["W9999999", "x"], ["W%d" % (tot // 2), "F", "W9999999", "x"], ["W%d" % (tot // 3), "F", "F", "W%d" % (tot // 3), "F", "W9999999", "F", "x"]])
        f = S.pick(FMTS)
        S.group(fam, sc(p, ops, f, o, flags=1, gz=S.pick(GZ)))


def expansion(S, n, fam="expand"):
    """Incompressible data of any length: stored blocks, also longer than one stored block can be."""
    for i in range(n):
        m = S.pick([1, 5, 100, 31743, 31744, 31745, 32766, 32767, 32768, 33000, 63488, 65535, 65536, 65794, 70000, 98304, 130000, 200000])
        p = ["r:%d:%d" % (S.seed(), m)]
        if S.rnd.random() < .4:
            p = ["r:%d:%d" % (S.seed(), m // 2)]
            h = m // 2
            # three-byte matches make the block longer than 32767 bytes, still not worth compressing
            if h > 3000:
                for _ in range(S.pick([400, 900])):
                    p += ["c:%d:3" % S.rnd.randrange(300, 2900), "r:%d:%d" % (S.seed(), 12)]
                p.append("r:%d:%d" % (S.seed(), 40000))
        o = S.pick(["default", "fast", "high", "huff", "rle", "4,0,L"])
        tot = seglen(p)
        ops = S.pick([["o"], ["W9999999", "x"], splits(S, tot, .2, small=False) + ["x"], splits(S, tot, .2, small=False) + ["d"]])
        S.group(fam, sc(p, ops, S.pick(FMTS), o, flags=S.pick([0, 0, 1]) if m < 40000 else 0, gz=S.pick(GZ)))


def memory(S, n, mb, fam="memory"):
    for i in range(n):
        p = S.pick(["r:%d:200000" % S.seed(), "z:0:100000", "w:%d:200000:50" % S.seed(), mixed(S, 150000), "r:%d:70000;z:1:70000" % S.seed(), "a:%d:100000:16" % S.seed(), "r:%d:31744;z:0:300" % S.seed()])
        o = S.pick(["default", "fast", "huff", "rle", "4,0,L", "high"])
        if o == "high" and p.startswith("a:"):
            o = "default"
        piece = S.pick([1000, 4096, 31744, 32768, 65536, 65794, 100000, 300000, 7])
        total = int(mb * 1e6)
        if piece == 7:
            total //= 8
        every = S.pick([0, 0, 1, 3, 50])
        if piece < 1000 and every:
            every *= 1000
        sink = S.pick(["all", "all", "l:1000", "l:40000", "l:300"])
        S.group(fam, sc(p, "M%d/%d/%d" % (total, piece, every), S.pick(FMTS), o, sink=sink, gz=S.pick(GZ), tags=S.pick(["-", "-", "r"])))


def same_output(S, n, fam="split"):
    """Without flushes, neither the split into writes nor the container changes the DEFLATE data."""
    for i in range(n):
        o = S.pick(ALLOPTS)
        c = S.rnd.random()
        if c < .3:
            p = S.pick(kinds(S, S.pick([6, 100, 3000])))
        elif c < .5:
            p = small_pool(S)
        elif c < .75:
            p = S.pick(kinds(S, S.pick([33000, 66000, 100000])))
        else:
            p = mixed(S, S.pick([66000, 70000, 140000, 200000]))
        tot = seglen(p) if p else 0
        g0 = [sc(p, "o", "raw", o)]
        for j in range(3):
            f = S.pick(FMTS)
            g0.append(sc(p, splits(S, tot) + [S.pick(["x", "d"])], f, o, gz=S.pick(GZ), ref="1:%d:1:1" % (j + 1)))
        g0.append(sc(p, "o", S.pick(["zlib", "gzip"]), o, gz=S.pick(GZ), ref="1:4:1:1"))
        S.group(fam, *g0)
    for i in range(max(2, n // 8)):    # the same history twice
        m = S.pick([300, 70000])
        p, o, f = mixed(S, m), S.pick(ALLOPTS), S.pick(FMTS)
        ops = splits(S, m, .4) + ["rr"] + ["x"]
        S.group("repeat", sc(p, ops, f, o), sc(p, ops, f, o, ref="1:1:1:0,2:1:2:0"))
    for i in range(max(4, n // 3)):    # with flushes: the split between them does not matter
        o, f = S.pick(ALLOPTS), S.pick(FMTS)
        if S.rnd.random() < .6:
            parts = [S.pick([0, 1, 1, 2, 2, 3, 4, 10, 300]) for _ in range(S.pick([3, 6, 12]))]
        else:
            parts = [S.pick([1, 2, 10, 300, 5000, 31744, 32767, 32768, 33000, 40000, 66000]) for _ in range(S.pick([2, 3, 4]))]
        tot = sum(parts)
        p = S.pick(kinds(S, max(tot, 6))) if tot < 3000 else mixed(S, tot)
        fl = [S.pick(["F", "F", "F", "F;F"]) for _ in parts]

        def hist(cut):
            r = []
            for j, m in enumerate(parts):
                r += (splits(S, m) if cut else ["W%d" % m] if m else []) + [fl[j]]
            return r + [S.pick(["x", "d"])]
        S.group("flushsplit", sc(p, hist(False), f, o), sc(p, hist(True), f, o, ref="1:1:1:0"), sc(p, hist(True), S.pick(FMTS), o, ref="1:2:1:1"))


def from_code_models(S, n, H):
    """Pools for the vectors of spec/CodeLengths.tla and the lists of spec/RunLengths.tla."""
    out = []
    vec = H.get("codes", [])
    for h in S.sample(vec, n // 3):
        f = h["f"]
        if S.rnd.random() < .3:
            f = [x * S.pick([1, 3, 10]) for x in f]
            out.append(counts_pool(S, f[:250]))
        else:                            # continued until the limit of 15 binds, sometimes just about
            out.append(counts_pool(S, deepen(S, f, S.pick([2600, 3500, 4300, 4300, 5000, 7000, 7000, 12000, 31000]))))
    # run lists: those with different sequences of codes first
    seen, few = {}, []
    for h in S.sample(H.get("runs", []), len(H.get("runs", []))):
        key = str([c if c[0] != "lit" else "lit" for c in h["o"]])
        if key not in seen:
            seen[key] = 1
            few.append(h)
    for h in few:
        if len(out) >= 2 * n // 3:
            break
        p = runs_pool(S, h["l"])
        if p:
            out.append(p)
    for _ in range(n // 12):
        p = skewed_lengths(S)
        if p:
            out.append(p)
    # the shape that gets deepest: one of the ones is the end-of-block code
    for _ in range(n // 12):
        out.append(counts_pool(S, deepen(S, [1, 1, 2], S.pick([2700, 4300, 7000, 12000, 20000, 31500]))))
    return out


def tables(S, n, hist, fam="table"):
    """Symbol frequency tables of every shape."""
    lists = list(hist)
    for i in range(n - len(lists)):
        t = S.rnd.randrange(7)
        if t == 0:
            p = "f:%d:%d" % (S.rnd.randrange(2, 20), S.seed())
        elif t == 1:
            p = "g:%d:%d:%d" % (S.seed(), S.pick([50, 500, 3000, 6000]), S.rnd.randrange(2, 30))
        elif t == 2:    # one value far more frequent than the others
            p = "n:%d:%s" % (S.seed(), ",".join(["0.%d" % S.pick([500, 3000])] + ["%d.%d" % (v, S.pick([1, 1, 2])) for v in range(1, S.pick([3, 20, 256]))]))
        elif t == 3:    # gaps in the alphabet: runs of zeroes of every length
            v, l = 0, []
            while v < 256:
                l.append("%d.%d" % (v, S.pick([1, 2, 4, 8, 100])))
                v += S.pick([1, 1, 2, 3, 4, 11, 12, 100, 138, 139, 140])
            p = "n:%d:%s" % (S.seed(), ",".join(l))
        elif t == 4:    # runs of equal lengths of every length
            v, l = S.pick([0, 100, 200]), []
            while v < 256:
                c, r = S.pick([1, 2, 4, 8, 16, 32]), S.pick([1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 20])
                for _ in range(r):
                    if v < 256:
                        l.append("%d.%d" % (v, c))
                    v += 1
            p = "n:%d:%s" % (S.seed(), ",".join(l))
        elif t == 5:    # powers: depth-limited codes
            a, l = 1.0, []
            q = S.pick([1.62, 1.62, 1.65, 1.7, 2.0, 1.5, 1.3])
            while sum(l) + a < S.pick([3000, 5000, 9000, 31000]) and len(l) < 250:
                l.append(int(a))
                a *= q
            p = counts_pool(S, l[1:] if S.rnd.random() < .5 else l)
        else:
            p = "n:%d:%s" % (S.seed(), ",".join("%d.%d" % (S.rnd.randrange(256), S.rnd.randrange(1, S.pick([3, 20, 300]))) for _ in range(S.pick([1, 2, 3, 5, 20, 60]))))
        lists.append(p)
    for p in lists:
        ops = S.pick(["o", "o", "W9999999;F;x"])
        S.group(fam, sc(p, ops, "raw", S.pick(["huff", "huff", "huff", "default", "rle"]), flags=1))


def distances(S, n, fam="dist"):
    """Tables of distance codes: none, one, many; skewed."""
    for i in range(n):
        h = S.pick([20, 300, 3000])
        p = ["r:%d:%d" % (S.seed(), h)]
        k = S.pick([0, 1, 2, 5, 20, 60])
        ds = [S.rnd.randrange(1, h) for _ in range(S.pick([1, 1, 2, 6, 30]))]
        for _ in range(k):
            d = ds[min(len(ds) - 1, int(S.rnd.expovariate(.7)))]
            p += ["c:%d:%d" % (d, S.pick([3, 4, 5, 10, 11, 20, 114, 115, 257, 258])), "r:%d:%d" % (S.seed(), S.pick([0, 1, 2, 9]))]
        p.append("g:%d:%d:9" % (S.seed(), S.pick([0, 300, 2000])))
        S.group(fam, sc([x for x in p if not x.endswith(":0")], "o", "raw", S.pick(["default", "high", "rle", "fast", "64,258,G"]), flags=1))


def coverage(S, n, fam="cover"):
    """A long repetition of data that repeats nowhere else costs its matches and little more."""
    for i in range(n):
        o = S.pick(["default", "high", "128,0,L", "200,258,L", "150,0,G", "1000,32,L"])
        L = S.pick([1500, 3000, 5000, 9000])
        d = S.pick([L, L + 1, 9000, 16384, 20000, 32000, 32760, 32767, 32768])
        d = max(d, L)
        want = -(-L // 258)
        c = S.rnd.random()
        if c < .5:
            # the first occurrence in a stored block that ends with a flush: cheap to decode
            at = max(d, S.pick([d, d + 1, 33000, 40000, 65000, 65536, 66000, 70000, 90000, 100000]))
            at += S.rnd.randrange(0, 300)
            p = ["t:%d:%d" % (S.seed(), at), "c:%d:%d" % (d, L), "t:%d:5" % S.seed()]
            fl = 1
            ops = ["W%d" % at, "F"]
            if S.rnd.random() < .4:
                a = S.rnd.randrange(2, L - 2)
                ops += ["W%d" % a, "F"]
                fl += 1
            if S.rnd.random() < .3:
                ops = splits(S, at - 100, 0, small=False) + ["W100", "F"] + ops[2:]
            ops += ["W%d" % (at + L + 5), "x"]
        else:
            k = S.pick([1, 1, 2, 2, 3])
            at = k * W - S.pick([0, 1, 2, 258, L // 2, L - 1, L, 3000, 1000]) if S.rnd.random() < .7 else BLOCK * k + S.pick([-5, 0, 1, 300])
            at = max(at, d)
            p = ["t:%d:%d:100" % (S.seed(), at), "c:%d:%d" % (d, L), "t:%d:5:100" % S.seed()]
            fl = 0
            ops = splits(S, at + L + 5, 0, small=False) + ["x"]
        S.group(fam, sc(p, ops, "raw", o, cov="1:%d:%d:%d" % (at, at + L, want + 4 + 4 * fl)))
    for i in range(n // 2):
        # few checks suffice if nothing else has the same first bytes: soon after a window was moved, too
        o = S.pick(["fast", "fast", "1,0,G", "2,3,L", "1,0,L", "3,258,G", "4,0,L"])
        L = S.pick([300, 600, 1500, 3000])
        d = S.pick([L, L + 1, 600, 3500, 4000, 5000, 9000, 20000, 32000, 32767, 32768])
        d = max(d, L)
        k = S.pick([1, 2, 2, 3, 3])
        at = max(d, k * W + S.pick([-L, -L // 2, -258, -3, -1, 0, 1, 2, 3, 100, 258, 300, 1000, 3000]))
        p = ["t:%d:%d" % (S.seed(), at), "c:%d:%d" % (d, L), "t:%d:5" % S.seed()]
        ops, fl = S.pick([(["W9999999", "x"], 0), (splits(S, at + L + 5, 0, small=False) + ["x"], 0), (["W%d" % at, "F", "W9999999", "x"], 1)])
        # other bytes may have the same hash: now and then a match ends early, which costs another or three literals
        S.group("few", sc(p, ops, "raw", o, cov="1:%d:%d:%d" % (at, at + L, -(-L // 258) + 40 + L // 20 + 4 * fl)))
    for i in range(n // 2):
        # runs, by all matchers
        o = S.pick(["rle", "rle", "fast", "default", "1,0,L", "high"])
        L = S.pick([1000, 5000, 33000, 70000])
        at = S.pick([1, 2, 300, 31743, 31744, 32700, 32767, 65535, 65700])
        p = ["t:%d:%d" % (S.seed(), at), "x:55", "z:77:%d" % L, "t:%d:5" % S.seed()]
        ops = ["W%d" % at, "F"] if at > 300 else []
        fl = 1 if ops else 0
        if S.rnd.random() < .4:
            # (a short part of the run may be stored, together with what is before it)
            ops += ["W%d" % (at * (fl == 0) + S.pick([3, 4, S.rnd.randrange(300, L - 20), S.rnd.randrange(300, L - 20)])), "F"]
            fl += 1
        ops += ["W9999999", "x"]
        S.group("run", sc(p, ops, "raw", o, cov="1:%d:%d:%d" % (at + 1, at + 1 + L, -(-L // 258) + 4 + 4 * fl)))
    for i in range(n // 3):
        # a short period: long matches at short distances across windows
        o = S.pick(["default", "high", "64,0,L", "100,258,G"])
        P = S.pick([2, 3, 50, 257, 258, 259, 1000, 20000])
        L = S.pick([40000, 70000, 100000])
        p = ["p:%d:%d:%d" % (S.seed(), L, P)]
        ops = splits(S, L, 0, small=False) + ["x"]
        S.group("period", sc(p, ops, "raw", o, cov="1:%d:%d:%d" % (P + 3, L, -(-L // 258) + 6)))


# the search is not cut short, wherever it begins
UNLIMITED = ["32768,258,L", "65535,65535,L", "32768,0,G", "65535,258,G", "40000,32,L", "32768,0,L", "33000,4,L", "32768,100,L"]


def unlimited(S, fam, *a, opts=UNLIMITED, **kw):
    """A family with other options."""
    n = len(S.groups)
    fam(S, *a, **kw)
    for g in S.groups[n:]:
        g[:] = [re.sub(r" opts=\S+", lambda m: " opts=" + S.pick(opts), l) for l in g]


def chains(S, n):
    """Repetitions of every length at chosen distances, the nearest and the longest being different ones."""
    for i in range(n):
        at = S.pick([0, 0, 100, 9000, 31744, 32768 - 600, 32768, 65536 - 600, 65536, 98304 - 300])
        word = "t:%d:%d" % (S.seed(), S.pick([3, 4, 5, 8, 40, 258, 300]))
        m = seglen(word)
        p = (["t:%d:%d" % (S.seed(), at)] if at else []) + [word]
        have = at + m
        for _ in range(S.pick([1, 2, 4, 8])):
            g = S.pick([1, 2, 3, 50, 700, 4000, 8192 - m, 16000])
            p.append("t:%d:%d" % (S.seed(), g))
            have += g
            d = have - at
            if d <= W:
                k = S.pick([m, m, m - 1, 3, max(3, m // 2)])
                k = max(3, min(k, m))
                p.append("c:%d:%d" % (d, k))
                have += k
        p += tail(S) if have > 40000 else ["t:%d:%d" % (S.seed(), S.pick([1, 2, 3, 30]))]
        tot = seglen(p)
        ops = S.pick([["o"], splits(S, tot, .1, small=False) + ["x"], ["W%d" % min(tot, at + m), "F", "W9999999", "x"]])
        S.group("chain", sc(p, ops, "raw", S.pick(UNLIMITED)))


def searching(S, n, H):
    sizes(S, 2 * n)
    unlimited(S, sizes, n)
    flush_small(S, n)
    unlimited(S, flush_small, n)
    chains(S, n)
    unlimited(S, windows, n)
    unlimited(S, streams, n // 2, ["raw"], .2)
    unlimited(S, edges, n // 2, ks=(1, 2, 3))
    unlimited(S, situations, n // 2, H)
    unlimited(S, far, max(1, n // 4))
    streams(S, n // 4)
    # runs, by the option that only looks for them
    unlimited(S, flush_small, n // 2, opts=["rle"])
    unlimited(S, streams, n // 4, opts=["rle"])


def panics(S, n, fam="any"):
    """Histories of all kinds; only results are judged, so many are affordable."""
    k = n // 10
    edges(S, k * 3, ks=(1, 2, 3, 4), ops=lambda S, t: S.pick([["o"], splits(S, t, .1, small=False) + ["x"], splits(S, t, .0) + ["d"]]), fmts=FMTS)
    flushed_edges(S, k, FMTS)
    windows(S, k, FMTS)
    streams(S, k)
    flush_small(S, k)
    faults(S, k * 2)
    sizes(S, k, FMTS)
    tables(S, k, [])
    costs(S, k)


def sums(S, n):
    for i in range(n):
        f = S.pick(["zlib", "gzip"])
        p = S.pick([small_pool(S), "z:255:%d" % S.pick([5551, 5552, 5553, 20000]), "r:%d:%d" % (S.seed(), S.pick([100, 40000])), "q:3000", "z:0:5000"])
        tot = seglen(p) if p else 0
        ops = splits(S, tot, .3)
        if S.rnd.random() < .3:
            ops += ["rr"] + ["W100", "f"]
        sink = S.pick(["all", "l:1,I", "l:3,E,*", "s:B,E,*", "l:I,*", "l:0,5", "l:1000,B"]) if tot < 5000 else S.pick(["all", "l:1000,B", "s:E,E,*,E,*", "l:20000,I"])
        # the sum of what was accepted so far, also in the middle of failures
        S.group("sum", sc(p, ops + [S.pick(["x", "d", "f"])], f, S.pick(["default", "fast", "huff", "rle"]), sink=sink + "|all"))


# --------------------------------------------------------------------------- histories of the models
def from_models(S, n, H, fmts=FMTS, fam="model"):
    """Histories of spec/EncoderApi.tla with every sink answer the model chose."""
    hist = [h for h in H.get("api", []) if h["fmt"] in fmts]
    for h in S.sample(hist, n):
        large = S.rnd.random() < .5
        unit = S.pick([33000, 33000, 32768, 32700, 31744]) if large else S.pick([1, 2, 3, 7, 100, 300])
        units = sum(x[1] for x in h["h"] if x[0] == "w")
        ops, scripts = [], [[]]
        for x in h["h"]:
            if x[0] == "w":
                ops.append("w%d" % (x[1] * unit))
            elif x[0] == "R":
                scripts.append([])
            elif x[0] == "k":
                k = x[1]
                scripts[-1].append({"s": S.pick(["1", "2", "9", "1000", "20000"]) if large else S.pick(["1", "2", "3", "9"]),
                                    "E": S.pick("EB"), "t": "0"}.get(k, k))
                if k == "t":
                    scripts[-1] += ["0"] * 3
            else:
                ops.append(x[0])
        # what comes after the last answer of the model
        for q in scripts:
            if q[-4:] != ["0"] * 4:
                q.append("*")
        tot = units * unit
        if large:
            p = "r:%d:%d" % (S.seed(), tot)
        else:
            p = S.pick(kinds(S, tot)) if tot >= 6 else "r:%d:%d" % (S.seed(), tot)
        f = h["fmt"]
        if f == "gzip":
            ops = ["R/" + S.pick(GZ) if x == "r" and S.rnd.random() < .6 else x for x in ops]
        S.group(fam, sc(p if tot else "", ops, f, S.pick(ALLOPTS), gz=S.pick(GZ) if f == "gzip" else "-",
                        sink="|".join("s:" + ",".join(q) for q in scripts)))


# --------------------------------------------------------------------------- plans
def scenarios(prop, tier, seed, H):
    S = Scenarios(prop, tier, seed)
    q = S.n_of
    if prop == "C01":
        tiny(S, q(120, 300), ["raw"])
        sizes(S, q(120, 600))
        situations(S, q(60, 1500), H, ops="o")
        edges(S, q(30, 500))
        big(S, q(50, 300))
        far(S, q(12, 100), ops=["o"])
        tables(S, q(30, 200), [])
    elif prop == "C02":
        from_models(S, q(60, 600), H, ["zlib"])
        tiny(S, q(60, 200), ["zlib"])
        sizes(S, q(40, 200), ["zlib"])
        streams(S, q(40, 300), ["zlib"])
        far(S, q(4, 50), ["zlib"])
        flush_small(S, q(30, 200), ["zlib"])
        faults(S, q(60, 500), ["zlib"])
        resets(S, q(15, 100))
        sums(S, q(10, 50))
    elif prop == "C03":
        from_models(S, q(60, 600), H, ["gzip"])
        tiny(S, q(60, 200), ["gzip"])
        sizes(S, q(60, 200), ["gzip"])
        streams(S, q(40, 300), ["gzip"])
        far(S, q(4, 50), ["gzip"])
        flush_small(S, q(30, 200), ["gzip"])
        faults(S, q(60, 500), ["gzip"])
        resets(S, q(15, 100))
    elif prop == "C04":
        from_models(S, q(60, 600), H)
        situations(S, q(60, 1500), H)
        edges(S, q(20, 300), ops=lambda S, t: splits(S, t, .05, small=False) + ["x"])
        flushed_edges(S, q(70, 400))
        windows(S, q(70, 500), FMTS)
        far(S, q(8, 100), FMTS)
        streams(S, q(60, 400))
        flush_small(S, q(40, 200))
    elif prop == "C05":
        from_models(S, q(60, 600), H)
        flush_small(S, q(120, 500))
        windows(S, q(80, 400), flush=.5)
        flushed_edges(S, q(60, 300))
        streams(S, q(40, 300), flush=.5)
        faults(S, q(40, 300))
    elif prop == "C06":
        from_models(S, q(60, 600), H)
        short(S, q(110, 800))
    elif prop == "C07":
        from_models(S, q(250, 2500), H)
        faults(S, q(160, 1000))
        retried(S, q(90, 500))
    elif prop == "C08":
        from_models(S, q(250, 2500), H)
        panics(S, q(800, 6000))
        situations(S, q(200, 3000), H)
    elif prop == "C09":
        from_models(S, q(60, 600), H)
        resets(S, q(110, 800))
    elif prop == "C10":
        from_models(S, q(100, 1000), H, ["zlib", "gzip"])
        sums(S, q(100, 500))
        faults(S, q(40, 300), ["zlib", "gzip"])
        resets(S, q(10, 60), decode=False)
    elif prop == "C11":
        from_models(S, q(100, 1000), H)
        drops(S, q(90, 600))
    elif prop == "C12":
        same_options(S, q(180, 1200))
        special_modes(S, q(80, 500))
    elif prop == "C13":
        costs(S, q(260, 1500))
        expansion(S, q(60, 300))
    elif prop == "C14":
        memory(S, q(24, 80), q(6, 60))
    elif prop == "C15":
        same_output(S, q(80, 500))
    elif prop == "C16":
        tables(S, q(240, 1800), from_code_models(S, q(140, 1200), H))
        distances(S, q(60, 400))
        sizes(S, q(30, 200))
    elif prop == "C17":
        coverage(S, q(60, 400))
    elif prop == "C18":
        searching(S, q(40, 300), H)
    return S.groups


def screened(prop, tier, seed, H):
    """Groups for the harness to look through (see check.py, screen)."""
    if prop == "C14":
        return []
    out = []
    rounds = {"C08": 16}.get(prop, 100) * (20 if tier == "thorough" else 1)
    for i in range(rounds):
        for g in scenarios(prop, "quick", "%s/screen%d" % (seed, i), H):
            out.append([re.sub(r"(^| )id=", r"\g<1>id=s%d-" % i, l, 1) for l in g])
    return out


def screen_seconds(prop, tier):
    return 600 if tier == "thorough" else 20


API = ("C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11")
# defects of the model that have to be found, by the property that they break
API_BUGS = {"C02": ["sumall"], "C03": ["D8"], "C04": ["D2", "D4"], "C05": ["D1", "nohead"], "C06": ["pos", "nonf"],
            "C07": ["D2", "D4", "D11"], "C08": ["D3"], "C09": ["D8", "sumkept", "trlkept"], "C10": ["sumall", "sumkept"], "C11": ["D8b", "D11"]}


def models(prop, tier, Model):
    import os
    seed = os.environ.get("VERIF_SEED", "1")
    thorough = tier == "thorough"
    ms = []
    if prop in ("C01", "C04", "C05", "C08", "C13", "C15", "C17", "C18"):
        ms.append(Model("Lz77Window", "Lz77Window.cfg", workers=6 if thorough else 2, heap="8000m" if thorough else "3000m",
                        over={"N": 40, "WRITES": "{0,1,2,9,22}", "FLUSHES": 2} if thorough else {"N": 26},
                        note="blocks, windows and hash entries for every split, flush and choice of matches within the bounds"))
        for b in ["D5", "overlap", "pending", "hslide", "bth", "warm", "D10", "D14"] if thorough else {"C01": ["D5"], "C04": ["overlap"], "C05": ["warm"], "C15": ["D10"], "C17": ["bth"], "C18": ["D14", "hslide"]}.get(prop, []):
            ms.append(Model("Lz77Window", "Lz77Window.cfg", expect="is violated", over={"Bugs": '{"%s"}' % b}, note="planted in the model; has to be found"))
    if prop in ("C09", "C17", "C18"):
        ms.append(Model("HashChains", "HashChains.cfg", workers=6 if thorough else 2, heap="8000m" if thorough else "3000m",
                        over={"N": 14} if thorough else {"N": 11}, note="the walk along a hash chain finds every earlier position within the window, nearest first"))
        ms.append(Model("HashChains", "HashChains.cfg", over={"N": 9, "RESETS": 1}, note="the same with resets"))
        for b in ["headkept", "prevkept", "D7"] if thorough else {"C09": ["D7"], "C17": ["headkept"], "C18": ["prevkept"]}[prop]:
            ms.append(Model("HashChains", "HashChains.cfg", expect="is violated", over={"N": 9, "RESETS": 1, "Bugs": '{"%s"}' % b}, note="planted in the model; has to be found"))
    if prop == "C18":
        ms.append(Model("MatchingTest", "MatchingTest.cfg", over={"N": 14 if thorough else 10}, note="the computed longest repetition is the defined one"))
    if prop in ("C01", "C04", "C08", "C18"):
        ms.append(Model("Lz77Window", "Lz77Window.cfg", gen="window", workers=2, over={"Record": "TRUE", "N": 40},
                        args=["-simulate", "num=%d" % (20000 if thorough else 2500), "-depth", "200", "-seed", str(int(seed) * 10 + 7)],
                        note="situations in which blocks end, realised with the real sizes"))
    if prop in ("C13", "C16", "C08"):
        big = dict(N=8, FMAX=7, SKEW=14) if thorough else {}
        ms.append(Model("CodeLengths", "CodeLengths.cfg", over=big, workers=6 if thorough else 2, heap="8000m" if thorough else "3000m",
                        note="the in-place Huffman algorithm and the length limiting, on every sorted vector of frequencies within the bounds"))
        ms.append(Model("RunLengths", "RunLengths.cfg", over={"FULL": 12 if thorough else 10}, workers=6 if thorough else 2, heap="8000m" if thorough else "3000m",
                        note="run-length coding of every list of code lengths, with the constants scaled"))
        if prop == "C16":
            ms.append(Model("RunLengths", "RunLengthsReal.cfg", over={} if thorough else {"RUNS": 2}, workers=6 if thorough else 2, heap="12000m" if thorough else "3000m",
                            note="the same with the constants of RFC 1951 and runs of the lengths around them"))
            for b in ["tie", "ownchild", "toofew", "split", "direction"] if thorough else ["toofew"]:
                ms.append(Model("CodeLengths", "CodeLengths.cfg", expect="is violated", over={"Bugs": '{"%s"}' % b}, note="planted in the model; has to be found"))
            for b in ["big", "mid", "lastzero", "skip"] if thorough else ["skip"]:
                ms.append(Model("RunLengths", "RunLengths.cfg", expect="is violated", over={"FULL": 11, "Bugs": '{"%s"}' % b}, note="planted in the model; has to be found"))
            ms.append(Model("CodeLengths", "CodeLengths.cfg", gen="codes", workers=2, over={"Record": "TRUE", "N": 5, "BRUTE": 0, "FMAX": 3, "SKEW": 10},
                            note="vectors, continued up to the limit of 15 and replayed on the code"))
            ms.append(Model("RunLengths", "RunLengthsReal.cfg", gen="runs", workers=2, over={"Record": "TRUE", "RUNS": 5, "COUNT": 1000 if thorough else 150}, args=["-seed", str(int(seed) * 10 + 3)],
                            note="lists of code lengths, realised by literal tables"))
    if prop in API:
        fm = {"C02": '{"zlib"}', "C03": '{"gzip"}'}.get(prop, '{"raw","zlib","gzip"}')
        # in the thorough tier deeper histories
        ms.append(Model("EncoderApi", "EncoderApi.cfg", workers=6 if thorough else 2, heap="8000m" if thorough else "3000m",
                        over={"CALLS": 6, "FAULTS": 3, "Fmts": fm} if thorough and prop in ("C07", "C09", "C11") else
                             {"CALLS": 6, "Fmts": fm} if thorough else {"Fmts": fm, "CALLS": 4},
                        note="every history of calls and sink answers within the bounds"))
        if thorough:
            ms.append(Model("EncoderApi", "EncoderApi.cfg", workers=4, heap="6000m",
                            over={"LARGE": 3, "BLKV": 2, "INCAP": 3, "MAXU": 7, "MAXN": 4, "CALLS": 4, "Fmts": fm},
                            note="larger buffers: several units per block and per drain"))
        for b in API_BUGS[prop] if thorough else API_BUGS[prop][:1]:
            if b == "D3":
                ms.append(Model("EncoderApi", "EncoderApiLive.cfg", expect="Back to state", over={"Bugs": '{"D3"}'},
                                note="a sink that accepts nothing: endless loop, if Ok(0) is not taken as an error"))
            elif b == "pos":
                ms.append(Model("EncoderApi", "EncoderApi.cfg", expect="is violated", over={"Bugs": '{"pos"}', "LARGE": 3, "BLKV": 2, "INCAP": 3, "MAXU": 7, "MAXN": 4, "CALLS": 4},
                                note="planted in the model; has to be found"))
            else:
                ms.append(Model("EncoderApi", "EncoderApi.cfg", expect="ContractKept is violated", over={"Bugs": '{"%s"}' % b},
                                note="planted in the model; has to be found"))
        if prop == "C08":
            ms.append(Model("EncoderApi", "EncoderApiLive.cfg", over={} if not thorough else {"CALLS": 4, "MAXU": 4},
                            note="every call returns, also if the sink accepts nothing any more"))
        for k, big in enumerate(("LARGE", "small")):
            ms.append(Model("EncoderApi", "EncoderApiGen.cfg", gen="api", workers=2, over=dict({"Fmts": fm}, **({} if big == "LARGE" else {"CALLS": 9, "FAULTS": 6, "MAXN": 1})),
                            args=["-simulate", "num=%d" % (1500 if thorough else 200), "-depth", "300", "-seed", str(int(seed) * 10 + k)],
                            note="random histories of the model, replayed on the code"))
    return ms


NOTES = {
    "C01": "decoding to the input exactly, nothing after the last block, no panic",
}


def clause_note(prop):
    return NOTES.get(prop, "see spec/Props.tla, Clauses_(\"%s\")" % prop)


def assumptions(prop):
    return []
