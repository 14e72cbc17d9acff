"""Inputs and histories, as scenario lines for the harness (harness/src/run.rs, pool.rs)."""
import random

W = 32768            # window
BLOCK = 31744        # values per block
BUF = 2 * W + 258    # input buffer
PRESETS = ["default", "fast", "high", "huff", "rle"]
CUSTOM = ["1,0,L", "4,258,G", "128,0,L", "2,3,L", "16,258,L", "64,40000,L", "1,65535,G", "300,5,L"]
DEEP = ["32768,258,L", "65535,65535,L", "32768,0,G", "5000,200,L"]
ALLOPTS = PRESETS + CUSTOM
FMTS = ["raw", "zlib", "gzip"]


def hx(b):
    return bytes(b).hex()


class Scenarios:
    def __init__(self, prop, tier, seed):
        self.rnd = random.Random("%s/%s" % (prop, seed))
        self.groups, self.n = [], 0
        self.quick = tier != "thorough"
        self.tier = tier

    def pick(self, l):
        return self.rnd.choice(l)

    def seed(self):
        return self.rnd.randrange(1, 1 << 30)

    def n_of(self, quick, thorough):
        return quick if self.quick else thorough

    def group(self, fam, *scs):
        lines = []
        for s in scs:
            self.n += 1
            lines.append("id=%s-%d %s" % (fam, self.n, s))
        self.groups.append(lines)

    def sample(self, l, n):
        l = list(l)
        if len(l) <= n:
            return l
        return self.rnd.sample(l, n)


def sc(pool, ops, fmt="raw", opts="default", sink="all", gz="-", ref=None, cov=None, flags=0, tags=""):
    s = "fmt=%s opts=%s" % (fmt, opts)
    if fmt == "gzip" and gz != "-":
        s += " gz=" + gz
    if pool:
        s += " pool=" + (pool if isinstance(pool, str) else ";".join(pool))
    if sink != "all":
        s += " sink=" + sink
    s += " ops=" + (ops if isinstance(ops, str) else ";".join(ops))
    if ref:
        s += " ref=" + ref
    if cov:
        s += " cov=" + cov
    if flags:
        s += " flags=%d" % flags
    if tags:
        s += " tags=" + tags
    return s


def seglen(seg):
    """Length of a segment list (only those with a known length)."""
    n = 0
    for s in (seg if isinstance(seg, str) else ";".join(seg)).split(";"):
        p = s.split(":")
        if not s:
            continue
        if p[0] in "zragtcw" and p[0] != "":
            n += int(p[2])
        elif p[0] == "p":
            n += int(p[2])
        elif p[0] == "q":
            n += int(p[1])
        elif p[0] == "x":
            n += len(p[1]) // 2
        elif p[0] == "n":
            n += sum(int(e.split(".")[1]) for e in p[2].split(","))
        elif p[0] == "f":
            a, b, t = 1, 1, 0
            for _ in range(int(p[1])):
                t += a
                a, b = b, a + b
            n += t
        else:
            raise ValueError(s)
    return n


def kinds(S, n):
    """Pools of about n bytes of every kind."""
    r = S.rnd
    k = r.randrange(2, 40)
    return [
        "z:%d:%d" % (r.randrange(256), n),
        "r:%d:%d" % (S.seed(), n),
        "a:%d:%d:2" % (S.seed(), n),
        "a:%d:%d:%d" % (S.seed(), n, k),
        "g:%d:%d:%d" % (S.seed(), n, r.randrange(2, 30)),
        "w:%d:%d:%d" % (S.seed(), n, r.randrange(2, 60)),
        "p:%d:%d:%d" % (S.seed(), n, r.choice([1, 2, 3, 4, 5, 7, 100, 257, 258, 259, 300])),
        "q:%d" % n,
        "t:%d:%d;c:%d:%d;t:%d:%d" % (S.seed(), max(1, n // 3), max(1, n // 3 - r.randrange(max(1, n // 6))), n // 3, S.seed(), max(1, n // 3)),
        "r:%d:%d;z:%d:%d;w:%d:%d:9" % (S.seed(), n // 3 + 1, r.randrange(256), n // 3, S.seed(), n // 3),
    ]


def mixed(S, n):
    """About n bytes in several pieces of different kinds; cheap to decode (long matches, or stored)."""
    out, have = [], 0
    while have < n:
        m = S.pick([1, 2, 3, 100, 258, 1000, 4000, 20000, 33000])
        m = min(m, n - have)
        t = S.rnd.randrange(8)
        if t < 3:
            out.append("r:%d:%d" % (S.seed(), m))
        elif t < 4:
            out.append("z:%d:%d" % (S.rnd.randrange(256), m))
        elif t < 5:
            out.append("w:%d:%d:%d" % (S.seed(), min(m, 2000), S.rnd.randrange(2, 30)))
            m = min(m, 2000)
        elif t < 7 and have > 3:
            out.append("c:%d:%d" % (S.rnd.randrange(1, min(have, 33000) + 1), m))
        else:
            out.append("p:%d:%d:%d" % (S.seed(), m, S.pick([1, 2, 3, 300])))
        have += m
    return ";".join(out)


def fill(S, values, nbytes, have, K=256, rle=False, short=False):
    """Segments for which the matcher outputs `values` values over `nbytes` bytes; `have` bytes exist."""
    ex = nbytes - values
    assert ex >= 0 and ex != 1, (values, nbytes)
    lens = []
    if short:                       # matches of 3 bytes: hardly any gain, so the block is stored
        if ex % 2:
            lens.append(4)
            ex -= 3
        lens += [3] * (ex // 2)
    else:
        lens = [258] * (ex // 257)
        q = ex % 257
        if q >= 2:
            lens.append(q + 1)
        elif q == 1:
            lens.pop()
            lens += [257, 3]
    lits = values - len(lens)
    assert lits > 300 + 2 * len(lens), (values, nbytes)
    segs = []
    S.rnd.shuffle(lens)
    per = (lits - 300) // (len(lens) + 1)
    at = have
    first = 300 + per
    segs.append("t:%d:%d:%d" % (S.seed(), first, K))
    at += first
    left = lits - first
    for i, l in enumerate(lens):
        d = 1 if rle else (S.rnd.randrange(300, min(at, 6000)) if l <= 4 else S.rnd.randrange(270, min(at, 32000)))
        segs.append("c:%d:%d" % (d, l))
        at += l
        m = left if i == len(lens) - 1 else min(left, per)
        if m:
            segs.append("t:%d:%d:%d" % (S.seed(), m, K))
            at += m
            left -= m
    if left:
        segs.append("t:%d:%d:%d" % (S.seed(), left, K))
        at += left
    assert at - have == nbytes
    return segs


# bytes of which a chain of ever longer matches is found at consecutive positions
LAZY_SRC = "x:f1a1a2e0a1a2a3a4e1a2a3a4a5a6a7e2a3a4a5a6a7a8a9aae3"
LAZY_USE = {2: "x:f1a1a2a3a4", 3: "x:f1a1a2a3a4a5a6a7", 4: "x:f1a1a2a3a4a5a6a7a8a9aa"}


def token(S, tok, have, rle=False):
    """(segments, bytes) of the value that ends the block."""
    if tok[0] == "l":
        return ["t:%d:1" % S.seed()], 1
    d = 1 if rle else (S.rnd.randrange(300, 6000) if tok[1] <= 4 else S.rnd.randrange(300, 30000))
    return ["c:%d:%d" % (d, tok[1])], tok[1]


TOKENS = [("l",), ("m", 3), ("m", 4), ("m", 5), ("m", 20), ("m", 257), ("m", 258)]


def edge(S, k, d, e, tok, opts, style):
    """A block of which value 31744 + e ends d bytes after the end of the k-th window.

    style "dyn": the block holding the edge has the long matches; "sto": the block before it has
    them, so that the block at the edge is stored; "short": many matches of 3 bytes."""
    rle = opts == "rle" or opts.startswith("0,")
    t = 1 if tok[0] == "l" else tok[1]
    end = k * W + d
    K = 256 if style != "dyn" else S.pick([256, 100])
    segs, have = [], 0
    if opts == "huff":
        segs = ["t:%d:%d:%d" % (S.seed(), end, K)]
    else:
        nlast = BLOCK - 1 + e
        blocks = k
        start = 0
        if style == "sto" and blocks >= 2:
            first = end - t - nlast - BLOCK * (blocks - 2)
            if first - BLOCK == 1:
                first += 1
            segs += fill(S, BLOCK, first, 0, K, rle)
            have = first
            for _ in range(blocks - 2):
                segs.append("t:%d:%d:%d" % (S.seed(), BLOCK, K))
                have += BLOCK
            segs.append("t:%d:%d:%d" % (S.seed(), end - t - have, K))
            have = end - t
        else:
            for _ in range(blocks - 1):
                segs.append("t:%d:%d:%d" % (S.seed(), BLOCK, K))
                have += BLOCK
            n = end - t - have
            if n - nlast == 1:
                n += 1
            segs += fill(S, nlast, n, have, K, rle, style == "short")
            have += n
        x, m = token(S, tok, have, rle)
        segs += x
    return segs


def tail(S, n=None):
    n = n if n is not None else S.pick([0, 1, 2, 3, 4, 200, 700])
    r = []
    if n > 3:
        r = ["t:%d:%d" % (S.seed(), n // 2), "c:%d:%d" % (S.rnd.randrange(1, 30000), n - n // 2)]
    elif n:
        r = ["t:%d:%d" % (S.seed(), n)]
    return r


def splits(S, total, flush=0.0, small=True):
    """ops writing `total` bytes in pieces around the interesting sizes."""
    ops, at = [], 0
    marks = [31744, W - 258, W - 3, W - 1, W, W + 1, W + 2, W + 3, W + 258, 2 * W - 1, 2 * W, 2 * W + 2, BUF - 2, BUF - 1, BUF, BUF + 1,
             BUF + W - 1, BUF + W, BUF + W + 1, 3 * W, 3 * W + 1]
    while at < total:
        c = S.rnd.random()
        if c < 0.35:
            later = [m for m in marks if at < m < total]
            n = (S.pick(later[:6]) - at) if later else total - at
        elif c < 0.5 and small:
            n = S.pick([1, 2, 3, 4, 5, 258])
        elif c < 0.6:
            ops.append("w0")
            continue
        elif c < 0.75:
            n = total - at
        else:
            n = S.rnd.randrange(1, total - at + 1)
        n = min(n, total - at)
        ch = S.pick(["", "", "/%d" % S.pick([1000, 4096, 32768, 65794, 70000])])
        ops.append("W%d%s" % (n, ch))
        at += n
        while S.rnd.random() < flush:
            ops.append("F")
    return ops


GZ = ["-", "m:4294967295", "o:3,x:2", "n:" + hx(b"name.txt"), "c:" + hx(b"a comment"), "e:00ff41",
      "e:" + hx(range(256)), "e:", "n:" + hx(b"n") + ",c:" + hx(b"c") + ",e:0001,m:1,o:255,x:4", "n:e9,c:0a", "m:65536,o:0"]


def small_pool(S):
    n = S.pick([0, 1, 2, 3, 4, 5, 7, 17, 100, 300, 700, 1500])
    return S.pick(kinds(S, n)) if n >= 6 else ("r:%d:%d" % (S.seed(), n) if n else "")


# --------------------------------------------------------------------------- frequencies and code lengths
def counts_pool(S, freqs, values=None):
    """Shuffled bytes of which the i-th value occurs freqs[i] times."""
    if values is None:
        values = S.rnd.sample(range(256), len(freqs))
    return "n:%d:%s" % (S.seed(), ",".join("%d.%d" % (v, c) for v, c in zip(values, freqs) if c))


def deepen(S, base, total):
    """A sorted vector of frequencies continued so that every further symbol makes the code one bit
    longer (more than the sum of all but the last), up to about `total`. One of the ones is the end-of-block code."""
    f = sorted(base)
    while True:
        v = max(f[-1], sum(f[:-1]) + S.pick([1, 1, 1, 1, 1, 1, 1, 0, 2]))
        if sum(f) + v > total:
            break
        f.append(v)
    if 1 in f:
        f.remove(1)
    return f


def huffman_depth(f):
    """Depth of the flattest Huffman tree."""
    import heapq
    h = [(x, 0) for x in f]
    heapq.heapify(h)
    while len(h) > 1:
        a, b = heapq.heappop(h), heapq.heappop(h)
        heapq.heappush(h, (a[0] + b[0], max(a[1], b[1]) + 1))
    return h[0][1]


def lengths_pool(S, lens, limit=13):
    """Bytes whose optimal literal code has exactly the lengths {value: length}; further values take
    what code space remains. None if there is no room. The end-of-block code occurs once."""
    if not lens:
        return None
    top = max(lens.values())
    if sum(1 << (top - l) for l in lens.values()) >= 1 << top:
        return None
    while sum(1 << (top - l) for l in lens.values()) + 1 > 1 << top:
        top += 1
    if top > limit:
        return None
    rest = (1 << top) - 1 - sum(1 << (top - l) for l in lens.values())
    f = {v: 1 << (top - l) for v, l in lens.items()}
    parts = [1 << b for b in range(top) if rest >> b & 1]
    free = [v for v in range(256) if v not in lens]
    if len(parts) > len(free):
        return None
    # what fills up goes to one end, away from the pattern, or anywhere
    at = S.pick(["low", "high", "any"])
    free = sorted(free, reverse=at == "high") if at != "any" else S.rnd.sample(free, len(free))
    for x, v in zip(parts, free):
        f[v] = x
    return counts_pool(S, [f[v] for v in sorted(f)], sorted(f))


def runs_pool(S, l):
    """A list of code lengths (0 and others) from spec/RunLengths.tla, realised by a literal table."""
    m = sorted({v for v in l if v})
    a = S.pick([2, 3, 4, 5, 6, 7])
    to = {0: 0}
    for j, v in enumerate(m):
        to[v] = a + j if S.rnd.random() < .7 else a + S.rnd.randrange(0, 7)
    l = [to[v] for v in l]
    if len(l) > 256:
        l = l[:256]
    at = S.pick([0, 256 - len(l), S.rnd.randrange(0, 257 - len(l))])
    for up in range(8):
        x = {at + i: v + up for i, v in enumerate(l) if v}
        p = lengths_pool(S, x) if x else None
        if p:
            return p
    return None


def header_depth(lens):
    """Depth of a Huffman code for the code lengths of a header, run-length coded."""
    f, i = {}, 0
    while i < len(lens):
        v, j = lens[i], i
        while j < len(lens) and lens[j] == v:
            j += 1
        n = j - i
        i = j
        if v:
            f[v] = f.get(v, 0) + 1
            n -= 1
        while n:
            if v == 0 and n >= 11:
                f[18] = f.get(18, 0) + 1
                n -= min(n, 138)
            elif v == 0 and n >= 3:
                f[17] = f.get(17, 0) + 1
                n -= min(n, 10)
            elif v and n >= 3:
                f[16] = f.get(16, 0) + 1
                n -= min(n, 6)
            else:
                f[v] = f.get(v, 0) + 1
                n -= 1
    return huffman_depth(list(f.values())) if len(f) > 1 else 1


def skewed_lengths(S, top=13):
    """Bytes whose code lengths themselves occur with Fibonacci-like frequencies, so that the code of the
    code lengths would be deeper than 7 bits."""
    for _ in range(300):
        c = {}
        f = [1]
        while len(f) < 9:
            f.append(max(f[-1], sum(f[:-1]) + 1))
        f = [x + S.pick([0, 0, 0, 1]) if x > 3 else x for x in f]
        # the most frequent one is somewhere near 7 or 8 bits
        ls = S.rnd.sample(range(3, top + 1), min(len(f), top - 2))
        # most frequent, least code space
        order = sorted(ls, key=lambda l: abs(l - 7.7) + S.rnd.random() * 2)
        for l, k in zip(order, sorted(f, reverse=True)):
            c[l] = k
        # the end of block, an entry of the longest length, comes last
        c[top] = max(0, c.get(top, 0) - 1)
        space = lambda: (1 << top) - 1 - sum(k << (top - l) for l, k in c.items())
        # repair the code space with few changes: the frequent lengths take what is left
        for _ in range(400):
            s = space()
            if s == 0:
                break
            l = S.pick(order[:5])
            if s < 0 and c[l] > 1:
                c[l] -= 1
            elif s > 0 and (1 << (top - l)) <= s:
                c[l] += 1
            elif s > 0:
                l = S.pick([x for x in c if (1 << (top - x)) <= s] or [top])
                c[l] = c.get(l, 0) + 1
        if space() != 0 or not 2 <= sum(c.values()) <= 256:
            continue
        lens = [l for l, k in c.items() for _ in range(k)]
        n = len(lens)
        for _ in range(20):
            S.rnd.shuffle(lens)
            gap = S.pick([0, 256 - n, S.rnd.randrange(0, 257 - n)])
            full = [0] * gap + lens + [0] * (256 - n - gap) + [top, 0]
            if header_depth(full) > 7:
                return counts_pool(S, [1 << (top - l) for l in lens], range(gap, gap + n))
    return None
