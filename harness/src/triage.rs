//! Ranks executions: which of many recorded ones look as if the specification would object?
//!
//! The specification (spec/ApiTrace.tla) decides every execution that TLC is given, bit by bit, at
//! some thousand symbols per second.  Far more executions can be recorded than that.  This module
//! follows the same clauses in native code, over all of them, only to choose which ones TLC gets to
//! see in addition to the fixed sample: what it says is never a verdict.  check.py compares it with
//! TLC's verdict on every execution that both have seen (`triage` in the evidence).
use crate::run::{Ev, Gz, Rec, Scenario};
use std::collections::BTreeSet;

pub type Clauses = BTreeSet<&'static str>;

const LBASE: [usize; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
const LEXTRA: [usize; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
const DBASE: [usize; 30] = [
    1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577,
];
const DEXTRA: [usize; 30] = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];
const CLORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];

fn peek(b: &[u8], p: usize) -> u32 {
    let i = p / 8;
    let g = |j: usize| b.get(i + j).copied().unwrap_or(0) as u32;
    (g(0) | g(1) << 8 | g(2) << 16) >> (p % 8)
}
fn bits(b: &[u8], p: usize, n: usize) -> usize {
    (peek(b, p) & ((1u32 << n) - 1)) as usize
}

#[derive(Clone, Default)]
struct Code {
    count: [u16; 16],
    syms: Vec<u16>,
    fast: Vec<(u16, u8)>,
}
impl Code {
    fn slow(l: &[u8]) -> Code {
        let mut c = Code::default();
        for &x in l {
            c.count[x as usize] += 1;
        }
        c.count[0] = 0;
        for len in 1..16 {
            for (i, &x) in l.iter().enumerate() {
                if x == len {
                    c.syms.push(i as u16);
                }
            }
        }
        c
    }
    fn new(l: &[u8]) -> Code {
        let mut c = Code::slow(l);
        c.fast = (0..512u32)
            .map(|w| match c.walk(w) {
                Some((s, n)) if n <= 9 => (s as u16, n as u8),
                _ => (0, 0),
            })
            .collect();
        c
    }
    fn walk(&self, mut w: u32) -> Option<(usize, usize)> {
        let (mut code, mut first, mut index) = (0i64, 0i64, 0i64);
        for len in 1..16 {
            let c2 = code + (w & 1) as i64;
            let cnt = self.count[len] as i64;
            if c2 - cnt < first {
                return Some((self.syms[(index + c2 - first) as usize] as usize, len));
            }
            w >>= 1;
            code = 2 * c2;
            first = 2 * (first + cnt);
            index += cnt;
        }
        None
    }
    fn decode(&self, w: u32) -> Option<(usize, usize)> {
        if !self.fast.is_empty() {
            let (s, n) = self.fast[(w & 511) as usize];
            if n > 0 {
                return Some((s as usize, n as usize));
            }
        }
        self.walk(w)
    }
    fn error(&self, single: bool, empty: bool) -> u8 {
        let n: u16 = self.count[1..].iter().sum();
        let left = 32768 - (1..16).map(|i| (self.count[i] as i64) << (15 - i)).sum::<i64>();
        if left < 0 {
            1
        } else if left == 0 || n == 0 && empty || n == 1 && single && self.count[1] == 1 {
            0
        } else {
            2
        }
    }
}

fn fixed_bits(s: usize) -> u64 {
    match s {
        0..=143 => 8,
        144..=255 => 9,
        256..=279 => 7,
        _ => 8,
    }
}

/// Total bits and depth of an optimal prefix code.
fn huffman(f: &[u64]) -> (u64, u32) {
    let mut w: Vec<u64> = f.iter().copied().filter(|&x| x > 0).collect();
    w.sort();
    let n = w.len();
    if n == 0 {
        return (0, 0);
    }
    if n == 1 {
        return (w[0], 1);
    }
    let mut q: Vec<(u64, u32)> = vec![];
    let (mut l, mut i, mut t) = (0, 0, 0);
    for _ in 0..n - 1 {
        let mut pick = || {
            if l < n && (i >= q.len() || w[l] <= q[i].0) {
                l += 1;
                (w[l - 1], 0)
            } else {
                i += 1;
                q[i - 1]
            }
        };
        let a = pick();
        let b = pick();
        q.push((a.0 + b.0, 1 + a.1.max(b.1)));
        t += a.0 + b.0;
    }
    (t, q[n - 2].1)
}
fn code_bits(f: &[u64], l: &[u8]) -> u64 {
    f.iter().zip(l).map(|(&a, &b)| a * b as u64).sum()
}
fn stored_too_big(b: &[u8]) -> bool {
    if b.len() < 2000 {
        return false;
    }
    let mut f = [0u64; 257];
    f[256] = 1;
    for &x in b {
        f[x as usize] += 1;
    }
    10 * (huffman(&f).0 + 2300) < 7 * 8 * b.len() as u64
}

struct Header {
    p: usize,
    err: &'static str,
    ll: Vec<u8>,
    dl: Vec<u8>,
    cl: Vec<u8>,
    cf: Vec<u64>,
}
fn dyn_header(b: &[u8], p: usize) -> Header {
    let nl = bits(b, p + 3, 5) + 257;
    let nd = bits(b, p + 8, 5) + 1;
    let nc = bits(b, p + 13, 4) + 4;
    let mut h = Header { p, err: "", ll: vec![], dl: vec![], cl: vec![0; 19], cf: vec![0; 19] };
    macro_rules! bad {
        ($e:expr) => {{
            h.err = $e;
            return h;
        }};
    }
    for i in 0..nc {
        h.cl[CLORDER[i]] = bits(b, p + 17 + 3 * i, 3) as u8;
    }
    let mut q = p + 17 + 3 * nc;
    if q > 8 * b.len() {
        bad!("overrun");
    }
    if nl > 286 {
        bad!("hlit");
    }
    if nd > 30 {
        bad!("hdist");
    }
    let c = Code::slow(&h.cl);
    match c.error(false, false) {
        1 => bad!("clcode-oversubscribed"),
        2 => bad!("clcode-incomplete"),
        _ => (),
    }
    let need = nl + nd;
    let mut acc: Vec<u8> = vec![];
    while acc.len() < need {
        if q > 8 * b.len() {
            bad!("overrun");
        }
        let (s, n) = match c.walk(peek(b, q)) {
            Some(x) => x,
            None => bad!(if q + 15 > 8 * b.len() { "overrun" } else { "bad-clcode" }),
        };
        if s == 16 && acc.is_empty() {
            bad!("repeat-first");
        }
        q += n;
        h.cf[s] += 1;
        let (v, r, x) = match s {
            16 => (*acc.last().unwrap(), 3 + bits(b, q, 2), 2),
            17 => (0, 3 + bits(b, q, 3), 3),
            18 => (0, 11 + bits(b, q, 7), 7),
            _ => (s as u8, 1, 0),
        };
        acc.extend(std::iter::repeat(v).take(r));
        q += x;
    }
    if acc.len() > need {
        bad!("len-overrun");
    }
    if q > 8 * b.len() {
        bad!("overrun");
    }
    h.dl = acc.split_off(nl);
    h.ll = acc;
    if h.ll[256] == 0 {
        bad!("no-eob");
    }
    match Code::slow(&h.ll).error(false, false) {
        1 => bad!("litcode-oversubscribed"),
        2 => bad!("litcode-incomplete"),
        _ => (),
    }
    match Code::slow(&h.dl).error(true, true) {
        1 => bad!("distcode-oversubscribed"),
        2 => bad!("distcode-incomplete"),
        _ => (),
    }
    h.p = q;
    h
}

fn zlib_header(b: &[u8]) -> Result<usize, &'static str> {
    if b.len() < 2 {
        Ok(0)
    } else if b[0] & 15 != 8 {
        Err("zlib-method")
    } else if b[0] >> 4 > 7 {
        Err("zlib-window")
    } else if b[1] & 32 != 0 {
        Err("zlib-dictionary")
    } else if (b[0] as u32 * 256 + b[1] as u32) % 31 != 0 {
        Err("zlib-check")
    } else {
        Ok(2)
    }
}
fn gzip_header(b: &[u8], h: &Gz) -> Result<usize, &'static str> {
    let n = b.len();
    if n < 10 {
        return Ok(0);
    }
    if b[0] != 31 || b[1] != 139 {
        return Err("gzip-magic");
    }
    if b[2] != 8 {
        return Err("gzip-method");
    }
    if b[3] >> 5 != 0 {
        return Err("gzip-reserved-flags");
    }
    if b[3] & 3 != 0 {
        return Err("gzip-flags");
    }
    if b[4..8] != h.mtime.to_le_bytes() {
        return Err("gzip-mtime");
    }
    if b[8] != h.xfl {
        return Err("gzip-xfl");
    }
    if h.os.map_or(false, |o| b[9] != o) {
        return Err("gzip-os");
    }
    if (b[3] & 4 != 0) != h.extra.is_some() {
        return Err("gzip-extra");
    }
    if (b[3] & 8 != 0) != h.name.is_some() {
        return Err("gzip-name");
    }
    if (b[3] & 16 != 0) != h.comment.is_some() {
        return Err("gzip-comment");
    }
    let mut at = 10;
    if let Some(e) = &h.extra {
        if n < 12 {
            return Ok(0);
        }
        at = 12 + b[10] as usize + 256 * b[11] as usize;
        if n < at {
            return Ok(0);
        }
        if b[12..at] != e[..] {
            return Err("gzip-extra");
        }
    }
    for (f, e) in [(&h.name, "gzip-name"), (&h.comment, "gzip-comment")] {
        if let Some(s) = f {
            match b[at..].iter().position(|&x| x == 0) {
                None => return Ok(0),
                Some(z) => {
                    if b[at..at + z] != s[..] {
                        return Err(e);
                    }
                    at += z + 1;
                }
            }
        }
    }
    Ok(at)
}

fn crc_table() -> [u32; 256] {
    let mut t = [0; 256];
    for i in 0..256u32 {
        let mut c = i;
        for _ in 0..8 {
            c = if c & 1 == 1 { 0xEDB8_8320 ^ c >> 1 } else { c >> 1 };
        }
        t[i as usize] = c;
    }
    t
}
struct Sum {
    zlib: bool,
    a: u32,
    b: u32,
    t: [u32; 256],
}
impl Sum {
    fn new(fmt: &str) -> Sum {
        let zlib = fmt == "zlib";
        Sum { zlib, a: if zlib { 1 } else { !0 }, b: 0, t: crc_table() }
    }
    fn add(&mut self, d: &[u8]) {
        for &x in d {
            if self.zlib {
                self.a = (self.a + x as u32) % 65521;
                self.b = (self.b + self.a) % 65521;
            } else {
                self.a = self.t[((self.a ^ x as u32) & 255) as usize] ^ self.a >> 8;
            }
        }
    }
    fn get(&self) -> u32 {
        if self.zlib {
            self.b << 16 | self.a
        } else {
            !self.a
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum M {
    Start,
    Hdr,
    Sym,
    Trailer,
    Done,
    Bad,
}

struct Dec {
    m: M,
    p: usize,
    o: usize,
    fin: bool,
    dynamic: bool,
    lt: Code,
    dt: Code,
    hs: usize,
    bo: usize,
    sb: u64,
    xb: u64,
    last: &'static str,
    why: &'static str,
    wait: bool,
    mats: u64,
    maxd: usize,
    cl: i64,
    f: Vec<u64>,
    head: Option<Header>,
    cost: Clauses,
    /// (position, length, distance), 1 and 0 for a literal, since the last goal
    tokens: Option<Vec<(usize, usize, usize)>>,
}

/// Everything the decoder needs to know about where it is.
struct Ctx<'a> {
    s: &'a Scenario,
    gz: &'a Gz,
    out: &'a [u8],
    inp: &'a [u8],
    del: usize,
    acc: usize,
    over: bool,
    sum: u32,
    cov: (usize, usize),
}

fn align(p: usize) -> usize {
    (p + 7) / 8 * 8
}

impl Dec {
    fn new() -> Dec {
        Dec {
            m: M::Start,
            p: 0,
            o: 0,
            fin: false,
            dynamic: false,
            lt: Code::default(),
            dt: Code::default(),
            hs: 0,
            bo: 0,
            sb: 0,
            xb: 0,
            last: "",
            why: "",
            wait: false,
            mats: 0,
            maxd: 0,
            cl: 0,
            f: vec![0; 316],
            head: None,
            cost: Clauses::new(),
            tokens: None,
        }
    }
    fn bad(&mut self, why: &'static str) {
        self.m = M::Bad;
        self.why = why;
    }
    fn advance(&mut self, x: &Ctx) {
        self.wait = false;
        while !self.wait && self.m != M::Done && self.m != M::Bad {
            match self.m {
                M::Start => self.start(x),
                M::Hdr => self.header(x),
                M::Sym => self.symbols(x),
                _ => self.trailer(x),
            }
        }
    }
    fn start(&mut self, x: &Ctx) {
        let b = &x.out[..x.del];
        let h = match x.s.fmt.as_str() {
            "raw" => {
                self.m = M::Hdr;
                return;
            }
            "zlib" => zlib_header(b),
            _ => gzip_header(b, x.gz),
        };
        match h {
            Err(e) => self.bad(e),
            Ok(0) => self.wait = true,
            Ok(n) => {
                self.m = M::Hdr;
                self.p = 8 * n;
            }
        }
    }
    fn header(&mut self, x: &Ctx) {
        let (p, lim) = (self.p, 8 * x.del);
        if p + 3 > lim {
            self.wait = true;
            return;
        }
        let fin = bits(x.out, p, 1) == 1;
        let begin = |d: &mut Dec| {
            d.fin = fin;
            d.hs = p;
            d.bo = d.o;
            d.sb = 0;
            d.xb = 0;
            d.f.iter_mut().for_each(|x| *x = 0);
            d.f[256] = 1;
        };
        match bits(x.out, p + 1, 2) {
            3 => self.bad("block-type"),
            1 => {
                begin(self);
                self.m = M::Sym;
                self.dynamic = false;
                self.p = p + 3;
                let l: Vec<u8> = (0..288).map(|i| if i < 144 { 8 } else if i < 256 { 9 } else if i < 280 { 7 } else { 8 }).collect();
                self.lt = Code::new(&l);
                self.dt = Code::slow(&[5; 30]);
            }
            2 => {
                let h = dyn_header(x.out, p);
                if h.p > lim || h.err == "overrun" || h.err != "" && p + 2400 > lim && !x.over {
                    self.wait = true;
                } else if h.err != "" {
                    self.bad(h.err);
                } else {
                    begin(self);
                    self.m = M::Sym;
                    self.dynamic = true;
                    self.p = h.p;
                    self.lt = Code::new(&h.ll);
                    self.dt = Code::new(&h.dl);
                    self.head = Some(h);
                }
            }
            _ => {
                let q = align(p + 3);
                if q + 32 > lim {
                    self.wait = true;
                    return;
                }
                let n = bits(x.out, q, 16);
                let c = bits(x.out, q + 16, 16);
                let at = q / 8 + 4;
                if n + c != 65535 {
                    self.bad("stored-length");
                } else if at + n > x.del {
                    self.wait = true;
                } else if self.o + n > x.acc || x.out[at..at + n] != x.inp[self.o..self.o + n] {
                    self.bad("content");
                } else {
                    begin(self);
                    if stored_too_big(&x.inp[self.o..self.o + n]) {
                        self.cost.insert("not-cheapest-stored");
                    }
                    let (a, b) = (self.o.max(x.cov.0), (self.o + n).min(x.cov.1));
                    self.cl += (b as i64 - a as i64).max(0);
                    self.m = if fin { M::Trailer } else { M::Hdr };
                    self.p = 8 * (at + n);
                    self.o += n;
                    self.last = if n == 0 { "S0" } else { "S" };
                }
            }
        }
    }
    fn symbols(&mut self, x: &Ctx) {
        let (b, lim) = (x.out, 8 * x.del);
        loop {
            let (s, n) = match self.lt.decode(peek(b, self.p)) {
                Some(r) => r,
                None => {
                    if self.p + 15 > lim {
                        self.wait = true;
                    } else {
                        self.bad("bad-code");
                    }
                    return;
                }
            };
            let p = self.p + n;
            if p > lim {
                self.wait = true;
                return;
            }
            let covered = self.o >= x.cov.0 && self.o < x.cov.1;
            if s < 256 {
                if self.o >= x.acc || x.inp[self.o] as usize != s {
                    return self.bad("content");
                }
                self.p = p;
                if let Some(t) = &mut self.tokens {
                    t.push((self.o, 1, 0));
                }
                self.o += 1;
                self.sb += fixed_bits(s);
                self.f[s] += 1;
                self.cl += covered as i64;
            } else if s == 256 {
                self.p = p;
                self.sb += 7;
                self.m = if self.fin { M::Trailer } else { M::Hdr };
                self.last = if self.dynamic { "D" } else { "F" };
                self.block_clauses();
                self.head = None;
                return;
            } else if s > 285 {
                return self.bad("bad-length");
            } else {
                let li = s - 257;
                let len = LBASE[li] + bits(b, p, LEXTRA[li]);
                let p2 = p + LEXTRA[li];
                let (di, n) = match self.dt.decode(peek(b, p2)) {
                    Some(r) => r,
                    None => {
                        if p2 + 15 > lim {
                            self.wait = true;
                        } else {
                            self.bad("bad-code");
                        }
                        return;
                    }
                };
                let p3 = p2 + n;
                let dist = DBASE[di] + bits(b, p3, DEXTRA[di]);
                let p4 = p3 + DEXTRA[di];
                if p4 > lim {
                    self.wait = true;
                    return;
                }
                if dist > self.o {
                    return self.bad("distance");
                }
                let o = self.o;
                if o + len > x.acc || x.inp[o..o + len] != x.inp[o - dist..o - dist + len] {
                    return self.bad("content");
                }
                self.p = p4;
                if let Some(t) = &mut self.tokens {
                    t.push((o, len, dist));
                }
                self.o += len;
                self.mats += 1;
                self.maxd = self.maxd.max(dist);
                self.sb += fixed_bits(s) + (LEXTRA[li] + 5 + DEXTRA[di]) as u64;
                self.cl += covered as i64;
                self.f[s] += 1;
                self.f[286 + di] += 1;
                self.xb += (LEXTRA[li] + DEXTRA[di]) as u64;
            }
        }
    }
    fn block_clauses(&mut self) {
        let took = (self.p - self.hs) as u64;
        if took > 3 + self.sb {
            self.cost.insert("not-cheapest");
        }
        if self.o > self.bo {
            let n = self.o - self.bo;
            let chunks = ((n + 32766) / 32767).max(1);
            let st = align(self.hs + 3) - self.hs + 8 * n + 32 * chunks + 8 * (chunks - 1);
            if took > st as u64 {
                self.cost.insert("not-cheapest");
            }
        }
        let lit = huffman(&self.f[..286]);
        let dis = huffman(&self.f[286..]);
        match &self.head {
            None => {
                let nl = (257..286).filter(|&i| self.f[i] > 0).max().map_or(257, |i| i + 1);
                let nd = (286..316).filter(|&i| self.f[i] > 0).max().map_or(1, |i| i - 285);
                let plain = (3 + 14 + 57 + 7 * (nl + nd)) as u64;
                if lit.1 <= 15 && dis.1 <= 15 && took > plain + lit.0 + dis.0 + self.xb {
                    self.cost.insert("not-cheapest");
                }
            }
            Some(h) => {
                let oc = huffman(&h.cf);
                if lit.1 <= 15 && code_bits(&self.f[..h.ll.len()], &h.ll) > lit.0
                    || dis.1 <= 15 && code_bits(&self.f[286..286 + h.dl.len()], &h.dl) > dis.0
                    || oc.1 <= 7 && code_bits(&h.cf, &h.cl) > oc.0
                {
                    self.cost.insert("not-optimal");
                }
            }
        }
    }
    fn trailer(&mut self, x: &Ctx) {
        let q = align(self.p) / 8;
        let want: Vec<u8> = match x.s.fmt.as_str() {
            "raw" => {
                self.m = M::Done;
                self.p = 8 * q;
                return;
            }
            "zlib" => x.sum.to_be_bytes().to_vec(),
            _ => {
                let mut v = x.sum.to_le_bytes().to_vec();
                v.extend((x.acc as u32).to_le_bytes());
                v
            }
        };
        if self.o != x.acc {
            self.bad("content-short");
        } else if q + want.len() > x.del {
            self.wait = true;
        } else if x.out[q..q + want.len()] != want[..] {
            self.bad("trailer");
        } else {
            self.m = M::Done;
            self.p = 8 * (q + want.len());
        }
    }
}

/// spec/Matching.tla
struct Best {
    prev: Vec<u32>,
    work: usize,
}
impl Best {
    fn new(d: &[u8]) -> Best {
        let mut last = vec![u32::MAX; 1 << 15];
        let mut prev = vec![u32::MAX; d.len()];
        for (i, w) in d.windows(3).enumerate() {
            let h = ((w[0] as u32) << 16 | (w[1] as u32) << 8 | w[2] as u32).wrapping_mul(0x9E37_79B1) >> 17;
            prev[i] = last[h as usize];
            last[h as usize] = i as u32;
        }
        Best { prev, work: 0 }
    }
    /// The longest repetition that begins at p: (length, distance), the nearest of that length.
    fn at(&mut self, d: &[u8], p: usize, end: usize) -> (usize, usize) {
        let most = (end - p).min(258);
        let mut best = (0, 0);
        if most < 3 {
            return best;
        }
        let mut q = self.prev[p];
        while q != u32::MAX && p - q as usize <= 32768 {
            let q0 = q as usize;
            self.work += 1;
            if best.0 == 0 || d[p + best.0] == d[q0 + best.0] {
                let n = (0..most).take_while(|&i| d[p + i] == d[q0 + i]).count();
                self.work += n;
                if n > best.0 && n >= 3 {
                    best = (n, p - q0);
                    if n == most {
                        break;
                    }
                }
            }
            q = self.prev[q0];
        }
        best
    }

    /// TokenClauses
    fn token(&mut self, s: &Scenario, d: &[u8], (p, n, x): (usize, usize, usize), end: usize) -> Option<&'static str> {
        let checks = s.opts.max_hash_checks as usize;
        let is_lazy = s.opts.matching_type == deflate::MatchingType::Lazy;
        let earlier = p.min(32768);
        if checks == 0 {
            if !is_lazy {
                return None;
            }
            let r = if p == 0 { 0 } else { (0..(end - p).min(258)).take_while(|&i| d[p + i] == d[p - 1]).count() };
            return if x == 0 {
                (r >= 3).then(|| "missed-match")
            } else {
                (x == 1 && n < r).then(|| "shorter-match")
            };
        }
        if earlier > checks {
            return None;
        }
        let b = self.at(d, p, end);
        let wrong = if x > 0 {
            if n < b.0 {
                Some("shorter-match")
            } else if n == b.0 && x > b.1 {
                Some("farther-match")
            } else {
                None
            }
        } else {
            let useful = b.0 > 3 || b.0 == 3 && b.1 <= 8192;
            if useful && !(is_lazy && b.0 < (s.opts.lazy_if_less_than as usize).max(3) && p + 1 < end && self.at(d, p + 1, end).0 > b.0) {
                Some("missed-match")
            } else {
                None
            }
        };
        if wrong.is_some() && is_lazy && earlier > checks / 4 && p > 0 && self.at(d, p - 1, end).0 >= 32 {
            return None;
        }
        wrong
    }
}

/// spec/Contract.tla
#[derive(Default)]
struct C {
    st: usize,
    acc: Vec<usize>,
    del: Vec<usize>,
    errs: BTreeSet<char>,
    zeros: i64,
    closing: bool,
    deferred: bool,
    flushes: usize,
    over: bool,
}
impl C {
    fn faults(&self) -> bool {
        self.errs.iter().any(|&e| e != 'I')
    }
    fn explained(&self, e: char) -> bool {
        (e == 'B' || e == 'E') && self.errs.contains(&e) || e == 'Z' && self.errs.contains(&'0')
    }
    fn clauses(&self, e: &Ev, r: &mut Clauses) {
        let open = self.errs.contains(&'B') || self.errs.contains(&'E');
        if e.op == "k" {
            if e.st != self.st + 1 {
                r.insert("wrong-sink");
            }
            if self.over {
                r.insert("write-after-end");
            }
            if e.ret == -3 {
                r.insert("hang");
            }
            return;
        }
        if e.ret == -2 || e.op == "panic" {
            r.insert("panic");
            return;
        }
        if e.ret == -3 || e.op == "hang" {
            r.insert("hang");
            return;
        }
        match e.op {
            "w" => {
                if e.ret > e.n {
                    r.insert("over-accept");
                }
                if e.ret == 0 && e.n > 0 && !self.closing {
                    r.insert("zero-accept");
                }
                if e.ret == -1 && e.err != 'I' && !self.explained(e.err) {
                    r.insert("error-unexplained");
                }
                if e.ret >= 0 && self.deferred && self.faults() {
                    r.insert("error-hidden");
                }
            }
            "f" | "x" | "r" => {
                if e.ret == -1 && !self.explained(e.err) {
                    r.insert("error-unexplained");
                }
                if e.op == "r" && e.ret == 0 && e.n != self.st as i64 + 1 {
                    r.insert("wrong-sink");
                }
                if e.ret == 0 && open {
                    r.insert("error-hidden");
                }
            }
            "stuck" => {
                if 2 * self.zeros < e.n && !self.closing {
                    r.insert("stuck");
                }
            }
            "o" if e.ret < 0 => {
                r.insert("error-unexplained");
            }
            "m" => {
                if e.ret < 0 {
                    r.insert("error-unexplained");
                } else if e.n > 1024 {
                    r.insert("memory");
                }
            }
            _ => (),
        }
    }
    fn goal(&self, e: &Ev) -> &'static str {
        match e.op {
            "f" if e.ret == 0 => if self.closing { "drained" } else { "flush" },
            "x" | "r" if e.ret == 0 => "complete",
            "o" if e.ret >= 0 => "complete",
            "d" if e.ret == 0 && !self.faults() => "complete",
            "x" | "d" | "end" if e.ret >= -1 => "prefix",
            _ => "none",
        }
    }
    fn step(&mut self, e: &Ev) {
        let st = self.st;
        match e.op {
            "k" => {
                if e.ret > 0 {
                    self.del[st] += e.ret as usize;
                    self.zeros = 0;
                } else if e.n > 0 {
                    self.zeros += 1;
                }
                if e.ret < 0 {
                    self.errs.insert(e.err);
                } else if e.ret == 0 && e.n > 0 {
                    self.errs.insert('0');
                }
            }
            "w" => {
                if e.ret > 0 {
                    self.acc[st] += e.ret as usize;
                    self.zeros = 0;
                }
                self.deferred = e.ret >= 0 && self.faults();
                self.errs.clear();
            }
            "f" => {
                self.errs.clear();
                self.deferred = false;
                self.flushes += 1;
            }
            "r" => {
                self.errs.clear();
                self.deferred = false;
                self.closing = e.ret != 0;
                if e.ret == 0 {
                    self.st += 1;
                    self.acc.push(0);
                    self.del.push(0);
                    self.flushes = 0;
                }
            }
            "x" | "d" => {
                self.errs.clear();
                self.over = true;
            }
            "o" if e.ret >= 0 => {
                self.acc[st] = e.n as usize;
                self.del[st] = e.ret as usize;
                self.over = true;
            }
            _ => (),
        }
    }
}

fn overhead(fmt: &str, h: &Gz) -> usize {
    match fmt {
        "raw" => 0,
        "zlib" => 6,
        _ => 18 + h.extra.as_ref().map_or(0, |e| 2 + e.len()) + h.name.as_ref().map_or(0, |e| 1 + e.len()) + h.comment.as_ref().map_or(0, |e| 1 + e.len()),
    }
}

/// The clauses that seem to be broken in one execution, and per stream the positions of the tokens for which
/// TLC should see whether the best repetition was used: those that look wrong, and some others.
pub fn execution(s: &Scenario, r: &Rec) -> (Clauses, Vec<Vec<usize>>) {
    let mut bad = Clauses::new();
    let mut c = C { acc: vec![0], del: vec![0], ..C::default() };
    let mut d = Dec::new();
    let mut probes = vec![vec![]; r.ins.len()];
    let mut failed = false;
    let mut best: Option<Best> = None;
    let mut sum = Sum::new(&s.fmt);
    let rle = s.opts.max_hash_checks == 0 && s.opts.matching_type == deflate::MatchingType::Lazy;
    let huff = s.opts.max_hash_checks == 0 && !rle;
    for e in &r.events {
        c.clauses(e, &mut bad);
        if c.st >= r.outs.len() {
            break;
        }
        let goal = c.goal(e);
        let before = c.acc[c.st];
        let st = c.st;
        if e.op == "o" {
            c.step(e);
        }
        let took = if e.op == "w" && e.ret > 0 { (e.ret as usize).min(r.ins[st].len() - before) } else if e.op == "o" { c.acc[st] } else { 0 };
        if took > 0 {
            sum.add(&r.ins[st][before..before + took]);
        }
        if e.op == "r" && e.ret == 0 {
            let fresh = Sum::new(&s.fmt).get();
            if s.fmt != "raw" && (e.sum.0 << 16 | e.sum.1) != fresh {
                bad.insert("sum");
            }
        } else if s.fmt != "raw" && matches!(e.op, "n" | "w" | "f" | "r") && e.ret >= -1 && (e.sum.0 << 16 | e.sum.1) != sum.get() {
            bad.insert("sum");
        }
        if goal != "none" && c.del[st] <= r.outs[st].len() && c.acc[st] <= r.ins[st].len() {
            let cov = s.cov.iter().find(|v| v[0] == st as i64 + 1).map_or((0, 0, 0), |v| (v[1] as usize, v[2] as usize, v[3]));
            let x = Ctx {
                s,
                gz: &r.hdrs[st],
                out: &r.outs[st],
                inp: &r.ins[st],
                del: c.del[st],
                acc: c.acc[st],
                over: c.over,
                sum: sum.get(),
                cov: (cov.0, cov.1),
            };
            let searched = (goal == "flush" || goal == "complete") && !failed && !huff;
            d.tokens = if searched { Some(vec![]) } else { None };
            d.advance(&x);
            if searched && d.m != M::Bad {
                let mut tokens = d.tokens.take().unwrap();
                if !rle {
                    tokens.retain(|t| t.0.min(32768) <= s.opts.max_hash_checks as usize);
                }
                let b = best.get_or_insert_with(|| Best::new(x.inp));
                b.work = 0;
                // as much of them as can be afforded, spread over all
                let mut wrong = 0;
                let step = 1 + tokens.len() / 3000;
                'all: for first in 0..step {
                    for t in tokens.iter().skip(first).step_by(step) {
                        if let Some(w) = b.token(s, x.inp, *t, x.acc) {
                            if std::env::var_os("VHARNESS_DEBUG").is_some() {
                                eprintln!("{} {} {:?} of {} best {:?}", s.id, w, t, x.acc, b.at(x.inp, t.0, x.acc));
                            }
                            bad.insert(w);
                            if wrong < 8 {
                                probes[st].push(t.0);
                                wrong += 1;
                            }
                        }
                        if b.work > 3_000_000 {
                            break 'all;
                        }
                    }
                }
                let some = if x.acc <= 600 { tokens.len() } else { 12 };
                probes[st].extend(tokens.iter().step_by(1 + tokens.len() / some.max(1)).map(|t| t.0));
            }
            let lim = 8 * x.del;
            let isbad = d.m == M::Bad;
            if isbad {
                bad.insert(d.why);
            }
            bad.extend(d.cost.iter().copied());
            if rle && d.maxd > 1 {
                bad.insert("rle-distance");
            }
            if huff && d.mats > 0 {
                bad.insert("huffman-match");
            }
            if goal == "flush" && !isbad && !(d.m == M::Hdr && d.p == lim && d.o == x.acc && d.last == "S0") {
                bad.insert("flush-incomplete");
            }
            if goal == "drained" && !isbad && !(align(d.p) == lim && d.o == x.acc) {
                bad.insert("flush-incomplete");
            }
            if goal == "complete" {
                if d.m != M::Done && !isbad {
                    bad.insert("incomplete");
                }
                if d.m == M::Done && d.o != x.acc {
                    bad.insert("content-short");
                }
                if d.m == M::Done && d.p != lim {
                    bad.insert("trailing");
                }
                if x.del > x.acc + 10 * (x.acc / 31744 + 1 + c.flushes) + overhead(&s.fmt, x.gz) {
                    bad.insert("expansion");
                }
                if d.m == M::Done && cov.1 > 0 && d.cl > cov.2 {
                    bad.insert("coverage");
                }
            }
            if goal == "prefix" && d.m == M::Done && d.p != lim {
                bad.insert("trailing");
            }
        }
        if e.op != "o" {
            c.step(e);
        }
        failed |= e.ret < 0;
        if c.st != st {
            best = None;
            d = Dec::new();
            sum = Sum::new(&s.fmt);
        }
    }
    (bad, probes)
}

fn body<'a>(s: &Scenario, r: &'a Rec, st: usize) -> &'a [u8] {
    let b = &r.outs[st][..];
    let (h, t) = match s.fmt.as_str() {
        "raw" => (0, 0),
        "zlib" => (2, 4),
        _ => (gzip_header(b, &r.hdrs[st]).unwrap_or(0), 8),
    };
    if h + t > b.len() {
        return &[];
    }
    &b[h..b.len() - t]
}

/// The references of the i-th execution of a group.
pub fn references(g: &[(Scenario, Rec)], i: usize) -> bool {
    g[i].0.refs.iter().all(|x| {
        let (m, d, s, mode) = (x[0] as usize - 1, x[1] as usize, x[2] as usize - 1, x[3]);
        let (a, b) = (&g[i], &g[i - d]);
        if m >= a.1.outs.len() || s >= b.1.outs.len() {
            return false;
        }
        let (p, q) = (&a.1.outs[m], &b.1.outs[s]);
        match mode {
            0 => p == q,
            1 => body(&a.0, &a.1, m) == body(&b.0, &b.1, s),
            2 => q.starts_with(p),
            k => p.len() as i64 <= q.len() as i64 + k,
        }
    })
}
