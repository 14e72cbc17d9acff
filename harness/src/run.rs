use crate::pool;
use crate::sink::{NoProgress, Policy, Sink};
use deflate::write::{DeflateEncoder, GzEncoder, ZlibEncoder};
use deflate::{CompressionOptions, MatchingType};
use gzip_header::{ExtraFlags, FileSystemType, GzBuilder};
use std::io::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Default)]
pub struct Gz {
    pub extra: Option<Vec<u8>>,
    pub name: Option<Vec<u8>>,
    pub comment: Option<Vec<u8>>,
    pub mtime: u32,
    pub os: Option<u8>,
    pub xfl: u8,
}

impl Gz {
    /// `-` or comma separated `e:HEX`, `n:HEX`, `c:HEX`, `m:NUM`, `o:NUM`, `x:NUM`
    fn parse(s: &str) -> Result<Gz, String> {
        let mut g = Gz::default();
        if s == "-" {
            return Ok(g);
        }
        for f in s.split(',') {
            let (k, v) = f.split_once(':').ok_or("gz field")?;
            let hex = || pool::build(&format!("x:{}", v));
            let n = || v.parse::<u32>().map_err(|e| e.to_string());
            match k {
                "e" => g.extra = Some(hex()?),
                "n" => g.name = Some(hex()?),
                "c" => g.comment = Some(hex()?),
                "m" => g.mtime = n()?,
                "o" => g.os = Some(n()? as u8),
                "x" => g.xfl = n()? as u8,
                _ => return Err(format!("gz field {}", f)),
            }
        }
        Ok(g)
    }
    fn builder(&self) -> GzBuilder {
        let mut b = GzBuilder::new().mtime(self.mtime).xfl(ExtraFlags::from_u8(self.xfl));
        if let Some(e) = &self.extra {
            b = b.extra(e.clone());
        }
        if let Some(e) = &self.name {
            b = b.filename(e.clone());
        }
        if let Some(e) = &self.comment {
            b = b.comment(e.clone());
        }
        if let Some(o) = self.os {
            b = b.os(FileSystemType::from_u8(o));
        }
        b
    }
    fn json(&self) -> String {
        let o = |v: &Option<Vec<u8>>| match v {
            Some(v) => bytes(v),
            None => "[-1]".to_string(),
        };
        format!(
            "{{\"extra\":{},\"name\":{},\"comment\":{},\"mtime\":[{},{}],\"os\":{},\"xfl\":{}}}",
            o(&self.extra),
            o(&self.name),
            o(&self.comment),
            self.mtime >> 16,
            self.mtime & 0xffff,
            self.os.map_or(-1, |x| x as i32),
            self.xfl
        )
    }
}

fn bytes(v: &[u8]) -> String {
    let mut s = String::with_capacity(v.len() * 4 + 2);
    s.push('[');
    for (i, b) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&b.to_string());
    }
    s.push(']');
    s
}

#[derive(Clone, Debug)]
pub enum Op {
    /// One call of write with up to n bytes.
    Write(usize),
    /// Calls of write, chunk bytes at a time, until n bytes are accepted; Interrupted and up to
    /// `errs` other errors are retried.
    WriteAll(usize, usize),
    Flush,
    /// flush, called again after an error.
    FlushRetry,
    Finish,
    Drop,
    Reset(Option<Gz>),
    ResetRetry(Option<Gz>),
    OneShot,
    OneShotDefault,
    /// Write that many bytes, cycling through the pool, in pieces of the given size, flushing
    /// after every so many pieces, and recording nothing but the peak of the allocated memory.
    Memory(usize, usize, usize),
}

#[derive(Clone, Debug)]
pub struct Scenario {
    pub id: String,
    pub fmt: String,
    pub opts: CompressionOptions,
    pub preset: String,
    pub gz: Gz,
    pub pool: Arc<Vec<u8>>,
    pub sinks: Vec<Policy>,
    pub ops: Vec<Op>,
    pub tags: String,
    /// Compare stream m of this scenario with stream s of the scenario d lines earlier:
    /// `m:d:s:mode`, mode 0 all delivered bytes, 1 only the DEFLATE data.
    pub refs: Vec<Vec<i64>>,
    /// `s:a:b:max`: at most max symbols for the bytes a..b of stream s.
    pub cov: Vec<Vec<i64>>,
    /// 1: the specification counts symbol frequencies.
    pub flags: i64,
}

fn lists(v: &str, n: usize) -> Result<Vec<Vec<i64>>, String> {
    v.split(',')
        .map(|e| {
            let l = e.split(':').map(|x| x.parse::<i64>().map_err(|e| e.to_string())).collect::<Result<Vec<_>, _>>()?;
            if l.len() == n {
                Ok(l)
            } else {
                Err(format!("list {}", v))
            }
        })
        .collect()
}

pub fn parse_opts(s: &str) -> Result<CompressionOptions, String> {
    Ok(match s {
        "default" => CompressionOptions::default(),
        "fast" => CompressionOptions::fast(),
        "high" => CompressionOptions::high(),
        "huff" => CompressionOptions::huffman_only(),
        "rle" => CompressionOptions::rle(),
        "C-fast" => deflate::Compression::Fast.into(),
        "C-default" => deflate::Compression::Default.into(),
        "C-best" => deflate::Compression::Best.into(),
        _ => {
            let p: Vec<&str> = s.split(',').collect();
            if p.len() != 3 {
                return Err(format!("opts {}", s));
            }
            let mut o = CompressionOptions::default();
            o.max_hash_checks = p[0].parse().map_err(|_| "checks")?;
            o.lazy_if_less_than = p[1].parse().map_err(|_| "lazy")?;
            o.matching_type = match p[2] {
                "L" => MatchingType::Lazy,
                "G" => MatchingType::Greedy,
                _ => return Err("mt".into()),
            };
            o
        }
    })
}

impl Scenario {
    /// `id=.. fmt=raw|zlib|gzip opts=.. gz=.. pool=.. sink=..|.. ops=..;.. tags=..`
    pub fn parse(l: &str) -> Result<Scenario, String> {
        let mut s = Scenario {
            id: String::new(),
            fmt: "raw".into(),
            opts: CompressionOptions::default(),
            preset: "default".into(),
            gz: Gz::default(),
            pool: Arc::new(vec![]),
            sinks: vec![Policy::parse("all")?],
            ops: vec![],
            tags: String::new(),
            refs: vec![],
            cov: vec![],
            flags: 0,
        };
        for f in l.split_whitespace() {
            let (k, v) = f.split_once('=').ok_or("field")?;
            match k {
                "id" => s.id = v.into(),
                "fmt" => s.fmt = v.into(),
                "opts" => {
                    s.opts = parse_opts(v)?;
                    s.preset = v.into();
                }
                "gz" => s.gz = Gz::parse(v)?,
                "pool" => s.pool = Arc::new(pool::build(v)?),
                "sink" => s.sinks = v.split('|').map(Policy::parse).collect::<Result<_, _>>()?,
                "tags" => s.tags = v.into(),
                "ref" => s.refs = lists(v, 4)?,
                "cov" => s.cov = lists(v, 4)?,
                "flags" => s.flags = v.parse().map_err(|_| "flags")?,
                "ops" => {
                    for o in v.split(';').filter(|o| !o.is_empty()) {
                        s.ops.push(Self::op(o)?);
                    }
                }
                _ => return Err(format!("field {}", k)),
            }
        }
        Ok(s)
    }
    fn op(o: &str) -> Result<Op, String> {
        let n = |s: &str| s.parse::<usize>().map_err(|_| format!("op {}", o));
        Ok(match o {
            "f" => Op::Flush,
            "F" => Op::FlushRetry,
            "x" => Op::Finish,
            "d" => Op::Drop,
            "r" => Op::Reset(None),
            "rr" => Op::ResetRetry(None),
            "o" => Op::OneShot,
            "O" => Op::OneShotDefault,
            _ => {
                if let Some(r) = o.strip_prefix("M") {
                    let l = lists(&r.replace('/', ":"), 3)?;
                    Op::Memory(l[0][0] as usize, l[0][1] as usize, l[0][2] as usize)
                } else if let Some(r) = o.strip_prefix("R/") {
                    Op::Reset(Some(Gz::parse(r)?))
                } else if let Some(r) = o.strip_prefix("RR/") {
                    Op::ResetRetry(Some(Gz::parse(r)?))
                } else if let Some(r) = o.strip_prefix('w') {
                    Op::Write(n(r)?)
                } else if let Some(r) = o.strip_prefix('W') {
                    match r.split_once('/') {
                        Some((a, b)) => Op::WriteAll(n(a)?, n(b)?),
                        None => Op::WriteAll(n(r)?, usize::MAX),
                    }
                } else {
                    return Err(format!("op {}", o));
                }
            }
        })
    }
}

/// One observable event; spec/Contract.tla tells what the fields mean.
#[derive(Clone, Debug)]
pub struct Ev {
    pub op: &'static str,
    pub n: i64,
    pub ret: i64,
    /// ' ' if there was none
    pub err: char,
    pub st: usize,
    pub sum: (u32, u32),
}
impl Ev {
    fn json(&self) -> String {
        let e = if self.err == ' ' { String::new() } else { self.err.to_string() };
        format!("[\"{}\",{},{},\"{}\",{},{},{}]", self.op, self.n, self.ret, e, self.st, self.sum.0, self.sum.1)
    }
}

#[derive(Default)]
pub struct Rec {
    pub ins: Vec<Vec<u8>>,
    pub outs: Vec<Vec<u8>>,
    pub hdrs: Vec<Gz>,
    pub events: Vec<Ev>,
    pub hang: bool,
    closed: bool,
    limit: usize,
}

#[derive(Clone)]
pub struct Recorder(Arc<Mutex<Rec>>);

impl Recorder {
    pub fn new(s: &Scenario) -> Recorder {
        let mut r = Rec::default();
        r.limit = 4 * s.pool.len();
        r.ins.push(vec![]);
        r.outs.push(vec![]);
        r.hdrs.push(s.gz.clone());
        Recorder(Arc::new(Mutex::new(r)))
    }
    fn with<T>(&self, f: impl FnOnce(&mut Rec) -> T) -> T {
        let mut g = match self.0.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
        f(&mut g)
    }
    pub fn sink(&self, stream: usize, data: &[u8], offered: usize, err: &str) {
        self.with(|r| {
            if r.closed {
                return;
            }
            r.outs[stream].extend_from_slice(data);
            let ret = if err.is_empty() { data.len() as i64 } else { -1 };
            let err = err.chars().next().unwrap_or(' ');
            r.events.push(Ev { op: "k", n: offered as i64, ret, err, st: stream + 1, sum: (0, 0) });
        })
    }
    /// No scenario comes near these numbers unless a call never ends.
    pub fn excessive(&self) -> bool {
        self.with(|r| r.events.len() > r.limit + 100_000 || r.outs.iter().map(|o| o.len()).sum::<usize>() > r.limit + 200_000)
    }
    fn event(&self, op: &'static str, n: usize, ret: i64, err: &str, st: usize, sum: (u32, u32)) {
        self.with(|r| {
            if r.closed {
                return;
            }
            let err = err.chars().next().unwrap_or(' ');
            r.events.push(Ev { op, n: n as i64, ret, err, st, sum });
        })
    }
    fn accept(&self, st: usize, data: &[u8]) {
        self.with(|r| r.ins[st].extend_from_slice(data));
    }
    fn delivered(&self, st: usize) -> usize {
        self.with(|r| r.outs[st].len())
    }
    pub fn hang(&self) {
        self.event("hang", 0, -3, "H", 0, (0, 0));
        self.with(|r| {
            r.hang = true;
            r.closed = true;
        })
    }
    pub fn lost(&self) {
        self.event("panic", 0, -2, "P", 0, (0, 0));
        self.with(|r| r.closed = true)
    }
    /// What was recorded, once the execution is over.
    pub fn take(&self) -> Rec {
        self.with(|r| {
            let c = Rec { closed: true, ..Rec::default() };
            std::mem::replace(r, c)
        })
    }
}

impl Rec {
    pub fn json(&self, s: &Scenario, flags: i64, triage: &[&str], probes: &[Vec<usize>]) -> String {
        {
            let r = self;
            let o = &s.opts;
            format!(
                "{{\"id\":\"{}\",\"fmt\":\"{}\",\"opts\":[{},{},{}],\"tags\":\"{}\",\"ref\":{:?},\"cov\":{:?},\"fl\":{},\"tri\":{:?},\"prb\":{:?},\"gz\":[{}],\"in\":[{}],\"out\":[{}],\"ev\":[{}]}}",
                s.id,
                s.fmt,
                o.max_hash_checks,
                o.lazy_if_less_than,
                if o.matching_type == MatchingType::Lazy { 1 } else { 0 },
                s.tags,
                s.refs,
                s.cov,
                flags,
                triage,
                probes,
                r.hdrs.iter().map(|g| g.json()).collect::<Vec<_>>().join(","),
                r.ins.iter().map(|v| bytes(v)).collect::<Vec<_>>().join(","),
                r.outs.iter().map(|v| bytes(v)).collect::<Vec<_>>().join(","),
                r.events.iter().map(|e| e.json()).collect::<Vec<_>>().join(",")
            )
        }
    }
}

enum Enc {
    Raw(DeflateEncoder<Sink>),
    Zlib(ZlibEncoder<Sink>),
    Gz(GzEncoder<Sink>),
}

impl Enc {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        match self {
            Enc::Raw(e) => e.write(b),
            Enc::Zlib(e) => e.write(b),
            Enc::Gz(e) => e.write(b),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        match self {
            Enc::Raw(e) => e.flush(),
            Enc::Zlib(e) => e.flush(),
            Enc::Gz(e) => e.flush(),
        }
    }
    fn finish(self) -> io::Result<Sink> {
        match self {
            Enc::Raw(e) => e.finish(),
            Enc::Zlib(e) => e.finish(),
            Enc::Gz(e) => e.finish(),
        }
    }
    fn reset(&mut self, s: Sink, g: Option<&Gz>) -> io::Result<Sink> {
        match self {
            Enc::Raw(e) => e.reset(s),
            Enc::Zlib(e) => e.reset(s),
            Enc::Gz(e) => match g {
                None => e.reset(s),
                Some(g) => e.reset_with_builder(s, g.builder()),
            },
        }
    }
    fn sum(&self) -> (u32, u32) {
        let c = match self {
            Enc::Raw(_) => return (0, 0),
            Enc::Zlib(e) => e.checksum(),
            Enc::Gz(e) => e.checksum(),
        };
        (c >> 16, c & 0xffff)
    }
}

fn errc(e: &io::Error) -> &'static str {
    match e.kind() {
        io::ErrorKind::Interrupted => "I",
        io::ErrorKind::WouldBlock => "B",
        io::ErrorKind::WriteZero => "Z",
        k if crate::sink::OTHER.contains(&k) => "E",
        _ => "?",
    }
}

enum Out<T> {
    Val(T),
    Panic(&'static str, i64),
}

fn guard<T>(f: impl FnOnce() -> T) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Out::Val(v),
        Err(p) => {
            if p.is::<NoProgress>() {
                Out::Panic("H", -3)
            } else {
                if std::env::var_os("VHARNESS_DEBUG").is_some() {
                    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                    eprintln!("panic: {:?}", m);
                }
                Out::Panic("P", -2)
            }
        }
    }
}

pub fn run(s: &Scenario, rec: &Recorder) {
    let mut st = 0usize;
    let mut pos = 0usize;
    let policy = |i: usize| s.sinks[i.min(s.sinks.len() - 1)].clone();
    if let Some(Op::OneShot | Op::OneShotDefault) = s.ops.first() {
        let d = matches!(s.ops[0], Op::OneShotDefault);
        rec.accept(0, &s.pool);
        let p = &s.pool[..];
        let r = guard(|| match (s.fmt.as_str(), d) {
            ("raw", false) => deflate::deflate_bytes_conf(p, s.opts),
            ("raw", true) => deflate::deflate_bytes(p),
            ("zlib", false) => deflate::deflate_bytes_zlib_conf(p, s.opts),
            ("zlib", true) => deflate::deflate_bytes_zlib(p),
            (_, false) => deflate::deflate_bytes_gzip_conf(p, s.opts, s.gz.builder()),
            (_, true) => deflate::deflate_bytes_gzip(p),
        });
        match r {
            Out::Val(v) => {
                let n = v.len();
                rec.with(|r| r.outs[0] = v);
                rec.event("o", s.pool.len(), n as i64, "", 1, (0, 0));
            }
            Out::Panic(e, c) => rec.event("o", s.pool.len(), c, e, 1, (0, 0)),
        }
        return;
    }
    if let Some(Op::Memory(total, piece, every)) = s.ops.first() {
        let r = guard(|| memory(s, *total, *piece, *every));
        match r {
            Out::Val(Ok((acc, peak))) => rec.event("m", peak / 1024, (acc >> 10) as i64, "", 1, (0, 0)),
            Out::Val(Err(e)) => rec.event("m", 0, -1, errc(&e), 1, (0, 0)),
            Out::Panic(e, c) => rec.event("m", 0, c, e, 1, (0, 0)),
        }
        return;
    }
    let sink = Sink::new(rec.clone(), 0, policy(0));
    let mut enc = match s.fmt.as_str() {
        "raw" => Enc::Raw(DeflateEncoder::new(sink, s.opts)),
        "zlib" => Enc::Zlib(ZlibEncoder::new(sink, s.opts)),
        _ => Enc::Gz(GzEncoder::from_builder(s.gz.builder(), sink, s.opts)),
    };
    rec.event("n", 0, 0, "", 1, enc.sum());
    // One call of write; Some(accepted) if it returned Ok.
    macro_rules! write1 {
        ($buf:expr) => {{
            let buf: &[u8] = $buf;
            match guard(|| enc.write(buf)) {
                Out::Val(Ok(n)) => {
                    let m = n.min(buf.len());
                    rec.accept(st, &buf[..m]);
                    rec.event("w", buf.len(), n as i64, "", st + 1, enc.sum());
                    Ok(m)
                }
                Out::Val(Err(e)) => {
                    rec.event("w", buf.len(), -1, errc(&e), st + 1, enc.sum());
                    Err(e.kind())
                }
                Out::Panic(e, c) => {
                    rec.event("w", buf.len(), c, e, st + 1, (0, 0));
                    std::mem::forget(enc);
                    return;
                }
            }
        }};
    }
    macro_rules! flush1 {
        () => {
            match guard(|| enc.flush()) {
                Out::Val(Ok(())) => {
                    rec.event("f", 0, 0, "", st + 1, enc.sum());
                    true
                }
                Out::Val(Err(e)) => {
                    rec.event("f", 0, -1, errc(&e), st + 1, enc.sum());
                    false
                }
                Out::Panic(e, c) => {
                    rec.event("f", 0, c, e, st + 1, (0, 0));
                    std::mem::forget(enc);
                    return;
                }
            }
        };
    }
    for op in &s.ops {
        match op {
            Op::Write(n) => {
                let end = (pos + n).min(s.pool.len());
                if let Ok(m) = write1!(&s.pool[pos..end]) {
                    pos += m;
                }
            }
            Op::WriteAll(n, chunk) => {
                let end = pos.saturating_add(*n).min(s.pool.len());
                let (mut fails, mut errs) = (0, 0);
                let mut seen = rec.delivered(st);
                while pos < end {
                    let ce = pos.saturating_add(*chunk).min(end);
                    match write1!(&s.pool[pos..ce]) {
                        Ok(0) => fails += 1,
                        Ok(m) => {
                            pos += m;
                            fails = 0;
                            errs = 0;
                        }
                        Err(io::ErrorKind::Interrupted) => fails += 1,
                        Err(_) => errs += 1,
                    }
                    let now = rec.delivered(st);
                    if now > seen {
                        fails = 0;
                        seen = now;
                    }
                    if errs >= 5 {
                        break;
                    }
                    if fails >= 40 {
                        // No byte accepted and none delivered in that many calls.
                        rec.event("stuck", fails, 0, "", st + 1, enc.sum());
                        break;
                    }
                }
            }
            Op::Flush => {
                flush1!();
            }
            Op::FlushRetry => {
                for _ in 0..20 {
                    if flush1!() {
                        break;
                    }
                }
            }
            Op::Finish => {
                match guard(|| enc.finish()) {
                    Out::Val(Ok(_)) => rec.event("x", 0, 0, "", st + 1, (0, 0)),
                    // The encoder is dropped inside of finish in this case.
                    Out::Val(Err(e)) => rec.event("x", 0, -1, errc(&e), st + 1, (0, 0)),
                    Out::Panic(e, c) => rec.event("x", 0, c, e, st + 1, (0, 0)),
                }
                return;
            }
            Op::Drop => {
                match guard(|| drop(enc)) {
                    Out::Val(()) => rec.event("d", 0, 0, "", st + 1, (0, 0)),
                    Out::Panic(e, c) => rec.event("d", 0, c, e, st + 1, (0, 0)),
                }
                return;
            }
            Op::Reset(g) | Op::ResetRetry(g) => {
                let tries = if matches!(op, Op::ResetRetry(_)) { 20 } else { 1 };
                for _ in 0..tries {
                    // The new sink writes to the next stream's record from the start.
                    rec.with(|r| {
                        if r.ins.len() < st + 2 {
                            r.ins.push(vec![]);
                            r.outs.push(vec![]);
                            r.hdrs.push(Gz::default());
                        }
                        r.hdrs[st + 1] = g.clone().unwrap_or_default();
                    });
                    let ns = Sink::new(rec.clone(), st + 1, policy(st + 1));
                    match guard(|| enc.reset(ns, g.as_ref())) {
                        Out::Val(Ok(old)) => {
                            // `n` tells which stream the returned sink belonged to.
                            rec.event("r", old.stream + 1, 0, "", st + 1, enc.sum());
                            st += 1;
                            break;
                        }
                        Out::Val(Err(e)) => rec.event("r", 0, -1, errc(&e), st + 1, enc.sum()),
                        Out::Panic(e, c) => {
                            rec.event("r", 0, c, e, st + 1, (0, 0));
                            std::mem::forget(enc);
                            return;
                        }
                    }
                }
            }
            Op::OneShot | Op::OneShotDefault | Op::Memory(..) => (),
        }
    }
    // The history ends without closing the encoder: the last stream stays open.
    std::mem::forget(enc);
    rec.event("end", 0, 0, "", st + 1, (0, 0));
}

/// Accepts everything (in pieces of at most `most` bytes) and keeps nothing.
struct Null {
    most: usize,
}
impl Write for Null {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        Ok(b.len().min(self.most))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn memory(s: &Scenario, total: usize, piece: usize, every: usize) -> io::Result<(usize, usize)> {
    fn go<W: Write>(
        e: &mut W,
        s: &Scenario,
        total: usize,
        piece: usize,
        every: usize,
        turn: &mut dyn FnMut(&mut W) -> io::Result<()>,
    ) -> io::Result<usize> {
        let (mut done, mut pos, mut n, mut idle) = (0, 0, 0, 0);
        while done < total {
            let end = (pos + piece).min(s.pool.len());
            match e.write(&s.pool[pos..end]) {
                Ok(m) => {
                    idle = if m == 0 { idle + 1 } else { 0 };
                    pos += m;
                    done += m;
                }
                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => idle += 1,
                Err(e) => return Err(e),
            }
            if idle > 100_000 {
                return Err(io::ErrorKind::TimedOut.into());
            }
            if pos == s.pool.len() {
                pos = 0;
            }
            n += 1;
            if every > 0 && n % every == 0 {
                turn(e)?;
            }
        }
        Ok(done)
    }
    // tags "r": reset instead of flush
    let reset = s.tags.contains('r');
    let most = match s.sinks[0].script[0] {
        crate::sink::Act::Take(n) => n,
        _ => usize::MAX,
    };
    crate::alloc::start();
    let n = match s.fmt.as_str() {
        "raw" => {
            let mut e = DeflateEncoder::new(Null { most }, s.opts);
            let n = go(&mut e, s, total, piece, every, &mut |e| if reset { e.reset(Null { most }).map(|_| ()) } else { e.flush() })?;
            e.finish()?;
            n
        }
        "zlib" => {
            let mut e = ZlibEncoder::new(Null { most }, s.opts);
            let n = go(&mut e, s, total, piece, every, &mut |e| if reset { e.reset(Null { most }).map(|_| ()) } else { e.flush() })?;
            e.finish()?;
            n
        }
        _ => {
            let mut e = GzEncoder::from_builder(s.gz.builder(), Null { most }, s.opts);
            let n = go(&mut e, s, total, piece, every, &mut |e| if reset { e.reset(Null { most }).map(|_| ()) } else { e.flush() })?;
            e.finish()?;
            n
        }
    };
    Ok((n, crate::alloc::peak()))
}
