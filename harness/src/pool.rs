//! Input data described by segments, so that a history can place matches, literals and runs at
//! exact positions relative to window and block boundaries.

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(0xD1B5_4A32_D192_ED03))
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

struct Trigrams {
    bits: Vec<u64>,
}
impl Trigrams {
    fn of(pool: &[u8]) -> Trigrams {
        let mut t = Trigrams { bits: vec![0; (1 << 24) / 64] };
        for w in pool.windows(3) {
            t.add(w[0], w[1], w[2]);
        }
        t
    }
    fn ix(a: u8, b: u8, c: u8) -> usize {
        (a as usize) << 16 | (b as usize) << 8 | c as usize
    }
    fn add(&mut self, a: u8, b: u8, c: u8) {
        let i = Self::ix(a, b, c);
        self.bits[i / 64] |= 1 << (i % 64);
    }
    fn has(&self, a: u8, b: u8, c: u8) -> bool {
        let i = Self::ix(a, b, c);
        self.bits[i / 64] >> (i % 64) & 1 == 1
    }
}

fn num<T: std::str::FromStr>(s: Option<&&str>) -> Result<T, String> {
    s.ok_or("missing number")?.parse::<T>().map_err(|_| format!("bad number {:?}", s))
}

/// Segments, separated by ';':
///   z:B:N      N times byte B
///   r:SEED:N   N random bytes
///   a:SEED:N:K N random bytes out of the K lowest values
///   t:SEED:N[:K] N bytes (out of the K lowest values), none of which completes a three-byte sequence already in the input
///   c:D:N      N bytes copied (with overlap) from D bytes back
///   g:SEED:N:K N bytes with geometrically falling frequencies (symbol i twice as rare as i-1)
///   f:K:SEED   shuffled bytes where symbol i occurs fib(i) times, K symbols
///   w:SEED:N:V N bytes of text made out of V words
///   p:SEED:N:P N bytes: a P-byte trigram-unique pattern repeated
///   n:SEED:S.C,S.C,..  shuffled bytes with C bytes of each value S
///   q:N        N bytes cycling through 0..255
///   x:HEX      literal bytes
pub fn build(desc: &str) -> Result<Vec<u8>, String> {
    let mut v: Vec<u8> = Vec::new();
    // the three-byte sequences of the first `.1` bytes of v
    let mut tri: Option<(Trigrams, usize)> = None;
    for seg in desc.split(';').filter(|s| !s.is_empty()) {
        let p: Vec<&str> = seg.split(':').collect();
        match p[0] {
            "z" => {
                let b: u8 = num(p.get(1))?;
                let n: usize = num(p.get(2))?;
                v.extend(std::iter::repeat(b).take(n));
            }
            "r" => {
                let mut r = Rng::new(num(p.get(1))?);
                let n: usize = num(p.get(2))?;
                for _ in 0..n {
                    v.push(r.below(256) as u8);
                }
            }
            "a" => {
                let mut r = Rng::new(num(p.get(1))?);
                let n: usize = num(p.get(2))?;
                let k: u64 = num(p.get(3))?;
                for _ in 0..n {
                    v.push(r.below(k) as u8);
                }
            }
            "t" => {
                let mut r = Rng::new(num(p.get(1))?);
                let n: usize = num(p.get(2))?;
                let k: u64 = if p.len() > 3 { num(p.get(3))? } else { 256 };
                let (mut t, seen) = tri.take().unwrap_or_else(|| (Trigrams::of(&[]), 0));
                for w in v[seen.saturating_sub(2)..].windows(3) {
                    t.add(w[0], w[1], w[2]);
                }
                for _ in 0..n {
                    let l = v.len();
                    let mut b = r.below(k) as u8;
                    if l >= 2 {
                        let mut tries = 0;
                        while t.has(v[l - 2], v[l - 1], b) && tries < k {
                            b = ((b as u64 + 1) % k) as u8;
                            tries += 1;
                        }
                        if tries == k {
                            return Err("no unused trigram left".into());
                        }
                        t.add(v[l - 2], v[l - 1], b);
                    }
                    v.push(b);
                }
                tri = Some((t, v.len()));
            }
            "c" => {
                let d: usize = num(p.get(1))?;
                let n: usize = num(p.get(2))?;
                if d == 0 || d > v.len() {
                    return Err(format!("copy distance {} at {}", d, v.len()));
                }
                for _ in 0..n {
                    let b = v[v.len() - d];
                    v.push(b);
                }
            }
            "g" => {
                let mut r = Rng::new(num(p.get(1))?);
                let n: usize = num(p.get(2))?;
                let k: u32 = num(p.get(3))?;
                for _ in 0..n {
                    v.push(r.next().trailing_zeros().min(k - 1) as u8);
                }
            }
            "f" => {
                let k: usize = num(p.get(1))?;
                let mut r = Rng::new(num(p.get(2))?);
                let mut s: Vec<u8> = Vec::new();
                let (mut a, mut b) = (1usize, 1usize);
                for i in 0..k {
                    s.extend(std::iter::repeat(i as u8).take(a));
                    let c = a + b;
                    a = b;
                    b = c;
                }
                for i in (1..s.len()).rev() {
                    let j = r.below(i as u64 + 1) as usize;
                    s.swap(i, j);
                }
                v.extend(s);
            }
            "n" => {
                let mut r = Rng::new(num(p.get(1))?);
                let mut s: Vec<u8> = Vec::new();
                for e in p.get(2).ok_or("counts")?.split(',') {
                    let (a, b) = e.split_once('.').ok_or("count")?;
                    let a: u8 = num(Some(&a))?;
                    let b: usize = num(Some(&b))?;
                    s.extend(std::iter::repeat(a).take(b));
                }
                for i in (1..s.len()).rev() {
                    let j = r.below(i as u64 + 1) as usize;
                    s.swap(i, j);
                }
                v.extend(s);
            }
            "w" => {
                let mut r = Rng::new(num(p.get(1))?);
                let n: usize = num(p.get(2))?;
                let k: usize = num(p.get(3))?;
                let words: Vec<Vec<u8>> = (0..k)
                    .map(|_| (0..2 + r.below(8)).map(|_| b'a' + r.below(26) as u8).collect())
                    .collect();
                let end = v.len() + n;
                while v.len() < end {
                    let i = r.below(k as u64) as usize;
                    v.extend_from_slice(&words[i]);
                    v.push(b' ');
                }
                v.truncate(end);
            }
            "p" => {
                let n: usize = num(p.get(2))?;
                let k: usize = num(p.get(3))?;
                let start = v.len();
                let t = build(&format!("t:{}:{}", p[1], k))?;
                while v.len() < start + n {
                    let i = (v.len() - start) % k;
                    v.push(t[i]);
                }
            }
            "q" => {
                let n: usize = num(p.get(1))?;
                for i in 0..n {
                    v.push(i as u8);
                }
            }
            "x" => {
                let h = p.get(1).ok_or("hex")?.as_bytes();
                for c in h.chunks(2) {
                    let s = std::str::from_utf8(c).map_err(|e| e.to_string())?;
                    v.push(u8::from_str_radix(s, 16).map_err(|e| e.to_string())?);
                }
            }
            _ => return Err(format!("bad segment {}", seg)),
        }
    }
    Ok(v)
}
