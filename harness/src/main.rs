//! Replays API histories on the real deflate crate and records what an outside observer sees:
//! every call, its result, every call the encoder makes on its sink, every delivered byte.
//! It judges nothing: the recorded trace is judged by the TLA+ specification.
//!
//! usage: vharness SCENARIOS OUT.ndjson THREADS TIMEOUT_S [screen SECONDS MOST]
//!
//! SCENARIOS has one history per line; lines refer to earlier lines of their group; groups are
//! separated by empty lines.  With `screen`, only the smallest groups of each kind that looks
//! suspicious (see triage.rs) are written, and no group is begun after SECONDS or MOST such groups.
//! The last line of the output is a summary.
mod alloc;
mod pool;
mod run;
mod sink;
mod triage;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

use run::{Rec, Recorder, Scenario};
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

fn execute(s: &Scenario, timeout: u64) -> Rec {
    let (itx, irx) = mpsc::channel();
    let rec = Recorder::new(s);
    let rec2 = rec.clone();
    let s2 = s.clone();
    // The scenario runs in a thread of its own, so that an endless loop inside the
    // encoder is an observation and not the end of the harness.
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            run::run(&s2, &rec2);
            let _ = itx.send(());
        })
        .unwrap();
    match irx.recv_timeout(Duration::from_secs(timeout)) {
        Ok(()) => (),
        Err(mpsc::RecvTimeoutError::Disconnected) => rec.lost(),
        Err(mpsc::RecvTimeoutError::Timeout) => rec.hang(),
    }
    rec.take()
}

struct Done {
    index: usize,
    lines: Vec<String>,
    looks: Vec<&'static str>,
    executions: usize,
    bytes: usize,
    hung: bool,
}

/// Per kind of suspicion, the sizes of the smallest groups so far.
type Smallest = Mutex<HashMap<Vec<&'static str>, Vec<usize>>>;

fn group(index: usize, text: &[String], timeout: u64, screen: Option<&Smallest>) -> Result<Done, String> {
    let mut g: Vec<(Scenario, Rec)> = vec![];
    let mut d = Done { index, lines: vec![], looks: vec![], executions: 0, bytes: 0, hung: false };
    let mut looks: Vec<triage::Clauses> = vec![];
    let mut probes: Vec<Vec<Vec<usize>>> = vec![];
    for l in text {
        let s = Scenario::parse(l).map_err(|e| format!("bad scenario: {}: {}", e, l))?;
        let r = execute(&s, timeout);
        d.hung |= r.hang;
        d.executions += 1;
        d.bytes += r.outs.iter().map(|o| o.len()).sum::<usize>();
        let (l, p) = triage::execution(&s, &r);
        looks.push(l);
        probes.push(p);
        g.push((s, r));
        let i = g.len() - 1;
        if !looks[i].contains("panic") && !looks[i].contains("hang") && !triage::references(&g, i) {
            looks[i].insert("reference");
        }
    }
    let mut all = triage::Clauses::new();
    looks.iter().for_each(|l| all.extend(l.iter().copied()));
    let freq = all.contains("not-optimal") || all.contains("not-cheapest") || all.contains("not-cheapest-stored");
    let looks_of = all.iter().copied().collect::<Vec<_>>();
    let wanted = match screen {
        None => true,
        Some(_) if all.is_empty() => false,
        Some(m) => {
            let size = g.iter().map(|(_, r)| 50 + r.events.len() + r.outs.iter().chain(&r.ins).map(|o| o.len()).sum::<usize>()).sum();
            let mut m = m.lock().unwrap();
            let v = m.entry(looks_of.clone()).or_default();
            v.push(size);
            v.sort();
            v.truncate(3);
            v.contains(&size)
        }
    };
    let screen = screen.is_some();
    if wanted {
        for (((s, r), l), p) in g.iter().zip(&looks).zip(&probes) {
            let fl = if screen { freq as i64 } else { s.flags };
            let l: Vec<&str> = l.iter().copied().collect();
            d.lines.push(r.json(s, fl, &l, p));
        }
    }
    d.looks = looks_of;
    Ok(d)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: vharness SCENARIOS OUT.ndjson THREADS TIMEOUT_S [screen SECONDS MOST]");
        std::process::exit(2);
    }
    let threads: usize = args[3].parse().unwrap();
    let timeout: u64 = args[4].parse().unwrap();
    let screen = args.get(5).map_or(false, |a| a == "screen");
    let seconds: u64 = if screen { args[6].parse().unwrap() } else { u64::MAX / 4 };
    let most: usize = if screen { args[7].parse().unwrap() } else { usize::MAX };
    std::panic::set_hook(Box::new(|_| {}));
    let text = std::fs::read_to_string(&args[1]).expect("scenario file");
    let mut groups: Vec<Vec<String>> = vec![vec![]];
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() {
            if !groups.last().unwrap().is_empty() {
                groups.push(vec![]);
            }
        } else if !l.starts_with('#') {
            groups.last_mut().unwrap().push(l.to_string());
        }
    }
    groups.retain(|g| !g.is_empty());
    let groups = Arc::new(groups);
    let next = Arc::new(AtomicUsize::new(0));
    let found = Arc::new(AtomicUsize::new(0));
    let hung = Arc::new(AtomicUsize::new(0));
    let smallest = Arc::new(Smallest::default());
    let begin = Instant::now();
    let (tx, rx) = mpsc::channel::<Result<Done, String>>();
    for _ in 0..threads {
        let (groups, next, found, hung, tx, smallest) = (groups.clone(), next.clone(), found.clone(), hung.clone(), tx.clone(), smallest.clone());
        std::thread::spawn(move || loop {
            if screen && (begin.elapsed().as_secs() >= seconds || found.load(SeqCst) >= most || hung.load(SeqCst) >= 4) {
                return;
            }
            let i = next.fetch_add(1, SeqCst);
            if i >= groups.len() {
                return;
            }
            let r = group(i, &groups[i], timeout, if screen { Some(&*smallest) } else { None });
            if let Ok(d) = &r {
                found.fetch_add(!d.looks.is_empty() as usize, SeqCst);
                hung.fetch_add(d.hung as usize, SeqCst);
            }
            let _ = tx.send(r);
        });
    }
    drop(tx);
    let mut lines: Vec<(usize, Vec<String>)> = vec![];
    let (mut n, mut m, mut bytes) = (0, 0, 0);
    let mut looks: HashMap<&str, usize> = HashMap::new();
    while let Ok(r) = rx.recv() {
        match r {
            Ok(d) => {
                n += 1;
                m += d.executions;
                bytes += d.bytes;
                for l in d.looks {
                    *looks.entry(l).or_default() += 1;
                }
                if !d.lines.is_empty() {
                    lines.push((d.index, d.lines));
                }
            }
            Err(e) => {
                eprintln!("{}", e);
                if screen {
                    continue;
                }
                std::process::exit(2);
            }
        }
    }
    if !screen && n < groups.len() {
        eprintln!("harness lost groups: {} of {}", n, groups.len());
        std::process::exit(2);
    }
    lines.sort();
    let f = std::fs::File::create(&args[2]).expect("output");
    let mut f = std::io::BufWriter::new(f);
    for (i, g) in &lines {
        for l in g {
            writeln!(f, "{} {}", i, l).unwrap();
        }
    }
    writeln!(f, "# {{\"groups\":{},\"executions\":{},\"delivered\":{},\"looks\":{:?}}}", n, m, bytes, looks).unwrap();
    f.flush().unwrap();
    drop(f);
    // Threads stuck in an endless loop end with the process.
    std::process::exit(0);
}
