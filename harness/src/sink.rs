//! The sink handed to the encoder: follows a scripted policy and records every call.
use crate::run::Recorder;
use std::io::{self, Write};

#[derive(Clone, Debug)]
pub enum Act {
    All,
    Take(usize),
    Err(char),
}

#[derive(Clone, Debug)]
pub struct Policy {
    pub script: Vec<Act>,
    /// Go back to the start of the script when it ends (otherwise the last action repeats).
    pub cycle: bool,
    /// Total capacity; beyond it: Ok(0) (as a full `&mut [u8]` answers), or an error.
    pub total: Option<(usize, Option<char>)>,
}

impl Policy {
    /// `all`, `t<N>` (room for N bytes, then Ok(0)), `T<N>` (room for N bytes, then an error),
    /// `s:a,b,c` or `l:a,b,c` with actions `*` (take everything), a number (take at most that
    /// many), `I` Interrupted, `B` WouldBlock, `E` another error.
    pub fn parse(s: &str) -> Result<Policy, String> {
        let mut p = Policy { script: vec![Act::All], cycle: false, total: None };
        if s == "all" {
            return Ok(p);
        }
        if let Some(r) = s.strip_prefix('t') {
            p.total = Some((r.parse().map_err(|_| s.to_string())?, None));
            return Ok(p);
        }
        if let Some(r) = s.strip_prefix('T') {
            p.total = Some((r.parse().map_err(|_| s.to_string())?, Some('E')));
            return Ok(p);
        }
        let (list, cycle) = if let Some(r) = s.strip_prefix("s:") {
            (r, false)
        } else if let Some(r) = s.strip_prefix("l:") {
            (r, true)
        } else {
            return Err(format!("bad sink {}", s));
        };
        p.cycle = cycle;
        p.script = list
            .split(',')
            .map(|a| match a {
                "*" => Ok(Act::All),
                "I" | "B" | "E" => Ok(Act::Err(a.chars().next().unwrap())),
                n => n.parse().map(Act::Take).map_err(|_| format!("bad sink action {}", n)),
            })
            .collect::<Result<_, _>>()?;
        Ok(p)
    }
}

pub struct Sink {
    pub rec: Recorder,
    pub stream: usize,
    pub policy: Policy,
    pub calls: usize,
    pub idle: usize,
    pub room: usize,
}

/// Panic payload of a sink that has been asked in vain too often.
pub struct NoProgress;

impl Sink {
    pub fn new(rec: Recorder, stream: usize, policy: Policy) -> Sink {
        let room = policy.total.as_ref().map_or(usize::MAX, |t| t.0);
        Sink { rec, stream, policy, calls: 0, idle: 0, room }
    }
}

/// The kinds an error `E` may have.
pub const OTHER: [io::ErrorKind; 5] =
    [io::ErrorKind::BrokenPipe, io::ErrorKind::Other, io::ErrorKind::TimedOut, io::ErrorKind::ConnectionReset, io::ErrorKind::InvalidInput];

pub fn kind(c: char, turn: usize) -> io::ErrorKind {
    match c {
        'I' => io::ErrorKind::Interrupted,
        'B' => io::ErrorKind::WouldBlock,
        _ => OTHER[turn % OTHER.len()],
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            self.rec.sink(self.stream, &[], 0, "");
            return Ok(0);
        }
        let act = {
            let s = &self.policy.script;
            let i = if self.policy.cycle { self.calls % s.len() } else { self.calls.min(s.len() - 1) };
            s[i].clone()
        };
        self.calls += 1;
        let res = match act {
            Act::Err(c) => Err(c),
            Act::All => Ok(buf.len()),
            Act::Take(k) => Ok(k.min(buf.len())),
        };
        let res = match (res, &self.policy.total) {
            (Ok(n), Some((_, e))) => {
                if self.room == 0 {
                    match e {
                        Some(c) => Err(*c),
                        None => Ok(0),
                    }
                } else {
                    Ok(n.min(self.room))
                }
            }
            (r, _) => r,
        };
        match res {
            Ok(n) => {
                self.room = self.room.saturating_sub(n);
                self.idle = if n == 0 { self.idle + 1 } else { 0 };
                self.rec.sink(self.stream, &buf[..n], buf.len(), "");
                if self.idle > 300 || self.rec.excessive() {
                    std::panic::panic_any(NoProgress);
                }
                Ok(n)
            }
            Err(c) => {
                self.idle += 1;
                self.rec.sink(self.stream, &[], buf.len(), &c.to_string());
                if self.idle > 300 {
                    std::panic::panic_any(NoProgress);
                }
                Err(io::Error::new(kind(c, self.calls + self.stream), "scripted"))
            }
        }
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
