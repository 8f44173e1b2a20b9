//! Everything one simulated run is made of, as plain data: what the peers send, how the
//! application behaves, and the trace of scheduler decisions. A scenario can be executed any number
//! of times with the same result, written to a replay file, and cut down by the minimiser.

use crate::model::Phase;
pub use crate::volume::Bulk;
pub use httprec::Pause;
use std::fmt::Write;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Start {
    /// A newly created parser, not initialised (HTTP/1 heads only), or a new HTTP/2 parser.
    Fresh,
    /// A newly created or re-used parser, initialised for the mode with init_*() (HTTP/2: reset()).
    Init,
    /// A re-used parser, reset() if it is already of the right mode, else initialised.
    Reset,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Session {
    pub start: Start,
    pub phases: Vec<Phase>,
    pub stream: Vec<u8>,
    /// The handler fails (unwinds) in this callback.
    pub fail: Option<u32>,
    /// The application first resets the re-used parser this many times.
    pub spins: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Conn {
    pub sessions: Vec<Session>,
    pub pause: Pause,
}

/// One decision of the scheduler.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    /// The next n bytes of the stream reach the receive buffer.
    Arrive(u32),
    /// The application reads up to n bytes from the receive buffer and resumes the parser.
    Poll(u32),
    /// The application is woken for nothing and resumes the parser with an empty slice.
    Spurious,
    /// The connection is lost; the application re-uses the parser for the next session.
    Next,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Op {
    pub t: u64,
    pub c: u32,
    pub a: Act,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
    pub prop: String,
    pub conns: Vec<Conn>,
    pub ops: Vec<Op>,
    /// Property-specific number (C17: bytes that arrive before the connection is lost).
    pub arg: usize,
    /// What the world does when the trace has been played: deliver everything and poll until
    /// nothing moves, or leave things as they are.
    pub drain: bool,
    /// Keep calling a parser that has failed or finished.
    pub keep_calling: bool,
    /// Most calls are made on threads other than the one before (one at a time, all the same).
    pub threads: bool,
    /// A bulk transfer takes the place of the session's stream.
    pub bulk: Option<Bulk>,
    /// Not one run, but many of them one after another in one process.
    pub history: Option<History>,
}

/// Runs `from`, `from + stride`, ... of a seed, `count` of them, in a process that has done nothing else.
#[derive(Clone, Debug, PartialEq)]
pub struct History {
    pub seed: u64,
    pub from: u64,
    pub stride: u64,
    pub count: u64,
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2 + 1);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    if s.is_empty() {
        s.push('-');
    }
    s
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s == "-" {
        return Some(vec![]);
    }
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len()).step_by(2).map(|i| u8::from_str_radix(s.get(i..i + 2)?, 16).ok()).collect()
}

pub fn escape(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(2000) {
        for c in std::ascii::escape_default(*x) {
            s.push(c as char);
        }
    }
    if b.len() > 2000 {
        let _ = write!(s, "...({} bytes)", b.len());
    }
    s
}

fn phase_text(p: &Phase) -> String {
    match p {
        Phase::Head => "head".into(),
        Phase::Chunked => "chunked".into(),
        Phase::Multipart { boundary, clens } => {
            let c: Vec<String> = clens
                .iter()
                .map(|c| match c {
                    Some(n) => n.to_string(),
                    None => "none".into(),
                })
                .collect();
            format!("multipart:{}:{}", hex(boundary), if c.is_empty() { "-".into() } else { c.join(",") })
        }
        Phase::Url { len } => format!("url:{}", len),
        Phase::Raw { len } => format!("raw:{}", len),
        Phase::H2 => "h2".into(),
    }
}

fn phase_parse(s: &str) -> Option<Phase> {
    let f: Vec<&str> = s.split(':').collect();
    Some(match f[0] {
        "head" => Phase::Head,
        "chunked" => Phase::Chunked,
        "multipart" => Phase::Multipart {
            boundary: Rc::new(unhex(f.get(1)?)?),
            clens: if *f.get(2)? == "-" {
                vec![]
            } else {
                f[2].split(',')
                    .map(|c| if c == "none" { Some(None) } else { c.parse().ok().map(Some) })
                    .collect::<Option<Vec<_>>>()?
            },
        },
        "url" => Phase::Url { len: f.get(1)?.parse().ok()? },
        "raw" => Phase::Raw { len: f.get(1)?.parse().ok()? },
        "h2" => Phase::H2,
        _ => return None,
    })
}

pub fn op_text(o: &Op) -> String {
    match o.a {
        Act::Arrive(n) => format!("@{}us {} arrive {}\n", o.t, o.c, n),
        Act::Poll(n) => format!("@{}us {} poll {}\n", o.t, o.c, n),
        Act::Spurious => format!("@{}us {} wake\n", o.t, o.c),
        Act::Next => format!("@{}us {} lost\n", o.t, o.c),
    }
}

impl Scenario {
    pub fn blank(prop: &str) -> Scenario {
        Scenario {
            prop: prop.into(),
            conns: vec![],
            ops: vec![],
            arg: 0,
            drain: true,
            keep_calling: false,
            threads: false,
            bulk: None,
            history: None,
        }
    }

    pub fn of_history(prop: &str, h: History) -> Scenario {
        Scenario { history: Some(h), ..Scenario::blank(prop) }
    }

    pub fn text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "property {}", self.prop);
        let _ = writeln!(s, "arg {} drain {} keep_calling {}", self.arg, self.drain, self.keep_calling);
        for (i, c) in self.conns.iter().enumerate() {
            let at: Vec<String> = c.pause.at.iter().map(|x| x.to_string()).collect();
            let _ = writeln!(
                s,
                "conn {} pause {}",
                i,
                if c.pause.all {
                    "all".into()
                } else if at.is_empty() {
                    "none".into()
                } else {
                    at.join(",")
                }
            );
            for se in &c.sessions {
                let ph: Vec<String> = se.phases.iter().map(phase_text).collect();
                let _ = writeln!(s, "# \"{}\"", escape(&se.stream));
                let _ = writeln!(
                    s,
                    "session {} {} {}{}{}",
                    match se.start {
                        Start::Fresh => "fresh",
                        Start::Init => "init",
                        Start::Reset => "reset",
                    },
                    ph.join(";"),
                    hex(&se.stream),
                    se.fail.map(|o| format!(" fail {}", o)).unwrap_or_default(),
                    if se.spins > 0 { format!(" spins {}", se.spins) } else { String::new() }
                );
            }
        }
        if let Some(b) = &self.bulk {
            let l: Vec<String> = b.lens.iter().map(|n| n.to_string()).collect();
            let _ = writeln!(s, "bulk {} seed {}", l.join(","), b.seed);
        }
        if self.threads {
            s.push_str("threads\n");
        }
        if let Some(h) = &self.history {
            let _ = writeln!(s, "history {} from {} stride {} count {}", h.seed, h.from, h.stride, h.count);
        }
        for o in &self.ops {
            s.push_str(&op_text(o));
        }
        s
    }

    pub fn parse(text: &str) -> Option<Scenario> {
        let mut sc = Scenario::blank("");
        for line in text.lines() {
            let f: Vec<&str> = line.split_whitespace().collect();
            if f.is_empty() || f[0].starts_with('#') {
                continue;
            }
            match f[0] {
                "class" => {}
                "property" => sc.prop = f.get(1)?.to_string(),
                "arg" => {
                    sc.arg = f.get(1)?.parse().ok()?;
                    sc.drain = f.get(3)?.parse().ok()?;
                    sc.keep_calling = f.get(5)?.parse().ok()?;
                }
                "conn" => {
                    let p = f.get(3)?;
                    let pause = match *p {
                        "all" => Pause { all: true, at: vec![] },
                        "none" => Pause::none(),
                        l => Pause {
                            all: false,
                            at: l.split(',').map(|x| x.parse().ok()).collect::<Option<Vec<u32>>>()?,
                        },
                    };
                    sc.conns.push(Conn { sessions: vec![], pause });
                }
                "session" => {
                    let start = match *f.get(1)? {
                        "fresh" => Start::Fresh,
                        "init" => Start::Init,
                        "reset" => Start::Reset,
                        _ => return None,
                    };
                    let phases = f.get(2)?.split(';').map(phase_parse).collect::<Option<Vec<_>>>()?;
                    let stream = unhex(f.get(3)?)?;
                    let (mut fail, mut spins) = (None, 0);
                    for x in f[4..].chunks(2) {
                        let n = x.get(1)?.parse().ok()?;
                        match x[0] {
                            "fail" => fail = Some(n),
                            "spins" => spins = n,
                            _ => return None,
                        }
                    }
                    sc.conns.last_mut()?.sessions.push(Session { start, phases, stream, fail, spins });
                }
                "bulk" => {
                    let lens = f.get(1)?.split(',').map(|x| x.parse().ok()).collect::<Option<Vec<u64>>>()?;
                    sc.bulk = Some(Bulk { lens, seed: f.get(3)?.parse().ok()? });
                }
                "threads" => sc.threads = true,
                "history" => {
                    let n = |i: usize| f.get(i).and_then(|v| v.parse::<u64>().ok());
                    sc.history = Some(History { seed: n(1)?, from: n(3)?, stride: n(5)?, count: n(7)? });
                }
                x if x.starts_with('@') => {
                    let t = x.strip_prefix('@')?.strip_suffix("us")?.parse().ok()?;
                    let c = f.get(1)?.parse().ok()?;
                    let n = |i: usize| f.get(i).and_then(|v| v.parse::<u32>().ok());
                    let a = match *f.get(2)? {
                        "arrive" => Act::Arrive(n(3)?),
                        "poll" => Act::Poll(n(3)?),
                        "wake" => Act::Spurious,
                        "lost" => Act::Next,
                        _ => return None,
                    };
                    sc.ops.push(Op { t, c, a });
                }
                _ => return None,
            }
        }
        if sc.prop.is_empty() {
            return None;
        }
        Some(sc)
    }
}
