//! The properties: for each, how a run's workload and faults are drawn, and the oracle that judges
//! what happened.

use crate::gen::*;
use crate::item::*;
use crate::model::{self, ModelOut, Outcome, Phase, EK};
use crate::rng::Rng;
use crate::scenario::*;
use crate::sched;
use crate::volume;
use crate::world::*;
use std::borrow::Cow;

#[derive(Clone, Debug, PartialEq)]
pub struct Verdict {
    /// Kind of violation; the minimiser keeps it.
    pub class: String,
    pub msg: String,
}

pub(crate) fn bad(class: &str, msg: String) -> Option<Verdict> {
    Some(Verdict { class: class.into(), msg })
}

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C16", "C17", "C18", "C19", "C24",
];

fn one(s: Session, pause: Pause) -> Vec<Conn> {
    vec![Conn { sessions: vec![s], pause }]
}

/// Now and then the parser is re-used very often before the last session.
fn often(r: &mut Rng, v: &mut Vec<Session>) {
    if r.one_in(600) && v.len() > 1 && v.iter().all(|s| s.stream.len() < 100) {
        let mut last = v.pop().unwrap();
        if last.start == Start::Fresh {
            last.start = Start::Reset;
        }
        let n = if r.one_in(40) { 65_540 } else { *r.pick(&[10, 260, 516]) };
        let n = n + r.below(3);
        for i in 1..n {
            let mut s = v[(i - 1) % v.len().min(3)].clone();
            if s.start == Start::Fresh {
                s.start = Start::Reset;
            }
            s.spins = 0;
            v.push(s);
        }
        v.push(last);
    }
}

/// Bytes of something else behind a finished message.
fn tail(r: &mut Rng, s: &mut Session) {
    if r.one_in(3) {
        let n = r.range(1, 40);
        let t = if r.pct(50) {
            let t = b"GET / HTTP/1.1\r\n\r\n=&%41--\r\n";
            t[..n.min(t.len())].to_vec()
        } else {
            any_bytes(r, n)
        };
        s.stream.extend(t);
    }
}

/// Now and then hundreds of connections, rarely tens of thousands, are open at the same time.
fn crowd(r: &mut Rng, sc: &mut Scenario) {
    let n = match r.below(24_000) {
        0 => 65_530,
        i if i < 40 => *r.pick(&[60, 125, 250, 510, 1020]),
        _ => return,
    };
    let kinds = sc.conns.clone();
    if kinds.iter().flat_map(|c| &c.sessions).any(|s| s.stream.len() > 150 || s.spins > 0) {
        return;
    }
    for _ in 0..n + r.below(20) {
        let mut c = r.pick(&kinds).clone();
        if n > 60_000 {
            c.sessions.truncate(1);
        }
        sc.conns.push(c);
    }
}

/// Draws workload and application behaviour of one run (everything but the schedule).
pub fn workload(prop: &str, r: &mut Rng, reach: &mut Reach) -> Scenario {
    let mut sc = Scenario::blank(prop);
    let sw = swarm(r);
    let bulk: &[Mode] = match prop {
        "C01" => &[Mode::Chunked, Mode::Multipart],
        "C02" | "C03" => &[Mode::Chunked, Mode::Multipart, Mode::H2],
        "C05" => &[Mode::Chunked],
        "C06" => &[Mode::Multipart],
        "C08" | "C18" | "C19" => &[Mode::H2],
        _ => &[],
    };
    if !bulk.is_empty() && r.one_in(400) {
        let (c, b) = volume::draw(r, bulk, reach);
        sc.conns = vec![c];
        sc.bulk = Some(b);
        return sc;
    }
    match prop {
        "C01" => {
            let s = if r.one_in(8) {
                let mut s = pipeline(r, &sw).0;
                s.phases.retain(|p| *p != Phase::H2);
                if r.pct(50) {
                    corrupt(r, &mut s.stream, reach);
                }
                s
            } else {
                let m = any_h1(r);
                anything(r, &sw, m, reach)
            };
            sc.conns = one(s, Pause::none());
        }
        "C02" => {
            let m = any_mode(r);
            let s = if r.one_in(10) { pipeline(r, &sw).0 } else { anything(r, &sw, m, reach) };
            sc.conns = one(s, pause(r));
        }
        "C03" => {
            let p = maybe_pause(r, 50);
            let n = *r.pick(&[1, 1, 2, 3]);
            let h2 = r.one_in(5);
            let mut v = vec![];
            for i in 0..n {
                let mut s = if !h2 && r.one_in(4) {
                    pipeline(r, &sw).0
                } else {
                    let m = if h2 { Mode::H2 } else { any_h1(r) };
                    if r.pct(50) {
                        let mut s = well_formed(r, &sw, m).0;
                        if m != Mode::H2 {
                            tail(r, &mut s);
                        }
                        s
                    } else {
                        anything(r, &sw, m, reach)
                    }
                };
                if i > 0 {
                    s.start = if r.pct(50) { Start::Init } else { Start::Reset };
                }
                v.push(s);
            }
            often(r, &mut v);
            sc.conns = vec![Conn { sessions: v, pause: p }];
        }
        "C04" | "C05" | "C06" | "C07" | "C08" => {
            let m = match prop {
                "C04" => Mode::Head,
                "C05" => Mode::Chunked,
                "C06" => Mode::Multipart,
                "C07" => Mode::Url,
                _ => Mode::H2,
            };
            let mut s = well_formed(r, &sw, m).0;
            if m == Mode::Chunked && r.one_in(12) {
                // a chunk of any length up to eight digits, of which only the start arrives
                let mut b = format!("{:x}", r.next() as u32 >> r.below(32)).into_bytes();
                if b[0] == b'0' {
                    b[0] = b'8';
                }
                b.extend_from_slice(if r.pct(50) { b"\r\n" } else { b";x\r\n" });
                let n = r.below(50);
                b.extend(any_bytes(r, n));
                s.stream = b;
                reach.faults[F_CUT] += 1;
            }
            if m == Mode::H2 && r.one_in(20) {
                // a frame of any length, of which only the start arrives
                let l = (r.next() as u32 >> r.below(24)) & 0xFF_FFFF;
                s.stream.extend_from_slice(&l.to_be_bytes()[1..]);
                s.stream.push(*r.pick(&[0, 1, 9, 10, 200]));
                s.stream.extend_from_slice(&[0, 0, 0, 0, 1]);
                let n = r.below(60);
                s.stream.extend(any_bytes(r, n.min(l as usize)));
                reach.faults[F_CUT] += 1;
            }
            if matches!(m, Mode::Multipart | Mode::Url) {
                // what counts is what the application says
                lie(r, &mut s, reach, 8);
            }
            if m != Mode::H2 {
                tail(r, &mut s);
            }
            let p = maybe_pause(r, 40);
            sc.conns = one(s, p);
        }
        "C09" => {
            let m = any_h1(r);
            let mut s = if r.one_in(10) { pipeline(r, &sw).0 } else { anything(r, &sw, m, reach) };
            if r.one_in(4) {
                corrupt(r, &mut s.stream, reach);
            }
            s.phases.retain(|p| *p != Phase::H2);
            let p = maybe_pause(r, 25);
            sc.conns = one(s, p);
        }
        "C10" => {
            sc.keep_calling = true;
            let mut v = vec![];
            for i in 0..r.range(1, 2) {
                let m = any_mode(r);
                let mut s = if r.one_in(6) { pipeline(r, &sw).0 } else { anything(r, &sw, m, reach) };
                if r.pct(50) {
                    let n = r.range(1, 30);
                    s.stream.extend(any_bytes(r, n));
                }
                if i > 0 && s.start == Start::Fresh {
                    s.start = Start::Reset;
                }
                v.push(s);
            }
            let p = maybe_pause(r, 30);
            sc.conns = vec![Conn { sessions: v, pause: p }];
        }
        "C11" => {
            let h2 = r.one_in(4);
            let same = r.one_in(3);
            let m0 = any_h1(r);
            let n = r.range(2, 4);
            let mut v: Vec<Session> = vec![];
            for i in 0..n {
                let m = if h2 {
                    Mode::H2
                } else if same {
                    m0
                } else {
                    any_h1(r)
                };
                let mut s = if i + 1 == n && r.pct(50) {
                    well_formed(r, &sw, m).0
                } else if !h2 && r.one_in(8) {
                    let mut s = pipeline(r, &sw).0;
                    s.phases.retain(|p| *p != Phase::H2);
                    s
                } else {
                    anything(r, &sw, m, reach)
                };
                s.start = match (i, r.below(2)) {
                    (0, 0) => Start::Fresh,
                    (_, 0) => Start::Init,
                    _ => Start::Reset,
                };
                if i + 1 < n {
                    may_fail(r, &mut s, 12);
                }
                v.push(s);
            }
            for s in v[1..].iter_mut().filter(|s| s.start != Start::Fresh) {
                if r.one_in(60) {
                    s.spins = (1 << *r.pick(&[4, 8, 8, 16, 16])) - r.below(9) as u32;
                }
            }
            often(r, &mut v);
            let p = maybe_pause(r, 30);
            sc.conns = vec![Conn { sessions: v, pause: p }];
        }
        "C12" => {
            let n = *r.pick(&[1, 1, 2, 3]);
            let mut v = vec![];
            for i in 0..n {
                let m = any_mode(r);
                let mut s = match r.below(4) {
                    0 => {
                        let mut s = well_formed(r, &sw, m).0;
                        let n = r.below(200);
                        s.stream = any_bytes(r, n);
                        reach.faults[F_GARBAGE] += 1;
                        s
                    }
                    1 => pipeline(r, &sw).0,
                    _ => anything(r, &sw, m, reach),
                };
                if r.pct(40) {
                    corrupt(r, &mut s.stream, reach);
                }
                lie(r, &mut s, reach, 3);
                for p in s.phases.iter_mut() {
                    if r.one_in(10) {
                        let huge = *r.pick(&[usize::MAX, usize::MAX / 2, 1 << 32, (1 << 32) - 1, 1 << 31]);
                        match p {
                            Phase::Url { len } => *len = huge,
                            Phase::Multipart { clens, .. } => *clens = vec![Some(huge)],
                            _ => {}
                        }
                    }
                }
                if i > 0 {
                    s.start = if r.pct(50) { Start::Init } else { Start::Reset };
                } else if matches!(s.phases[0], Phase::Head) && r.pct(50) {
                    s.start = Start::Fresh;
                }
                may_fail(r, &mut s, 4);
                v.push(s);
            }
            sc.keep_calling = r.pct(30);
            let p = maybe_pause(r, 40);
            sc.conns = vec![Conn { sessions: v, pause: p }];
        }
        "C13" => {
            let s = pipeline(r, &sw).0;
            let p = maybe_pause(r, 40);
            sc.conns = one(s, p);
        }
        "C14" => {
            let sw = Swarm { size: sw.size.min(60), headers: sw.headers.min(6), ..sw };
            for _ in 0..r.range(2, 5) {
                let mut v = vec![];
                for i in 0..*r.pick(&[1, 1, 2, 3]) {
                    let m = any_mode(r);
                    let mut s =
                        if r.one_in(4) { pipeline(r, &sw).0 } else { anything(r, &sw, m, reach) };
                    if i > 0 {
                        s.start = match r.below(3) {
                            0 => Start::Fresh,
                            1 => Start::Init,
                            _ => Start::Reset,
                        };
                        if s.start == Start::Fresh && !matches!(s.phases[0], Phase::Head | Phase::H2) {
                            s.start = Start::Init;
                        }
                    }
                    may_fail(r, &mut s, 5);
                    v.push(s);
                }
                let p = maybe_pause(r, 40);
                sc.conns.push(Conn { sessions: v, pause: p });
            }
            sc.keep_calling = r.one_in(5);
            sc.threads = r.one_in(80);
            if !sc.threads {
                crowd(r, &mut sc);
            }
        }
        "C15" | "C16" => {
            let m = any_mode(r);
            let s = match r.below(5) {
                0 => pipeline(r, &sw).0,
                1 | 2 => well_formed(r, &sw, m).0,
                _ => anything(r, &sw, m, reach),
            };
            let p = maybe_pause(r, if prop == "C15" { 25 } else { 40 });
            sc.conns = one(s, p);
        }
        "C17" => {
            let m = any_mode(r);
            let s = match r.below(6) {
                0 => pipeline(r, &sw).0,
                1 => anything(r, &sw, m, reach),
                _ => well_formed(r, &sw, m).0,
            };
            let n = s.stream.len();
            // often shortly before something ends
            let mut k = r.below(n + 1);
            if r.pct(50) && n > 0 {
                let at = r.below(n);
                if let Some(d) = (at..n).find(|i| matches!(s.stream[*i], b'\r' | b'\n' | b'-')) {
                    k = (d + r.below(3)).min(n);
                }
            }
            if k < n {
                reach.faults[F_CUT] += 1;
            }
            sc.arg = k;
            let p = maybe_pause(r, 30);
            sc.conns = one(s, p);
        }
        "C18" => {
            let mut s = anything(r, &sw, Mode::H2, reach);
            if r.one_in(4) {
                let n = r.range(1, 120);
                s.stream = (0..n).map(|_| if r.pct(60) { r.below(12) as u8 } else { r.byte() }).collect();
                reach.faults[F_GARBAGE] += 1;
            }
            sc.conns = one(s, Pause::none());
        }
        "C19" => {
            let mut s = well_formed(r, &sw, Mode::H2).0;
            match r.below(4) {
                0 => {}
                1 => corrupt(r, &mut s.stream, reach),
                _ => {
                    s.stream = vec![];
                    for _ in 0..r.range(1, sw.frames + 1) {
                        frame_any(r, &sw, &mut s.stream);
                    }
                    reach.faults[F_GARBAGE] += 1;
                }
            }
            let p = maybe_pause(r, 30);
            sc.conns = one(s, p);
        }
        "C24" => {
            let n = *r.pick(&[1, 1, 1, 2]);
            let h2 = r.one_in(4);
            let mut v = vec![];
            for i in 0..n {
                let m = if h2 { Mode::H2 } else { any_h1(r) };
                let mut s = match r.below(6) {
                    0 if !h2 => pipeline(r, &sw).0,
                    1 => anything(r, &sw, m, reach),
                    _ => well_formed(r, &sw, m).0,
                };
                if r.pct(80) {
                    repeat(r, &mut s.stream);
                }
                if r.pct(20) {
                    corrupt(r, &mut s.stream, reach);
                }
                if i > 0 {
                    s.start = if r.pct(50) { Start::Init } else { Start::Reset };
                }
                v.push(s);
            }
            let p = maybe_pause(r, 30);
            sc.conns = vec![Conn { sessions: v, pause: p }];
        }
        _ => unreachable!(),
    }
    sc
}

/// Repeats some bytes of the stream many times: what costs little once may cost much in bulk.
fn repeat(r: &mut Rng, s: &mut Vec<u8>) {
    for _ in 0..r.range(1, 2) {
        if s.is_empty() {
            return;
        }
        let at = r.below(s.len());
        let n = *r.pick(&[1, 1, 2, 4, 8, 30]);
        let n = r.range(1, n).min(s.len() - at);
        let total = *r.pick(&[200, 1000, 5000, 5000, 20_000, 60_000]) / *r.pick(&[1, 2, 3]);
        let w = s[at..at + n].repeat(total / n);
        s.splice(at..at, w);
        if s.len() > 100_000 {
            return;
        }
    }
}

/// The scenario as executed: for C17 the stream is cut off.
pub fn executed(sc: &Scenario) -> Cow<'_, Scenario> {
    if sc.prop == "C17" && !sc.conns.is_empty() && !sc.conns[0].sessions.is_empty() {
        let mut e = sc.clone();
        let s = &mut e.conns[0].sessions[0].stream;
        s.truncate(sc.arg);
        Cow::Owned(e)
    } else {
        Cow::Borrowed(sc)
    }
}

/// One run: workload, live simulation, judgement.
pub fn run(prop: &str, r: &mut Rng, reach: &mut Reach) -> (Scenario, Vec<Vec<Trace>>, Option<Verdict>) {
    let mut sc = workload(prop, r, reach);
    let (ops, traces) = {
        let e = executed(&sc);
        sched::live::<Rec>(&e, r, reach)
    };
    sc.ops = ops;
    let v = judge(&sc, &traces, reach);
    (sc, traces, v)
}

/// Executes and judges a recorded scenario.
pub fn replay(sc: &Scenario, reach: &mut Reach) -> Option<Verdict> {
    if let Some(h) = &sc.history {
        return History::replay(&sc.prop, h, reach);
    }
    if sc.conns.is_empty() || sc.conns.iter().any(|c| c.sessions.is_empty()) {
        return None;
    }
    if sc.conns.iter().any(|c| c.sessions.iter().any(|s| s.phases.is_empty())) {
        return None;
    }
    let traces = {
        let e = executed(sc);
        play::<Rec>(&e, &e.ops, reach)
    };
    judge(sc, &traces, reach)
}

/// Fixed runs, repeated again and again in the life of one process: whatever has been parsed in the
/// meantime, they go as they went at the start. (State outside the parsers would show here even if
/// it changes once and for all, so that no comparison within a later run can notice.)
pub struct Probes(Vec<u64>, u64);

impl Probes {
    const RUNS: u64 = 60;

    fn hashes() -> Vec<u64> {
        let mut reach = Reach::new();
        (0..Probes::RUNS)
            .map(|i| {
                crate::tick();
                let (_, ts, v) = run("C14", &mut crate::run_rng("C14 probe", 0, i), &mut reach);
                crate::trace_hash(&ts) ^ v.is_some() as u64
            })
            .collect()
    }

    pub fn new(prop: &str) -> Option<Probes> {
        if prop == "C14" {
            Some(Probes(Probes::hashes(), 0))
        } else {
            None
        }
    }

    /// To be called after each run.
    pub fn after(&mut self, last: bool) -> Option<Verdict> {
        self.1 += 1;
        if !last && !(self.1.is_power_of_two() && self.1 >= 64) {
            return None;
        }
        let h = Probes::hashes();
        let i = h.iter().zip(&self.0).position(|(a, b)| a != b)?;
        bad(
            "history",
            format!("after {} runs in one process, fixed run {} no longer goes as it went at first", self.1, i),
        )
    }
}

impl History {
    fn replay(prop: &str, h: &History, reach: &mut Reach) -> Option<Verdict> {
        let mut probes = Probes::new(prop);
        for k in 0..h.count {
            crate::tick();
            let idx = h.from + k * h.stride;
            let (_, _, v) = run(prop, &mut crate::run_rng(prop, h.seed, idx), reach);
            let last = k + 1 == h.count;
            if v.is_some() && last {
                return v;
            }
            if let Some(v) = probes.as_mut().and_then(|p| p.after(last)) {
                return Some(v);
            }
        }
        None
    }
}

// ---------------------------------------------------------------------------------------------
// oracles

/// The same connection without pauses, its stream delivered at once.
fn at_once(sc: &Scenario, reach: &mut Reach) -> Trace {
    let c = &sc.conns[0];
    let s = Scenario {
        conns: vec![Conn { sessions: c.sessions[..1].to_vec(), pause: Pause::none() }],
        ops: vec![],
        drain: true,
        keep_calling: false,
        ..Scenario::blank(&sc.prop)
    };
    play::<Rec>(&s, &s.ops, reach).pop().unwrap().pop().unwrap()
}

/// The same connection without pauses, one byte at a time.
fn bytewise(sc: &Scenario, reach: &mut Reach) -> Trace {
    let c = &sc.conns[0];
    let mut ops = vec![];
    for i in 0..c.sessions[0].stream.len() {
        ops.push(Op { t: i as u64, c: 0, a: Act::Arrive(1) });
        ops.push(Op { t: i as u64, c: 0, a: Act::Poll(u32::MAX) });
    }
    let s = Scenario {
        conns: vec![Conn { sessions: c.sessions[..1].to_vec(), pause: Pause::none() }],
        ops: vec![],
        drain: true,
        keep_calling: false,
        ..Scenario::blank(&sc.prop)
    };
    play::<Rec>(&s, &ops, reach).pop().unwrap().pop().unwrap()
}

fn at(items: &[Item], i: usize) -> String {
    // a little context before the place
    let mut a = i.min(items.len());
    let mut n = 0;
    while a > 0 && n < 12 {
        a -= 1;
        n += 1;
    }
    let b = (i + 6).min(items.len());
    let s = show(&items[a..b]);
    format!("{}{}{}", if a > 0 { "... " } else { "" }, s, if b < items.len() { " ..." } else { "" })
}

fn mismatch(a: &[Item], b: &[Item]) -> Option<usize> {
    let n = a.len().min(b.len());
    for i in 0..n {
        if a[i] != b[i] {
            return Some(i);
        }
    }
    if a.len() == b.len() {
        None
    } else {
        Some(n)
    }
}

/// True if `a` and `b` agree but for the unfinished last token.
fn same_but_tail(a: &[Item], b: &[Item]) -> bool {
    let (s, l) = if a.len() <= b.len() { (a, b) } else { (b, a) };
    if s != &l[..s.len()] {
        return false;
    }
    let rest = &l[s.len()..];
    rest.is_empty() || (is_data(rest[0].k) && rest.iter().all(|i| i.k == rest[0].k))
}

fn show_end(e: &End) -> String {
    match e {
        End::Err { phase, kind, byte, pos, .. } => {
            format!("error {:?}({:#04x}) in phase {} after {} bytes", kind, byte, phase, pos)
        }
        e => format!("{:?}", e),
    }
}

/// Compares two executions of the same stream. `exact`: positions of errors included.
fn differ(a: &Trace, b: &Trace, an: &str, bn: &str, err_pos: bool) -> Option<Verdict> {
    let same_end = match (&a.end, &b.end) {
        (
            End::Err { phase: p1, kind: k1, byte: b1, pos: o1, .. },
            End::Err { phase: p2, kind: k2, byte: b2, pos: o2, .. },
        ) => p1 == p2 && k1 == k2 && b1 == b2 && (!err_pos || o1 == o2),
        (x, y) => x == y,
    };
    let both_err = matches!((&a.end, &b.end), (End::Err { .. }, End::Err { .. }));
    let same_items = if both_err { same_but_tail(&a.items, &b.items) } else { a.items == b.items };
    if !same_items {
        let i = mismatch(&a.items, &b.items).unwrap_or(0);
        return bad(
            "callbacks",
            format!("{}: {} | {}: {}", an, at(&a.items, i), bn, at(&b.items, i)),
        );
    }
    if !same_end {
        return bad("outcome", format!("{}: {} | {}: {}", an, show_end(&a.end), bn, show_end(&b.end)));
    }
    if a.fins != b.fins {
        return bad("finish position", format!("{}: {:?} | {}: {:?}", an, a.fins, bn, b.fins));
    }
    None
}

fn model_of(s: &Session) -> ModelOut {
    model::run(&s.phases, s.start == Start::Fresh, &s.stream)
}

/// Compares an execution with a model outcome that is not an error.
fn against_model(t: &Trace, m: &ModelOut, stream_len: usize) -> Option<Verdict> {
    if let End::Panic(p) = &t.end {
        return bad("panic", p.clone());
    }
    if let Some(i) = mismatch(&t.items, &m.items) {
        return bad(
            "callbacks",
            format!("handler got: {} | expected: {}", at(&t.items, i), at(&m.items, i)),
        );
    }
    let want = match m.outcome {
        Outcome::Done(p) => End::Done(p),
        Outcome::Pending(ph) => End::Pending { phase: ph, pos: stream_len },
        Outcome::Err { .. } => return None,
    };
    if t.end != want {
        return bad("outcome", format!("{} | expected: {}", show_end(&t.end), show_end(&want)));
    }
    let fins: Vec<usize> = m
        .phases
        .iter()
        .zip(0..)
        .filter_map(|(p, _)| p.end.map(|e| e.0))
        .collect();
    // every phase end but those of raw phases is reported; compare the ones that were
    if t.fins.iter().any(|f| !fins.contains(f)) {
        return bad("finish position", format!("{:?} | expected: {:?}", t.fins, fins));
    }
    None
}

fn no_answers(sc: &Scenario) -> bool {
    sc.conns.iter().all(|c| {
        c.sessions.iter().all(|s| {
            s.phases.iter().all(|p| match p {
                Phase::Multipart { clens, .. } => clens.iter().all(|c| c.is_none()),
                _ => true,
            })
        })
    })
}

fn crashed(traces: &[Vec<Trace>]) -> Option<Verdict> {
    for t in traces.iter().flatten() {
        if let End::Panic(m) = &t.end {
            return bad("panic", m.clone());
        }
        for c in t.post.iter() {
            if c.ret == Ret::Panic {
                return bad("panic", "in a call after failure or completion".into());
            }
        }
    }
    None
}

pub fn judge(sc: &Scenario, traces: &[Vec<Trace>], reach: &mut Reach) -> Option<Verdict> {
    crate::tick();
    if let Some(b) = &sc.bulk {
        return volume::judge(sc, b, reach);
    }
    let t = &traces[0][0];
    let s = &sc.conns[0].sessions[0];
    match sc.prop.as_str() {
        "C01" | "C18" => {
            let pos = sc.prop == "C18";
            let a = at_once(sc, reach);
            if let Some(v) = differ(t, &a, "this schedule", "in one slice", pos) {
                return Some(v);
            }
            if s.stream.len() <= 6000 {
                let b = bytewise(sc, reach);
                return differ(&b, &a, "byte by byte", "in one slice", pos);
            }
            None
        }
        "C02" => {
            for c in &t.calls {
                if c.stop && !matches!(c.ret, Ret::Cb(_)) {
                    return bad("stop ignored", format!("a callback asked to stop, but resume() returned {:?}", c.ret));
                }
                if c.after_stop > 0 {
                    return bad("stop ignored", format!("{} callbacks after one had asked to stop", c.after_stop));
                }
                if !c.stop && matches!(c.ret, Ret::Cb(_)) {
                    return bad("unasked stop", format!("{:?} although no callback asked to stop", c.ret));
                }
            }
            let a = at_once(sc, reach);
            let mut free = sc.clone();
            free.conns[0].pause = Pause::none();
            let u = play::<Rec>(&free, &free.ops, reach).pop().unwrap().remove(0);
            for c in &u.calls {
                if matches!(c.ret, Ret::Cb(_)) {
                    return bad("unasked stop", format!("{:?} although no callback asked to stop", c.ret));
                }
            }
            if s.stream.len() % 4 == 0 && s.stream.len() < 3000 {
                // a callback left to its default does not ask to stop
                let d = play::<Nul>(&free, &free.ops, reach).pop().unwrap().remove(0);
                if let Some(c) = d.calls.iter().find(|c| matches!(c.ret, Ret::Cb(_))) {
                    return bad("unasked stop", format!("{:?} although all callbacks are left to their defaults", c.ret));
                }
            }
            if differ(&u, &a, "", "", false).is_some() {
                // depends on the slices alone: not this property's business
                return None;
            }
            differ(t, &a, "with pauses", "uninterrupted", false)
        }
        "C24" => {
            for (se, t) in sc.conns[0].sessions.iter().zip(&traces[0]) {
                if let Some(v) = cheap(se, t) {
                    return Some(v);
                }
            }
            None
        }
        "C03" => {
            for (se, t) in sc.conns[0].sessions.iter().zip(&traces[0]) {
                if let Some(v) = accounting(se, t) {
                    return Some(v);
                }
            }
            None
        }
        "C04" | "C05" | "C06" | "C07" | "C08" => {
            let m = model_of(s);
            if m.limit.is_some() && s.phases[0] == Phase::H2 {
                return as_recorded(&sc.prop, s, t).err();
            }
            if matches!(m.outcome, Outcome::Err { .. }) || m.limit.is_some() {
                return None;
            }
            if let Some(v) = against_model(t, &m, s.stream.len()) {
                return Some(v);
            }
            let n = s.stream.len();
            let a = at_once(sc, reach);
            if let Some(mut v) = against_model(&a, &m, n) {
                v.msg = format!("in one slice: {}", v.msg);
                return Some(v);
            }
            if n <= 3000 {
                let b = bytewise(sc, reach);
                if let Some(mut v) = against_model(&b, &m, n) {
                    v.msg = format!("byte by byte: {}", v.msg);
                    return Some(v);
                }
            }
            if no_answers(sc) && n <= 3000 {
                // an application that leaves every callback to its default
                let d = play::<Nul>(sc, &sc.ops, reach).pop().unwrap().remove(0);
                if d.end != t.end {
                    return bad(
                        "default callbacks",
                        format!("{} | expected: {}", show_end(&d.end), show_end(&t.end)),
                    );
                }
            }
            None
        }
        "C13" => {
            let m = model_of(s);
            if matches!(m.outcome, Outcome::Err { .. }) || m.limit.is_some() {
                return None;
            }
            against_model(t, &m, s.stream.len())
        }
        "C09" => rejected(s, t),
        "C10" => {
            for t in &traces[0] {
                if let Some(v) = latched(t) {
                    return Some(v);
                }
            }
            None
        }
        "C11" => {
            let se = &sc.conns[0].sessions;
            // where each session's decisions start
            let mut from = vec![0];
            for (i, o) in sc.ops.iter().enumerate() {
                if o.a == Act::Next && from.len() < se.len() {
                    from.push(i + 1);
                }
            }
            let mut fresh = Scenario { conns: vec![], ops: vec![], ..sc.clone() };
            for i in se.len().saturating_sub(12).max(1)..se.len() {
                // what is not decided by then is played out in the end
                let drained = from.len() <= i + 1;
                let to = from.get(i + 1).map_or(sc.ops.len(), |n| n - 1);
                let from = from.get(i).copied().unwrap_or(sc.ops.len());
                let mut l = se[i].clone();
                l.start = if l.phases[0] == Phase::H2 { Start::Fresh } else { Start::Init };
                l.spins = 0;
                fresh.conns = vec![Conn { sessions: vec![l], pause: sc.conns[0].pause.clone() }];
                fresh.drain = sc.drain && drained;
                let f = play::<Rec>(&fresh, &sc.ops[from..to], reach).pop().unwrap().remove(0);
                if let Some(v) = exactly(&traces[0][i], &f, "re-used parser", "fresh parser") {
                    return Some(v);
                }
            }
            None
        }
        "C12" => {
            for t in traces.iter().flatten() {
                match &t.end {
                    End::Panic(m) => return bad("panic", m.clone()),
                    End::Broken(m) => return bad("no progress", m.clone()),
                    _ => {}
                }
            }
            if let Some(v) = crashed(traces) {
                return Some(v);
            }
            for (c, ts) in sc.conns.iter().zip(traces) {
                for (s, t) in c.sessions.iter().zip(ts) {
                    if t.data_bytes > 2 * s.stream.len() as u64 + 64 {
                        return bad(
                            "amplification",
                            format!("{} bytes delivered for {} received", t.data_bytes, s.stream.len()),
                        );
                    }
                }
            }
            None
        }
        "C14" => {
            let mut own: Vec<Vec<Op>> = vec![vec![]; sc.conns.len()];
            for o in &sc.ops {
                if let Some(v) = own.get_mut(o.c as usize) {
                    v.push(Op { c: 0, ..*o });
                }
            }
            for (i, (c, ops)) in sc.conns.iter().zip(own).enumerate() {
                let alone = Scenario {
                    conns: vec![c.clone()],
                    drain: sc.drain,
                    keep_calling: sc.keep_calling,
                    ..Scenario::blank(&sc.prop)
                };
                let a = play::<Rec>(&alone, &ops, reach).pop().unwrap();
                for (x, y) in traces[i].iter().zip(&a) {
                    if let Some(mut v) = exactly(x, y, "among others", "alone") {
                        v.msg = format!("connection {}: {}", i, v.msg);
                        return Some(v);
                    }
                }
            }
            None
        }
        "C15" => prompt(s, t),
        "C16" => ordered(s, t),
        "C17" => cut_short(sc, s, t, reach),
        "C19" => framed(sc, s, t),
        _ => None,
    }
}

/// A callback of this session may unwind.
fn may_fail(r: &mut Rng, s: &mut Session, pct: usize) {
    if r.pct(pct) {
        let n = *r.pick(&[4, 12, 40]);
        s.fail = Some(r.below(n) as u32);
    }
}

/// Equality of everything observable: results, pieces, states, counts.
fn exactly(a: &Trace, b: &Trace, an: &str, bn: &str) -> Option<Verdict> {
    if let Some(i) = mismatch(&a.items, &b.items) {
        return bad(
            "callbacks",
            format!("{}: {} | {}: {}", an, at(&a.items, i), bn, at(&b.items, i)),
        );
    }
    if a.born != b.born {
        return bad("state", format!("state() where phases begin: {}: {:?} | {}: {:?}", an, a.born, bn, b.born));
    }
    for (x, y) in a.calls.iter().zip(&b.calls).chain(a.post.iter().zip(&b.post)) {
        if x != y {
            return bad("results", format!("{}: {:?} | {}: {:?}", an, x, bn, y));
        }
    }
    if a.calls.len() != b.calls.len() || a.post.len() != b.post.len() {
        return bad("results", format!("{}: {} calls | {}: {} calls", an, a.calls.len(), bn, b.calls.len()));
    }
    let same = match (&a.end, &b.end) {
        (End::Panic(_), End::Panic(_)) | (End::Failed, End::Failed) => true,
        (x, y) => x == y,
    };
    if !same {
        return bad("outcome", format!("{}: {} | {}: {}", an, show_end(&a.end), bn, show_end(&b.end)));
    }
    None
}

fn accounting(s: &Session, t: &Trace) -> Option<Verdict> {
    let m = model_of(s);
    for c in &t.calls {
        let h2 = s.phases.get(c.phase) == Some(&Phase::H2);
        if c.drift != 0 {
            return bad("byte count", format!("byte_count() changed by {} between calls", c.drift));
        }
        match c.ret {
            Ret::Eos(k) | Ret::Cb(k) | Ret::Fin(k) => {
                if k > c.len {
                    return bad("over-consumed", format!("{:?} for a slice of {} bytes", c.ret, c.len));
                }
                if matches!(c.ret, Ret::Eos(_)) && k != c.len {
                    return bad("early eos", format!("{:?} for a slice of {} bytes", c.ret, c.len));
                }
                if c.counted != k as u64 {
                    return bad(
                        "byte count",
                        format!("{:?}, but byte_count() grew by {}", c.ret, c.counted as i64),
                    );
                }
                if let Ret::Fin(k) = c.ret {
                    if let Some(p) = m.phases.get(c.phase) {
                        let e = p.end.map(|e| e.0);
                        if e != Some(c.at + k) {
                            return bad(
                                "finish position",
                                format!("finished at offset {}, the message ends at {:?}", c.at + k, e),
                            );
                        }
                    }
                }
            }
            Ret::Err(kind, byte) => {
                if let Outcome::Err { phase, kind: mk, byte: mb, off } = m.outcome {
                    if !h2 && phase == c.phase && kind == mk && byte == mb && off > c.at
                        && off <= c.at + c.len
                        && c.at as u64 + c.counted != off as u64
                    {
                        return bad(
                            "byte count",
                            format!(
                                "the offending byte is byte {} of the slice, but byte_count() grew by {}",
                                off - c.at, c.counted as i64
                            ),
                        );
                    }
                }
                if c.counted > c.len as u64 {
                    return bad(
                        "byte count",
                        format!("byte_count() grew by {} for a slice of {} bytes", c.counted as i64, c.len),
                    );
                }
            }
            Ret::Panic | Ret::Failed => {}
        }
    }
    // a message whose last byte was consumed without pausing is finished there, wherever it was cut
    if let (End::Pending { phase, pos }, Outcome::Done(e)) = (&t.end, m.outcome) {
        if *pos > e || *phase > m.phases.len() {
            return bad("finish position", format!("consumed {} bytes of a message of {}", pos, e));
        }
    }
    None
}

fn rejected(s: &Session, t: &Trace) -> Option<Verdict> {
    let m = model_of(s);
    match m.outcome {
        Outcome::Err { phase, kind, byte, off } => {
            // nothing at or after the offending byte reaches the handler
            let n = t.items.len().min(m.items.len());
            if t.items.len() > m.items.len() || t.items[..n] != m.items[..n] {
                let i = mismatch(&t.items, &m.items).unwrap_or(0);
                return bad(
                    "accepted",
                    format!(
                        "handler got: {} | the stream is good only up to: {} (offset {})",
                        at(&t.items, i), at(&m.items, i), off
                    ),
                );
            }
            match &t.end {
                End::Err { phase: p, kind: k, byte: b, lo, hi, .. } => {
                    if *p != phase || *k != kind || *b != byte {
                        return bad(
                            "wrong error",
                            format!(
                                "{} | expected: error {:?}({:#04x}) in phase {} at offset {}",
                                show_end(&t.end), kind, byte, phase, off
                            ),
                        );
                    }
                    if off <= *lo || off > *hi {
                        return bad(
                            "wrong place",
                            format!("error reported by the call given {}..{}, the offending byte is byte {}", lo, hi, off),
                        );
                    }
                    if t.items.len() + m.open_tail() < m.items.len() {
                        return bad(
                            "lost",
                            format!("handler got: {} | expected: {}", at(&t.items, t.items.len()), at(&m.items, t.items.len())),
                        );
                    }
                    None
                }
                e => bad(
                    "accepted",
                    format!(
                        "{} | expected: error {:?}({:#04x}) in phase {} at offset {}",
                        show_end(e), kind, byte, phase, off
                    ),
                ),
            }
        }
        _ => match &t.end {
            End::Err { .. } => bad("rejected", format!("{} | the stream is well-formed", show_end(&t.end))),
            End::Panic(p) => bad("panic", p.clone()),
            _ => None,
        },
    }
}

fn latched(t: &Trace) -> Option<Verdict> {
    for c in &t.calls {
        let want = match c.ret {
            Ret::Err(..) => Class::Dead,
            Ret::Fin(_) => Class::Finished,
            Ret::Eos(_) => Class::Other,
            _ => continue,
        };
        if c.class != want {
            return bad("state", format!("state() is {:?} after {:?}", c.class, c.ret));
        }
    }
    let last = match t.calls.last() {
        Some(c) => c,
        None => return None,
    };
    let (ret, class) = match t.end {
        End::Err { .. } => (Ret::Err(EK::Dead, 0), Class::Dead),
        End::Done(_) => (Ret::Fin(0), Class::Finished),
        _ => return None,
    };
    for c in &t.post {
        if c.ret != ret {
            return bad("not final", format!("{:?} after {}", c.ret, show_end(&t.end)));
        }
        if c.callbacks != last.callbacks {
            return bad("not final", format!("callback after {}", show_end(&t.end)));
        }
        if c.class != class {
            return bad("state", format!("state() is {:?} in a later call after {}", c.class, show_end(&t.end)));
        }
        if c.counted != 0 {
            return bad("not final", format!("{} bytes consumed after {}", c.counted as i64, show_end(&t.end)));
        }
    }
    None
}

fn prompt(s: &Session, t: &Trace) -> Option<Verdict> {
    let m = model_of(s);
    let limit = m.limit.unwrap_or(usize::MAX);
    let mut same = 0;
    for c in &t.calls {
        let (consumed, at_eos) = match c.ret {
            Ret::Eos(k) => (c.at + k, true),
            Ret::Fin(k) => (c.at + k, false),
            _ => continue,
        };
        if consumed >= limit {
            return None;
        }
        let got = c.items.min(m.items.len());
        if t.items[same..got] != m.items[same..got] || c.items > m.items.len() {
            // something else is wrong with what was delivered
            return None;
        }
        same = got;
        // what belongs to the next message is not yet asked for
        let own = m.phases.get(c.phase).and_then(|p| p.end).map_or(usize::MAX, |e| e.1);
        let due = m.decided(consumed).min(own);
        if c.items < due {
            return bad(
                "held back",
                format!(
                    "after {} bytes ({:?}) the handler had: {} | decided by then: {}",
                    consumed, c.ret, at(&t.items[..c.items], c.items), at(&m.items[..due], c.items)
                ),
            );
        }
        if at_eos {
            if let Some(p) = m.phases.get(c.phase) {
                if p.end.map_or(false, |e| e.0 <= consumed) {
                    return bad(
                        "finish held back",
                        format!("{:?} after {} bytes, although the message was complete", c.ret, consumed),
                    );
                }
            }
            if let Outcome::Err { phase, off, .. } = m.outcome {
                if phase == c.phase && off <= consumed {
                    return bad(
                        "error held back",
                        format!("{:?} after {} bytes, although byte {} was offending", c.ret, consumed, off),
                    );
                }
            }
        }
    }
    None
}

// ---------------------------------------------------------------------------------------------
// C16: protocol order

fn header_items(items: &[Item], i: &mut usize) -> bool {
    // consumes a header block; true if it was closed
    while *i < items.len() {
        match items[*i].k {
            HNAME | HVALUE | HVALUE_EMPTY => *i += 1,
            HEADERS_FIN => {
                *i += 1;
                return true;
            }
            _ => return false,
        }
    }
    false
}

fn run_of(items: &[Item], i: &mut usize, k: u8) -> usize {
    let a = *i;
    while *i < items.len() && items[*i].k == k {
        *i += 1;
    }
    *i - a
}

/// Checks one phase's callbacks; Err(index, why) at the first one out of order. Ok(complete).
fn phase_order(ph: &Phase, items: &[Item]) -> Result<bool, (usize, &'static str)> {
    let mut i = 0;
    let n = items.len();
    macro_rules! end {
        () => {
            if i == n {
                return Ok(false);
            }
        };
    }
    macro_rules! expect {
        ($k:expr, $why:expr) => {
            end!();
            if items[i].k != $k {
                return Err((i, $why));
            }
            i += 1;
        };
    }
    macro_rules! hdrs {
        () => {
            if !header_items(items, &mut i) {
                end!();
                return Err((i, "inside a header block"));
            }
        };
    }
    match ph {
        Phase::Head => {
            end!();
            if items[i].k == METHOD {
                run_of(items, &mut i, METHOD);
                end!();
                if run_of(items, &mut i, URL) == 0 {
                    return Err((i, "URL expected after the method"));
                }
                expect!(VERSION, "version expected after the URL");
                expect!(INITIAL_FIN, "end of the request line expected after the version");
            } else {
                expect!(VERSION, "method or version expected first");
                expect!(STATUS_CODE, "status code expected after the version");
                run_of(items, &mut i, STATUS);
                expect!(INITIAL_FIN, "end of the status line expected");
            }
            hdrs!();
        }
        Phase::Chunked => loop {
            expect!(CHUNK_BEGIN, "begin of a chunk expected");
            end!();
            if items[i].k != CHUNK_LEN {
                return Err((i, "chunk length expected"));
            }
            let len = items[i].v;
            i += 1;
            loop {
                end!();
                match items[i].k {
                    CEXT_NAME | CEXT_VALUE | CEXT_FIN => {
                        run_of(items, &mut i, CEXT_NAME);
                        run_of(items, &mut i, CEXT_VALUE);
                        expect!(CEXT_FIN, "end of an extension expected");
                    }
                    _ => break,
                }
            }
            if len > 0 || items[i].k == CEXTS_FIN {
                expect!(CEXTS_FIN, "end of the extensions expected");
            }
            if len > 0 {
                let a = i;
                while i < n && items[i].k == CHUNK_DATA && ((i - a) as u64) < len {
                    i += 1;
                }
                if (i - a) as u64 != len {
                    end!();
                    return Err((i, "fewer data bytes than the chunk announced"));
                }
            } else {
                hdrs!();
                expect!(BODY_FIN, "end of the body expected after the trailers");
                break;
            }
        },
        Phase::Multipart { clens, .. } => {
            let mut part = 0;
            loop {
                end!();
                if items[i].k == BODY_FIN {
                    i += 1;
                    break;
                }
                expect!(MP_BEGIN, "begin of a part expected");
                hdrs!();
                expect!(CLEN_QUERY, "content length query expected after the headers");
                let a = i;
                run_of(items, &mut i, MP_DATA);
                if let Some(Some(want)) = clens.get(part) {
                    if i - a > *want {
                        return Err((i, "more data bytes than the supplied length"));
                    }
                    if i < n && i - a != *want {
                        return Err((i, "fewer data bytes than the supplied length"));
                    }
                }
                part += 1;
            }
        }
        Phase::Url { .. } => loop {
            end!();
            if items[i].k == BODY_FIN {
                i += 1;
                break;
            }
            expect!(URL_BEGIN, "begin of a pair expected");
            run_of(items, &mut i, URL_NAME);
            run_of(items, &mut i, URL_VALUE);
        },
        Phase::Raw { .. } => {}
        Phase::H2 => loop {
            end!();
            if items[i].k != H2_FRAME {
                return Err((i, "frame format expected"));
            }
            let ty = (items[i].v >> 32) as u8;
            let len = (items[i].v >> 40) as usize;
            i += 1;
            end!();
            macro_rules! pieces {
                ($k:expr, $e:expr) => {
                    if run_of(items, &mut i, $k) > len {
                        return Err((i, "more payload bytes than the frame has"));
                    }
                    expect!($e, "final piece expected");
                };
            }
            match ty {
                model::F_DATA => {
                    pieces!(H2_DATA, H2_DATA_END);
                }
                model::F_HEADERS => {
                    expect!(H2_HEADERS, "headers callback expected");
                    pieces!(H2_FRAG, H2_FRAG_END);
                }
                model::F_PRIORITY => {
                    expect!(H2_PRIORITY, "priority callback expected");
                }
                model::F_RST => {
                    expect!(H2_RST, "reset callback expected");
                }
                model::F_SETTINGS => {
                    if run_of(items, &mut i, H2_SETTINGS) > len / 6 {
                        return Err((i, "more settings than the frame has"));
                    }
                    if i == n {
                        return Ok(false);
                    }
                    if len >= 6 && items[i - 1].k != H2_SETTINGS {
                        return Err((i, "settings callback expected"));
                    }
                }
                model::F_PUSH => {
                    expect!(H2_PUSH, "push promise callback expected");
                    pieces!(H2_FRAG, H2_FRAG_END);
                }
                model::F_PING => {
                    pieces!(H2_PING, H2_PING_END);
                }
                model::F_GOAWAY => {
                    expect!(H2_GOAWAY, "go away callback expected");
                    end!();
                    if items[i].k != H2_FRAME {
                        pieces!(H2_DEBUG, H2_DEBUG_END);
                    }
                }
                model::F_WINDOW => {
                    expect!(H2_WINDOW, "window update callback expected");
                }
                model::F_CONT => {
                    pieces!(H2_FRAG, H2_FRAG_END);
                }
                _ => {
                    pieces!(H2_UNSUP, H2_UNSUP_END);
                }
            }
        },
    }
    if i < n {
        return Err((i, "callback after the closing one"));
    }
    Ok(true)
}

fn ordered(s: &Session, t: &Trace) -> Option<Verdict> {
    let mut from = 0;
    let mut phase = 0;
    let mut parts: Vec<(usize, usize, usize, bool)> = vec![];
    for c in &t.calls {
        if matches!(c.ret, Ret::Fin(_)) {
            parts.push((c.phase, from, c.items, true));
            from = c.items;
            phase = c.phase + 1;
        } else {
            phase = phase.max(c.phase);
        }
    }
    if from < t.items.len() {
        parts.push((phase, from, t.items.len(), false));
    }
    for (ph, a, b, finished) in parts {
        let p = match s.phases.get(ph) {
            Some(p) => p,
            None => {
                return bad("order", format!("callback after the last message: {}", at(&t.items, a)));
            }
        };
        let items = &t.items[a..b];
        match phase_order(p, items) {
            Err((i, why)) => {
                return bad("order", format!("{} phase: {}: {}", p.name(), why, at(items, i)));
            }
            Ok(complete) => {
                if finished && !complete {
                    return bad("unclosed", format!("{} finished after: {}", p.name(), at(items, items.len())));
                }
            }
        }
        // header values belong to names, unless the stream itself has a value without one
        let mut model: Option<ModelOut> = None;
        let mut named = false;
        for (i, x) in items.iter().enumerate() {
            match x.k {
                HNAME => named = true,
                HVALUE | HVALUE_EMPTY if !named => {
                    let m = model.get_or_insert_with(|| model_of(s));
                    if m.items.get(a + i) != Some(x) {
                        return bad("order", format!("value before its name: {}", at(items, i)));
                    }
                    named = true;
                }
                HVALUE | HVALUE_EMPTY => {}
                _ => named = false,
            }
        }
    }
    None
}

// ---------------------------------------------------------------------------------------------
// C17: truncation

fn completes(k: u8) -> bool {
    !is_data(k)
        && !matches!(k, CHUNK_BEGIN | MP_BEGIN | URL_BEGIN | CLEN_QUERY | HVALUE_EMPTY | H2_FRAME)
}

fn cut_short(sc: &Scenario, s: &Session, t: &Trace, reach: &mut Reach) -> Option<Verdict> {
    let k = sc.arg;
    if let End::Panic(m) = &t.end {
        return bad("panic", m.clone());
    }
    let full = at_once(sc, reach);
    // what was delivered before the cut is what the whole stream would have delivered
    let n = t.items.len().min(full.items.len());
    let surplus = &t.items[n..];
    let partial = matches!(full.end, End::Err { .. })
        && !surplus.is_empty()
        && is_data(surplus[0].k)
        && surplus.iter().all(|i| i.k == surplus[0].k);
    if t.items[..n] != full.items[..n] || (!surplus.is_empty() && !partial) {
        let i = mismatch(&t.items, &full.items).unwrap_or(0);
        return bad(
            "not a prefix",
            format!("cut after {} bytes: {} | whole stream: {}", k, at(&t.items, i), at(&full.items, i)),
        );
    }
    let m = model_of(s);
    let limit = m.limit.unwrap_or(usize::MAX);
    let due = m.decided(k);
    let agree = t.items.iter().zip(&m.items).take_while(|(a, b)| a == b).count();
    if k < limit {
        for (i, x) in t.items.iter().enumerate().skip(due) {
            if completes(x.k) && (i < agree || !matches!(m.outcome, Outcome::Err { .. })) {
                return bad(
                    "looks complete",
                    format!("cut after {} bytes, yet reported: {}", k, at(&t.items, i)),
                );
            }
        }
        for c in &t.calls {
            if let (Ret::Fin(n), Some(p)) = (c.ret, m.phases.get(c.phase)) {
                if p.end.map_or(true, |e| e.0 > k) {
                    return bad(
                        "looks complete",
                        format!("cut after {} bytes, yet a message was reported finished at {}", k, c.at + n),
                    );
                }
            }
        }
    }
    None
}

// ---------------------------------------------------------------------------------------------
// C19: framing

fn framed(sc: &Scenario, s: &Session, t: &Trace) -> Option<Verdict> {
    if let End::Panic(m) = &t.end {
        return bad("panic", m.clone());
    }
    let m = model_of(s);
    let frames = |v: &[Item]| -> Vec<Item> { v.iter().filter(|i| i.k == H2_FRAME).cloned().collect() };
    let (real, want) = (frames(&t.items), frames(&m.items));
    let n = real.len().min(want.len());
    if let Some(i) = (0..n).find(|i| real[*i] != want[*i]) {
        return bad(
            "lost frame boundary",
            format!("frame {}: {} | expected: {}", i, show(&real[i..i + 1]), show(&want[i..i + 1])),
        );
    }
    if m.limit.is_some() {
        if real.len() < want.len() {
            return bad("lost frame boundary", format!("{} frames read, expected {}", real.len(), want.len()));
        }
        return as_recorded(&sc.prop, s, t).err();
    }
    match m.outcome {
        Outcome::Err { off, .. } => match &t.end {
            End::Err { hi, pos, .. } => {
                if real.len() != want.len() {
                    return bad("lost frame boundary", format!("{} frames read, expected {}", real.len(), want.len()));
                }
                // rejected within the offending frame
                let f = want.last().map_or(0, |f| (f.v >> 40) as usize);
                if *hi < off || *pos > off + f {
                    return bad("rejected late", format!("{} | the frame is bad from offset {}", show_end(&t.end), off));
                }
            }
            e => {
                return bad(
                    "bad frame accepted",
                    format!("{} | the frame that is bad at offset {} was not rejected", show_end(e), off),
                )
            }
        },
        _ => {
            if let End::Err { .. } = &t.end {
                return bad("good frame rejected", show_end(&t.end));
            }
            if real.len() != want.len() {
                return bad("lost frame boundary", format!("{} frames read, expected {}", real.len(), want.len()));
            }
        }
    }
    // no frame delivers more payload than it declares
    let mut left = 0;
    for (i, x) in t.items.iter().enumerate() {
        if x.k == H2_FRAME {
            left = x.v >> 40;
        } else if is_data(x.k) {
            if left == 0 {
                return bad("payload overrun", at(&t.items, i));
            }
            left -= 1;
        }
    }
    None
}

/// An HTTP/2 stream that runs into a recorded finding: it may fail as recorded (true), or not at
/// all (false). C19 looks at the frames only, C08 at everything.
fn as_recorded(prop: &str, s: &Session, t: &Trace) -> Result<bool, Verdict> {
    let keep = |v: &[Item]| -> Vec<Item> {
        v.iter().filter(|i| prop != "C19" || i.k == H2_FRAME).cloned().collect()
    };
    let m = model::h2_recorded(&s.stream);
    let same_end = match (m.outcome, &t.end) {
        (Outcome::Err { .. }, End::Err { .. }) => true,
        (Outcome::Pending(_), End::Pending { .. }) => true,
        _ => false,
    };
    let (real, recorded, want) = (keep(&t.items), keep(&m.items), keep(&model::h2_unlimited(&s.stream)));
    let same = if matches!(t.end, End::Err { .. }) {
        same_but_tail(&real, &recorded)
    } else {
        real == recorded
    };
    if same && same_end {
        return Ok(true);
    }
    let n = real.len().min(want.len());
    match t.end {
        // every frame kept apart, or the frame refused
        End::Pending { .. } if real == want => Ok(false),
        End::Err { .. } if real[..n] == want[..n] => Ok(false),
        _ => Err(Verdict {
            class: "another failure".into(),
            msg: format!(
                "a frame of a known finding fails in another way than recorded: {} | recorded: {}",
                show(&real), show(&recorded)
            ),
        }),
    }
}

/// A recorded finding: the scenario of its stream, what judging it gives, and whether it still
/// fails.
pub fn probe(prop: &str, stream: &[u8]) -> (Scenario, Option<Verdict>, bool) {
    let mut reach = Reach::new();
    let sc = Scenario {
        conns: one(
            Session { start: Start::Fresh, phases: vec![Phase::H2], stream: stream.to_vec(), fail: None, spins: 0 },
            Pause::none(),
        ),
        ..Scenario::blank(prop)
    };
    let t = play::<Rec>(&sc, &[], &mut reach).pop().unwrap().pop().unwrap();
    let fails = as_recorded(prop, &sc.conns[0].sessions[0], &t) == Ok(true);
    let v = judge(&sc, &[vec![t]], &mut reach);
    (sc, v, fails)
}

// ---------------------------------------------------------------------------------------------
// C24: cost

/// Allowances: many times what the tree needs (11 steps a byte, 40 a call, 400 bytes of stack, heap only for
/// a boundary that turns out not to be one), and far below what anything that grows would need.
const STEPS: (u64, u64) = (2000, 100);
const STACK: u64 = 64 << 10;
/// Pages of 4,096 bytes; one for every so many bytes.
const PAGES: (u64, u64) = (6, 1024);
const HEAP: (u64, u64) = (4096, 4);
const HEAP_TOTAL: (u64, u64) = (8192, 64);

fn cheap(s: &Session, t: &Trace) -> Option<Verdict> {
    let mut kept = 0i64;
    for (c, k) in t.calls.iter().zip(&t.costs) {
        let used = match c.ret {
            Ret::Eos(n) | Ret::Cb(n) | Ret::Fin(n) => n as u64,
            Ret::Err(..) => c.counted.min(c.len as u64),
            Ret::Panic | Ret::Failed => return None,
        };
        let boundary = match s.phases.get(c.phase) {
            Some(Phase::Multipart { boundary, .. }) => boundary.len() as u64,
            _ => 0,
        };
        let at = format!("call at byte {} with {} bytes, of which {} are consumed,", c.at, c.len, used);
        if k.steps > STEPS.0 + STEPS.1 * (used + boundary) {
            return bad("work", format!("{} takes {} steps", at, k.steps));
        }
        if k.pages.map_or(false, |p| p > PAGES.0 + used / PAGES.1) {
            return bad("read", format!("{} touches {} pages of the slice", at, k.pages.unwrap()));
        }
        if k.stack > STACK {
            return bad("stack", format!("{} needs {} bytes of stack", at, k.stack));
        }
        if k.peak > (HEAP.0 + HEAP.1 * boundary) as i64 {
            return bad("heap", format!("{} has up to {} bytes allocated", at, k.peak));
        }
        if k.total > HEAP_TOTAL.0 + HEAP_TOTAL.1 * used + HEAP.1 * boundary {
            return bad("heap", format!("{} allocates {} bytes in {} pieces", at, k.total, k.allocs));
        }
        kept += k.kept;
        if kept > (HEAP.0 + HEAP.1 * boundary) as i64 {
            return bad("kept", format!("after {} bytes the parser has kept {} bytes of heap", c.at + used as usize, kept));
        }
    }
    None
}
