//! The scheduler: a discrete-event simulation of the peers, the network and the event loop that
//! serves the connections. It decides how each stream is cut into segments, when they arrive, when
//! and how much the application reads, spurious wake-ups, how long a paused connection stays
//! paused, and when a connection is lost. Virtual time only; every choice comes from the run's
//! generator; every decision is recorded as an `Op`.

use crate::rng::Rng;
use crate::scenario::*;
use crate::world::*;
use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::BinaryHeap;
use std::fs::File;
use std::io::Write;

#[derive(Clone, Debug)]
enum Seg {
    One,
    Byte,
    Geometric(usize),
    Fixed(usize),
    /// Everything up to a single cut, then the rest.
    Cut(usize),
    /// After bytes that delimit something.
    Special(usize),
    /// Before bytes that delimit something.
    Before(usize),
    Mixed,
}

#[derive(Clone, Debug)]
struct Net {
    seg: Seg,
    gap: u64,
    stall: usize,
    read_max: usize,
    read_vary: bool,
    ready_delay: u64,
    resume_delay: u64,
    spurious: usize,
    linger: bool,
}

fn special(b: u8) -> bool {
    matches!(b, b'\r' | b'\n' | b' ' | b':' | b';' | b'=' | b'"' | b'\\' | b'-' | b'%' | b'&' | b'+' | b'/' | b'.')
        || b >= 0x80
}

/// A size that buffers have, now and then one off, and not too small for a stream of `len` bytes.
fn buffer(r: &mut Rng, len: usize) -> usize {
    let fit: Vec<usize> = (4..=17).map(|i| 1 << i).filter(|n| *n <= len + 1 && *n > len / 400).collect();
    match fit.last() {
        None => len.max(1),
        Some(n) => {
            let n = if r.one_in(3) { *n } else { *r.pick(&fit) };
            if r.one_in(4) { n + r.below(3) - 1 } else { n }
        }
    }
}

fn policy(r: &mut Rng, len: usize) -> Net {
    let big = len > 3000;
    let seg = match r.below(if big { 6 } else { 12 }) {
        0 => Seg::One,
        1 => Seg::Cut(if r.one_in(4) { buffer(r, len) } else { r.below(len.max(1)) + 1 }),
        2 => Seg::Fixed(if big { r.range(len / 400 + 1, len / 3 + 2) } else { r.range(1, 40) }),
        3 => Seg::Geometric(if big { r.range(len / 300 + 1, len / 4 + 2) } else { r.range(2, 60) }),
        4 => Seg::Fixed(if r.one_in(3) { buffer(r, len) } else if big { 1460 } else { *r.pick(&[4, 8, 9, 16, 24, 31]) }),
        5 => Seg::Cut(r.below(len.max(1)) + 1),
        6 | 7 => Seg::Byte,
        8 => Seg::Special(r.range(10, 100)),
        9 => Seg::Before(r.range(10, 100)),
        10 => Seg::Mixed,
        _ => Seg::Geometric(r.range(2, 8)),
    };
    let (read_max, read_vary) = match r.below(6) {
        0 if !big => (r.range(1, 8), false),
        1 if !big => (r.range(1, 30), true),
        2 => (r.range(len / 50 + 1, len + 1), r.pct(50)),
        3 => (buffer(r, len), false),
        _ => (usize::MAX, false),
    };
    Net {
        seg,
        gap: *r.pick(&[0, 10, 200, 5_000, 80_000]),
        stall: if r.one_in(4) { r.range(1, 10) } else { 0 },
        read_max,
        read_vary,
        ready_delay: *r.pick(&[0, 1, 50, 3_000, 200_000]),
        resume_delay: *r.pick(&[0, 20, 4_000, 2_000_000]),
        spurious: if r.one_in(3) { r.range(2, 40) } else { 0 },
        linger: r.one_in(3),
    }
}

fn segment(r: &mut Rng, seg: &Seg, stream: &[u8], from: usize) -> usize {
    let left = stream.len() - from;
    let n = match seg {
        Seg::One => left,
        Seg::Byte => 1,
        Seg::Geometric(m) => {
            let mut n = 1;
            let m = *m;
            while n < left && !r.one_in(m) {
                n += 1 + m / 64;
            }
            n
        }
        Seg::Fixed(n) => *n,
        Seg::Cut(at) => {
            if from < *at {
                at - from
            } else {
                left
            }
        }
        Seg::Special(p) => {
            let mut n = 1;
            while n < left && !(special(stream[from + n - 1]) && r.pct(*p)) {
                n += 1;
            }
            n
        }
        Seg::Before(p) => {
            let mut n = 1;
            while n < left && !(special(stream[from + n]) && r.pct(*p)) {
                n += 1;
            }
            n
        }
        Seg::Mixed => match r.below(4) {
            0 => 1,
            1 => r.range(1, 4),
            2 => r.range(1, 40),
            _ => left.min(r.range(1, 1 + left)),
        },
    };
    n.max(1).min(left)
}

#[derive(PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    Deliver,
    Ready,
    Wake,
}

thread_local! {
    /// Where decisions are also written as they are made, if anywhere.
    pub static SINK: RefCell<Option<File>> = RefCell::new(None);
}

fn sink(o: &Op) {
    SINK.with(|s| {
        if let Some(f) = s.borrow_mut().as_mut() {
            let _ = f.write_all(op_text(o).as_bytes());
        }
    });
}

/// Runs the scenario's connections under a schedule drawn from `r`; returns the recorded trace of
/// decisions and what happened.
pub fn live<T: Port>(sc: &Scenario, r: &mut Rng, reach: &mut Reach) -> (Vec<Op>, Vec<Vec<Trace>>) {
    let mut ops: Vec<Op> = vec![];
    let ops_max = sc.conns.iter().map(|c| 15 * c.sessions.len()).sum::<usize>().max(8000);
    let mut stalls = 0;
    let mut end_time = 0;
    let out;
    {
        let mut w: World<T> = World::new(sc, reach);
        let mut q: BinaryHeap<Reverse<(u64, u64, u32, Ev)>> = BinaryHeap::new();
        let mut seq = 0u64;
        let mut pol: Vec<Net> = vec![];
        let mut lose: Vec<usize> = vec![];
        macro_rules! push {
            ($t:expr, $c:expr, $e:expr) => {{
                seq += 1;
                q.push(Reverse(($t, seq, $c as u32, $e)));
            }};
        }
        let pick_loss = |r: &mut Rng, len: usize| match r.below(10) {
            0 => 0,
            1 => len,
            2 => usize::MAX,
            _ => r.below(len + 1),
        };
        for (i, c) in sc.conns.iter().enumerate() {
            let len = c.sessions[0].stream.len();
            pol.push(policy(r, len));
            lose.push(pick_loss(r, len));
            push!(r.below(2000) as u64, i, Ev::Deliver);
            if c.sessions[0].stream.is_empty() || pol[i].spurious > 0 && r.one_in(3) {
                push!(r.below(2000) as u64, i, Ev::Wake);
            }
        }
        while let Some(Reverse((t, _, c32, ev))) = q.pop() {
            let c = c32 as usize;
            if ops.len() >= ops_max {
                break;
            }
            end_time = t;
            let mut act = |w: &mut World<T>, a: Act| {
                ops.push(Op { t, c: c32, a });
                sink(ops.last().unwrap());
                w.apply(a, c)
            };
            match ev {
                Ev::Deliver => {
                    let left = w.left(c);
                    if left == 0 {
                        // nothing more to send; make sure it is read
                        push!(t + pol[c].ready_delay, c, Ev::Ready);
                        continue;
                    }
                    let n = segment(r, &pol[c].seg, w.stream(c), w.arrived(c));
                    act(&mut w, Act::Arrive(n as u32));
                    let d = if pol[c].ready_delay == 0 { 0 } else { r.below(pol[c].ready_delay as usize) };
                    push!(t + d as u64, c, Ev::Ready);
                    if left > n {
                        let mut d = if pol[c].gap == 0 { 0 } else { r.below(pol[c].gap as usize) as u64 };
                        if pol[c].stall > 0 && r.pct(pol[c].stall) {
                            d += 1_000_000 + r.below(60_000_000) as u64;
                            stalls += 1;
                        }
                        push!(t + d, c, Ev::Deliver);
                    }
                }
                Ev::Ready | Ev::Wake => {
                    let moved = if ev == Ev::Wake {
                        act(&mut w, Act::Spurious)
                    } else {
                        let p = &pol[c];
                        let max = if p.read_vary { r.range(1, p.read_max) } else { p.read_max };
                        act(&mut w, Act::Poll(max.min(u32::MAX as usize) as u32))
                    };
                    if !moved && ev == Ev::Ready {
                        ops.pop();
                    }
                    if !w.running(c) {
                        let more = w.session(c) + 1 < sc.conns[c].sessions.len();
                        // sometimes go on calling, or linger, before the connection is recycled
                        if more && !(pol[c].linger && r.pct(60)) {
                            ops.push(Op { t, c: c32, a: Act::Next });
                            sink(ops.last().unwrap());
                            w.apply(Act::Next, c);
                            let len = w.stream(c).len();
                            pol[c] = policy(r, len);
                            lose[c] = pick_loss(r, len);
                            push!(t + r.below(1000) as u64, c, Ev::Deliver);
                        } else if sc.keep_calling && r.pct(60) {
                            let d = r.below(3000) as u64;
                            push!(t + d, c, if r.pct(40) { Ev::Wake } else { Ev::Ready });
                        } else if more {
                            push!(t + 5, c, Ev::Ready);
                        }
                        continue;
                    }
                    let lost = w.session(c) + 1 < sc.conns[c].sessions.len() && w.arrived(c) >= lose[c];
                    if lost {
                        ops.push(Op { t, c: c32, a: Act::Next });
                        sink(ops.last().unwrap());
                        w.apply(Act::Next, c);
                        let len = w.stream(c).len();
                        pol[c] = policy(r, len);
                        lose[c] = pick_loss(r, len);
                        // whatever was in flight belongs to the old connection
                        q.retain(|Reverse((_, _, x, _))| *x != c32);
                        push!(t + r.below(1000) as u64, c, Ev::Deliver);
                        if w.stream(c).is_empty() {
                            push!(t + 1000, c, Ev::Wake);
                        }
                        continue;
                    }
                    if w.paused(c) {
                        let d = if pol[c].resume_delay == 0 { 0 } else { r.below(pol[c].resume_delay as usize) };
                        push!(t + d as u64, c, Ev::Ready);
                    } else if w.unread(c) > 0 && moved && !r.one_in(8) {
                        push!(t + r.below(20) as u64, c, Ev::Ready);
                    }
                    if pol[c].spurious > 0 && r.pct(pol[c].spurious) {
                        push!(t + r.below(2000) as u64, c, Ev::Wake);
                    }
                }
            }
        }
        out = w.finish();
    }
    reach.faults[F_STALL] += stalls;
    reach.sim_us += end_time;
    (ops, out)
}
