//! The minimiser: cuts a failing scenario down while the same kind of violation persists.

use crate::checks;
use crate::model::Phase;
use crate::scenario::*;
use crate::world::*;
use std::fs;
use std::process::{Command, Stdio};
use std::rc::Rc;

struct Shrinker {
    class: String,
    left: u32,
    /// Candidates that may take the process down run in processes of their own.
    isolated: Option<String>,
    reach: Reach,
}

impl Shrinker {
    fn fails(&mut self, sc: &Scenario) -> bool {
        if self.left == 0 {
            return false;
        }
        let bytes: usize = sc.conns.iter().flat_map(|c| &c.sessions).map(|s| s.stream.len() + 50).sum();
        self.left = self.left.saturating_sub(1 + bytes as u32 / 500);
        crate::tick();
        match &self.isolated {
            None => checks::replay(sc, &mut self.reach).map_or(false, |v| v.class == self.class),
            Some(tmp) => {
                let _ = fs::write(tmp, sc.text());
                outcome(tmp).map_or(false, |v| v.0 == self.class)
            }
        }
    }

    /// Removes ever smaller pieces of a sequence of length `n`.
    fn ddmin<F: Fn(&Scenario, usize, usize) -> Option<Scenario>>(
        &mut self,
        cur: &mut Scenario,
        len: impl Fn(&Scenario) -> usize,
        cut: F,
    ) -> bool {
        let mut any = false;
        let mut size = len(cur);
        while size > 0 {
            let mut i = 0;
            while i < len(cur) {
                let k = size.min(len(cur) - i);
                match cut(cur, i, k) {
                    Some(c) if self.fails(&c) => {
                        *cur = c;
                        any = true;
                    }
                    _ => i += k,
                }
                if self.left == 0 {
                    return any;
                }
            }
            size = if size == 1 { 0 } else { (size + 1) / 2 };
        }
        any
    }
}

/// Executes a scenario file in a process of its own: class and message of the violation.
pub fn outcome(file: &str) -> Option<(String, String)> {
    let exe = std::env::current_exe().ok()?;
    let o = Command::new(exe).arg("try").arg(file).stderr(Stdio::piped()).output().ok()?;
    match o.status.code() {
        Some(0) => {
            let t = String::from_utf8_lossy(&o.stdout).to_string();
            let mut l = t.lines();
            let c = l.next()?;
            Some((c.into(), l.next().unwrap_or("").into()))
        }
        Some(crate::HUNG) => Some(("hang".into(), "a call into the parser does not return".into())),
        Some(c) => Some(("abort".into(), format!("the process exits with status {}", c))),
        None => {
            let e = String::from_utf8_lossy(&o.stderr).to_string();
            let l = e.lines().find(|l| l.contains("unsafe precondition") || l.contains("panic")).unwrap_or("").to_string();
            Some(("abort".into(), format!("the process is killed: {}", l)))
        }
    }
}

/// Positions of the Arrive operations of a session, as (op index, from, to) in its stream.
fn arrivals(sc: &Scenario, c: usize, si: usize) -> Vec<(usize, usize, usize)> {
    let (mut s, mut at) = (0, 0);
    let mut v = vec![];
    for (i, o) in sc.ops.iter().enumerate() {
        if o.c as usize != c {
            continue;
        }
        match o.a {
            Act::Next if s + 1 < sc.conns[c].sessions.len() => {
                s += 1;
                at = 0;
            }
            Act::Arrive(n) if s == si => {
                let to = (at + n as usize).min(sc.conns[c].sessions[si].stream.len());
                v.push((i, at, to));
                at = to;
            }
            _ => {}
        }
    }
    v
}

/// Removes stream bytes together with their part of the arrivals.
fn cut_stream(sc: &Scenario, c: usize, si: usize, i: usize, k: usize, lens: bool) -> Scenario {
    let mut n = sc.clone();
    for (op, a, b) in arrivals(sc, c, si) {
        let lo = a.max(i);
        let hi = b.min(i + k);
        if hi > lo {
            if let Act::Arrive(x) = &mut n.ops[op].a {
                *x -= (hi - lo).min(*x as usize) as u32;
            }
        }
    }
    let s = &mut n.conns[c].sessions[si];
    s.stream.drain(i..i + k);
    if lens {
        for p in s.phases.iter_mut() {
            match p {
                Phase::Url { len } if *len > k => *len -= k,
                Phase::Raw { len } if *len > k => *len -= k,
                _ => {}
            }
        }
        n.arg = n.arg.saturating_sub(if i < sc.arg { k.min(sc.arg - i) } else { 0 });
    }
    n
}

fn shrink(z: &mut Shrinker, cur: &mut Scenario) {
    for round in 0..4 {
        let before = cur.clone();
        // no pauses, no further calls
        for f in [
            (|s: &mut Scenario| s.keep_calling = false) as fn(&mut Scenario),
            |s| s.threads = false,
            |s| s.conns.iter_mut().for_each(|c| c.pause = Pause::none()),
            |s| s.ops.clear(),
            |s| {
                s.conns.truncate(1);
                s.ops.retain(|o| o.c == 0);
            },
        ] {
            let mut n = cur.clone();
            f(&mut n);
            if n != *cur && z.fails(&n) {
                *cur = n;
            }
        }
        // connections and sessions
        z.ddmin(cur, |s| if s.conns.len() > 1 { s.conns.len() } else { 0 }, |s, i, k| {
            if k == s.conns.len() {
                return None;
            }
            let mut n = s.clone();
            n.conns.drain(i..i + k);
            n.ops.retain(|o| (o.c as usize) < i || o.c as usize >= i + k);
            n.ops.iter_mut().for_each(|o| {
                if o.c as usize >= i + k {
                    o.c -= k as u32
                }
            });
            Some(n)
        });
        for c in 0..cur.conns.len() {
            let mut s = 0;
            while s < cur.conns[c].sessions.len() && cur.conns[c].sessions.len() > 1 {
                // with its part of the trace
                let mut n = cur.clone();
                n.conns[c].sessions.remove(s);
                let mut si = 0;
                n.ops.retain(|o| {
                    let mine = o.c as usize == c;
                    let cur_si = si;
                    if mine && o.a == Act::Next {
                        si += 1;
                    }
                    !(mine && cur_si == s)
                });
                if z.fails(&n) {
                    *cur = n;
                } else {
                    s += 1;
                }
            }
        }
        // the trace
        z.ddmin(cur, |s| s.ops.len(), |s, i, k| {
            let mut n = s.clone();
            n.ops.drain(i..i + k);
            Some(n)
        });
        // pauses
        for c in 0..cur.conns.len() {
            if cur.conns[c].pause.all {
                let mut n = cur.clone();
                n.conns[c].pause = Pause { all: false, at: (0..64).collect() };
                if z.fails(&n) {
                    *cur = n;
                }
            }
            z.ddmin(cur, |s| s.conns[c].pause.at.len(), |s, i, k| {
                let mut n = s.clone();
                n.conns[c].pause.at.drain(i..i + k);
                Some(n)
            });
        }
        // the streams
        for c in 0..cur.conns.len() {
            for si in 0..cur.conns[c].sessions.len() {
                if cur.conns[c].sessions[si].fail.is_some() {
                    let mut n = cur.clone();
                    n.conns[c].sessions[si].fail = None;
                    if z.fails(&n) {
                        *cur = n;
                    }
                }
                for lens in [true, false] {
                    z.ddmin(cur, |s| s.conns[c].sessions[si].stream.len(), |s, i, k| {
                        Some(cut_stream(s, c, si, i, k, lens))
                    });
                }
                // fewer messages
                while cur.conns[c].sessions[si].phases.len() > 1 {
                    let mut n = cur.clone();
                    n.conns[c].sessions[si].phases.pop();
                    if !z.fails(&n) {
                        break;
                    }
                    *cur = n;
                }
                // shorter boundaries, fewer answers
                for p in 0..cur.conns[c].sessions[si].phases.len() {
                    if let Phase::Multipart { boundary, clens } = cur.conns[c].sessions[si].phases[p].clone() {
                        let mut n = cur.clone();
                        let st = &mut n.conns[c].sessions[si];
                        let short: Vec<u8> = boundary[..1].to_vec();
                        let old = st.stream.clone();
                        let mut new = vec![];
                        let mut i = 0;
                        while i < old.len() {
                            if old[i..].starts_with(&boundary) {
                                new.extend_from_slice(&short);
                                i += boundary.len();
                            } else {
                                new.push(old[i]);
                                i += 1;
                            }
                        }
                        st.stream = new;
                        st.phases[p] = Phase::Multipart { boundary: Rc::new(short), clens: clens.clone() };
                        if boundary.len() > 1 && z.fails(&n) {
                            *cur = n;
                        }
                        let mut n = cur.clone();
                        if let Phase::Multipart { clens, .. } = &mut n.conns[c].sessions[si].phases[p] {
                            if !clens.is_empty() {
                                clens.clear();
                                if z.fails(&n) {
                                    *cur = n;
                                }
                            }
                        }
                    }
                }
            }
        }
        if *cur == before || z.left == 0 || round == 3 {
            break;
        }
    }
    // evenly spaced decisions
    let mut n = cur.clone();
    for (i, o) in n.ops.iter_mut().enumerate() {
        o.t = i as u64;
    }
    if z.fails(&n) {
        *cur = n;
    }
}

/// Fewer and smaller bodies.
fn shrink_bulk(z: &mut Shrinker, cur: &mut Scenario) {
    let with = |cur: &Scenario, lens: Vec<u64>, seed: u64| {
        let p = &cur.conns[0].sessions[0].phases[0];
        let s = crate::volume::small(p, lens.len(), seed);
        Scenario { conns: vec![Conn { sessions: vec![s], pause: Pause::none() }], ops: vec![], bulk: Some(Bulk { lens, seed }), ..cur.clone() }
    };
    let b = cur.bulk.clone().unwrap();
    let (mut lens, mut seed) = (b.lens, b.seed);
    let n = with(cur, lens.clone(), seed);
    if z.fails(&n) {
        *cur = n;
    }
    for s in 0..40 {
        let n = with(cur, lens.clone(), s);
        if z.fails(&n) {
            *cur = n;
            seed = s;
            break;
        }
    }
    let mut i = lens.len();
    while i > 0 {
        i -= 1;
        let mut l = lens.clone();
        l.remove(i);
        if !l.is_empty() {
            let n = with(cur, l.clone(), seed);
            if z.fails(&n) {
                *cur = n;
                lens = l;
                continue;
            }
        }
        let (mut ok, mut fails) = (0, lens[i]);
        while fails - ok > 1 {
            let mid = ok + (fails - ok) / 2;
            lens[i] = mid;
            let n = with(cur, lens.clone(), seed);
            if z.fails(&n) {
                *cur = n;
                fails = mid;
            } else {
                ok = mid;
            }
        }
        lens[i] = fails;
    }
}

/// Fewer runs: the last ones, as few as still fail, as far as there is time.
fn shrink_history(z: &mut Shrinker, cur: &mut Scenario) {
    let t0 = std::time::Instant::now();
    let all = match &cur.history {
        Some(h) => h.clone(),
        None => return,
    };
    let suffix = |n: u64| {
        let h = History { from: all.from + (all.count - n) * all.stride, count: n, ..all.clone() };
        Scenario::of_history(&cur.prop, h)
    };
    // the fewest known to fail, the most known not to
    let (mut hi, mut lo) = (all.count, 0);
    let mut n = 1;
    while n < hi && t0.elapsed().as_secs() < 60 {
        if z.fails(&suffix(n)) {
            hi = n;
        } else {
            lo = n;
            n *= 2;
        }
    }
    while hi - lo > 1 && t0.elapsed().as_secs() < 60 {
        let n = lo + (hi - lo) / 2;
        if z.fails(&suffix(n)) {
            hi = n;
        } else {
            lo = n;
        }
    }
    *cur = suffix(hi);
}

/// shrink <in> <out> <class> [isolated]
pub fn main(a: &[String]) {
    let text = fs::read_to_string(&a[0]).unwrap();
    let mut sc = Scenario::parse(&text).unwrap();
    let isolated = a.get(3).map(|_| format!("{}.try", a[1]));
    if isolated.is_none() {
        crate::watchdog(20);
    }
    let mut z = Shrinker {
        class: a[2].clone(),
        left: match (&isolated, a[2].as_str()) {
            (None, _) => 60_000,
            (_, "hang") => 30,
            _ => 600,
        },
        isolated,
        reach: Reach::new(),
    };
    if sc.history.is_some() {
        shrink_history(&mut z, &mut sc);
    } else if z.fails(&sc) {
        if sc.bulk.is_some() {
            shrink_bulk(&mut z, &mut sc);
        } else {
            shrink(&mut z, &mut sc);
        }
    }
    let _ = fs::write(&a[1], sc.text());
    if let Some(t) = &z.isolated {
        let _ = fs::remove_file(t);
    }
}
