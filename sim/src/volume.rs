//! Bulk transfers: bodies of many gigabytes, which cost next to nothing to simulate because the parsers only
//! count the bytes whose number is known in advance. What may give way is their arithmetic.

use crate::checks::{bad, Verdict};
use crate::gen::Mode;
use crate::model::{self, Phase};
use crate::rng::Rng;
use crate::scenario::*;
use crate::world::*;
use http_box::fsm::Success;
use httpport::Port;
use httprec::item::*;
use httprec::{cost, Hand, Rec};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// Runs of zeros this long, between the literal parts of a message.
#[derive(Clone, Debug, PartialEq)]
pub struct Bulk {
    pub lens: Vec<u64>,
    /// Decides how it is sliced and where the handler stops.
    pub seed: u64,
}

const BODY: &[u8] = &[CHUNK_DATA, MP_DATA, H2_DATA, H2_FRAG, H2_UNSUP];

enum Part {
    Lit(Vec<u8>),
    Zeros(u64),
}

fn phase(p: &Phase, lens: &[u64]) -> Phase {
    match p {
        Phase::Multipart { .. } => Phase::Multipart {
            boundary: Rc::new(b"b".to_vec()),
            clens: lens.iter().map(|n| Some(*n as usize)).collect(),
        },
        p => p.clone(),
    }
}

/// The message with these lengths, and `lens` as the parser is told them.
fn parts(p: &Phase, lens: &[u64], seed: u64) -> Vec<Part> {
    let mut v = vec![];
    match p {
        Phase::Chunked => {
            for n in lens {
                v.push(Part::Lit(format!("{:x}\r\n", n).into_bytes()));
                v.push(Part::Zeros(*n));
                v.push(Part::Lit(b"\r\n".to_vec()));
            }
            v.push(Part::Lit(b"0\r\n\r\n".to_vec()));
        }
        Phase::Multipart { .. } => {
            v.push(Part::Lit(b"--b".to_vec()));
            for n in lens {
                v.push(Part::Lit(b"\r\nA: b\r\n\r\n".to_vec()));
                v.push(Part::Zeros(*n));
                v.push(Part::Lit(b"\r\n--b".to_vec()));
            }
            v.push(Part::Lit(b"--".to_vec()));
        }
        _ => {
            let t = [0u8, 9, 200, 1, 0][(seed % 5) as usize];
            for n in lens {
                let mut h = (*n as u32).to_be_bytes()[1..].to_vec();
                h.extend_from_slice(&[t, 0, 0, 0, 0, 1]);
                v.push(Part::Lit(h));
                v.push(Part::Zeros(*n));
            }
        }
    }
    v
}

/// The session as it would be with small lengths.
pub fn small(p: &Phase, n: usize, seed: u64) -> Session {
    let lens: Vec<u64> = (1..n as u64 + 1).collect();
    let mut stream = vec![];
    for x in parts(p, &lens, seed) {
        match x {
            Part::Lit(b) => stream.extend(b),
            Part::Zeros(n) => stream.extend(vec![0; n as usize]),
        }
    }
    let start = if *p == Phase::H2 { Start::Fresh } else { Start::Init };
    Session { start, phases: vec![phase(p, &lens)], stream, fail: None, spins: 0 }
}

fn some_len(r: &mut Rng, p: &Phase) -> u64 {
    let bits = match p {
        Phase::Chunked => 32,
        Phase::Multipart { .. } => 36,
        _ => 24,
    };
    let k = *r.pick(&[8, 15, 16, 23, 24, 31, 32, 33, 35]);
    match r.below(4) {
        0 => (1u64 << bits) - 1,
        1 => r.next() >> (64 - bits) | 1,
        _ if k < bits => (1u64 << k) + r.below(5) as u64 - 2,
        _ => r.next() >> (64 - r.range(8, bits)) | 1,
    }
}

pub fn draw(r: &mut Rng, modes: &[Mode], reach: &mut Reach) -> (Conn, Bulk) {
    let p = match r.pick(modes) {
        Mode::Chunked => Phase::Chunked,
        Mode::Multipart => Phase::Multipart { boundary: Default::default(), clens: vec![] },
        _ => Phase::H2,
    };
    let n = match p {
        Phase::H2 => *r.pick(&[1, 2, 4, 300]),
        _ => r.range(1, 4),
    };
    let whole = n > 200;
    let lens: Vec<u64> = (0..n)
        .map(|_| if whole && r.pct(95) { 0xFF_FFFF } else { some_len(r, &p).max(1) })
        .collect();
    let seed = r.next();
    reach.faults[F_BULK] += 1;
    (Conn { sessions: vec![small(&p, n, seed)], pause: Pause::none() }, Bulk { lens, seed })
}

/// What a transfer came to.
#[derive(PartialEq)]
struct Came {
    items: Vec<Item>,
    data: u64,
    end: String,
}

impl Came {
    fn show(&self) -> String {
        format!("{} and {} bytes of data, {}", show(&self.items), self.data, self.end)
    }
}

/// Performs it, sliced by `seed`; `count` judges byte_count() after each call.
fn transfer(p: &Phase, b: &Bulk, seed: u64, pauses: bool, counts: bool, reach: &mut Reach) -> Result<Came, String> {
    let mut r = Rng::new(seed);
    let max: u64 = *r.pick(&[64 << 20, 64 << 20, 16 << 20, 1 << 20, 65_536, 65_535]);
    let total: u64 = b.lens.iter().fold(0, |a, n| a.saturating_add(*n));
    let max = max.max(total / 2000).min(64 << 20);
    let stops = if pauses { [1, 2, 7][(seed >> 8) as usize % 3] } else { 0 };
    let pause = Pause { all: stops == 1, at: if stops > 1 { (0..4000).step_by(stops).collect() } else { vec![] } };
    let mut h = Rec::make(&pause);
    h.quiet(BODY);
    let ph = phase(p, &b.lens);
    let boundary: &[u8] = b"b";
    let mut h1 = Rec::new1();
    let mut h2 = Rec::new2();
    match &ph {
        Phase::Chunked => Rec::chunked(&mut h1),
        Phase::Multipart { clens, .. } => {
            Rec::multipart(&mut h1);
            h1.set_boundary(boundary);
            h.answers(clens);
        }
        _ => {}
    }
    let two = ph == Phase::H2;
    let mut pos = 0u64;
    let mut end = "not finished".to_string();
    'all: for x in parts(p, &b.lens, b.seed) {
        let (lit, mut left) = match x {
            Part::Lit(b) => {
                let n = b.len() as u64;
                (Some(b), n)
            }
            Part::Zeros(n) => (None, n),
        };
        let (mut paused, mut still) = (false, 0);
        // what is left of a slice after a pause
        let mut rest = 0u64;
        while left > 0 || paused {
            let n = if paused {
                rest as usize
            } else if r.one_in(3) {
                max.min(left) as usize
            } else {
                (1 + r.next() % max).min(left) as usize
            };
            let slice: &[u8] = match &lit {
                Some(b) => &b[b.len() - left as usize..],
                None => crate::arena::zeros(n),
            };
            let n = slice.len();
            h.begin_call(h.l.callbacks + 1000);
            let base = cost::begin(4_000_000);
            let ret = catch_unwind(AssertUnwindSafe(|| {
                if two {
                    Rec::resume2(&mut h2, &mut h, slice).map_err(|_| "frame error".to_string())
                } else {
                    Rec::resume1(&mut h1, &mut h, slice).map_err(|e| format!("{:?}", e))
                }
            }));
            let _ = cost::end(base);
            crate::tick();
            reach.calls += 1;
            reach.bytes += n as u64;
            let k = match ret {
                Ok(Ok(Success::Eos(k))) if k == n => {
                    paused = false;
                    k
                }
                Ok(Ok(Success::Callback(k))) if k <= n && h.l.stop => {
                    paused = true;
                    rest = (n - k) as u64;
                    reach.faults[F_PAUSE] += 1;
                    k
                }
                Ok(Ok(Success::Finished(k))) if k <= n => {
                    end = format!("finished at byte {}", pos + k as u64);
                    break 'all;
                }
                Ok(Ok(x)) => {
                    end = match x {
                        Success::Callback(_) => "an unasked stop, or a position outside the slice",
                        _ => "not all of a slice used",
                    }
                    .into();
                    break 'all;
                }
                Ok(Err(e)) => {
                    end = e;
                    break 'all;
                }
                Err(_) => {
                    let m = PANIC_MSG.with(|p| p.borrow().clone());
                    return Err(format!("at byte {} of a bulk transfer, with {} bytes: {}", pos, n, m));
                }
            };
            still = if k > 0 { 0 } else { still + 1 };
            if still > 50 {
                end = "no progress".into();
                break 'all;
            }
            left -= k as u64;
            pos += k as u64;
            let got = if two { h2.byte_count() } else { h1.byte_count() };
            if counts && got as u64 != pos {
                return Err(format!("byte_count() is {} after {} bytes", got, pos));
            }
        }
    }
    Ok(Came { items: std::mem::replace(&mut h.l.items, vec![]), data: h.l.data_bytes, end })
}

/// What it should come to.
fn due(p: &Phase, b: &Bulk) -> Came {
    let s = small(p, b.lens.len(), b.seed);
    let m = model::run(&s.phases, s.start == Start::Fresh, &s.stream);
    let mut k = 0;
    let mut next = || {
        k += 1;
        b.lens[k - 1]
    };
    let items: Vec<Item> = m
        .items
        .iter()
        .filter(|i| !BODY.contains(&i.k))
        .map(|i| match i.k {
            CHUNK_LEN if i.v > 0 => val(CHUNK_LEN, next()),
            H2_FRAME => frame(next() as u32, (i.v >> 32) as u8, i.w as u8, i.v as u32),
            _ => *i,
        })
        .collect();
    let extra = items.iter().filter(|i| is_data(i.k)).count() as u64;
    let bytes: u64 = parts(p, &b.lens, b.seed).iter().map(|x| match x {
        Part::Lit(b) => b.len() as u64,
        Part::Zeros(n) => *n,
    }).sum();
    let end = if *p == Phase::H2 { "not finished".into() } else { format!("finished at byte {}", bytes) };
    Came { items, data: b.lens.iter().sum::<u64>() + extra, end }
}

pub fn judge(sc: &Scenario, b: &Bulk, reach: &mut Reach) -> Option<Verdict> {
    let p = &sc.conns[0].sessions[0].phases[0];
    let counts = sc.prop == "C03";
    let pauses = sc.prop == "C02" || counts && b.seed % 2 == 0;
    let a = match transfer(p, b, b.seed, pauses, counts, reach) {
        Ok(a) => a,
        Err(m) if m.starts_with("byte_count") => return bad("byte count", m),
        Err(m) => return bad("panic", m),
    };
    let (other, what) = match sc.prop.as_str() {
        "C01" | "C18" => (transfer(p, b, b.seed ^ 0x5555, false, false, reach), "sliced otherwise"),
        "C02" => (transfer(p, b, b.seed, false, false, reach), "without pauses"),
        "C03" => return None,
        _ => (Ok(due(p, b)), "expected"),
    };
    match other {
        Ok(o) if o == a => None,
        Ok(o) => bad("bulk", format!("{} | {}: {}", a.show(), what, o.show())),
        Err(m) => bad("panic", m),
    }
}
