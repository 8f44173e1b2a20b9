//! httpsim: deterministic simulation of connections parsed by http-box.
//!
//!   httpsim check <property>            explore, report, write the evidence file
//!   httpsim replay <file>               execute a replay file
//!   httpsim selftest <runs>             reference models against generated histories
//!   httpsim log <property> <seed> <n>   one hash per run, for determinism tests
//! and, for its own use: worker, trace, shrink, try.

mod arena;
mod checks;
mod gen;
mod model;
mod parent;
mod rng;
mod scenario;
mod sched;
mod shrink;
mod volume;
mod world;

pub use httprec::cost::HUNG;
pub use httprec::item;
use rng::{hash_bytes, mix, Rng};
use scenario::Scenario;
use std::fs;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use world::*;

pub fn run_rng(prop: &str, seed: u64, idx: u64) -> Rng {
    Rng::new(mix(hash_bytes(seed, prop.as_bytes())) ^ mix(idx))
}

pub fn trace_hash(ts: &[Vec<Trace>]) -> u64 {
    let mut h = 1u64;
    for t in ts.iter().flatten() {
        for i in &t.items {
            h = mix(h ^ (i.k as u64) << 56 ^ (i.w as u64) << 32 ^ i.v);
        }
        h = hash_bytes(h, format!("{:?}{:?}{:?}{:?}", t.calls, t.post, t.end, t.fins).as_bytes());
    }
    h
}

extern "C" {
    fn clock() -> i64;
}

static CURRENT: AtomicU64 = AtomicU64::new(0);

/// Ends the process when one run has used more than `secs` of processor time.
pub fn watchdog(secs: i64) {
    std::thread::spawn(move || {
        let (mut last, mut since) = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            let (c, t) = (CURRENT.load(Ordering::Relaxed), unsafe { clock() });
            if c != last {
                last = c;
                since = t;
            } else if t - since > secs * 1_000_000 {
                std::process::exit(HUNG);
            }
        }
    });
}

pub fn tick() {
    CURRENT.fetch_add(1, Ordering::Relaxed);
}

/// A lower bound on the number of distinct values: the bits set by their hashes.
pub struct Distinct(pub Vec<u64>);
pub const BITS: u32 = 26;

impl Distinct {
    pub fn new() -> Distinct {
        Distinct(vec![0; 1 << (BITS - 6)])
    }
    pub fn add(&mut self, h: u64) {
        let b = h >> (64 - BITS);
        self.0[(b >> 6) as usize] |= 1 << (b & 63);
    }
    pub fn save(&self, path: &str) {
        let b: Vec<u8> = self.0.iter().flat_map(|w| w.to_le_bytes()).collect();
        let _ = fs::write(path, b);
    }
    pub fn merge(&mut self, path: &str) {
        if let Ok(b) = fs::read(path) {
            for (w, c) in self.0.iter_mut().zip(b.chunks_exact(8)) {
                *w |= u64::from_le_bytes(c.try_into().unwrap());
            }
        }
    }
    pub fn count(&self) -> u64 {
        self.0.iter().map(|w| w.count_ones() as u64).sum()
    }
}

fn sched_hash(sc: &Scenario) -> u64 {
    let mut h = 7u64;
    for o in &sc.ops {
        use scenario::Act::*;
        let v = match o.a {
            Arrive(n) => 1 << 40 | n as u64,
            Poll(n) => 2 << 40 | n as u64,
            Spurious => 3 << 40,
            Next => 4 << 40,
        };
        h = mix(h ^ v ^ (o.c as u64) << 48);
    }
    for c in &sc.conns {
        h = mix(h ^ c.pause.all as u64);
        for p in &c.pause.at {
            h = mix(h ^ *p as u64);
        }
    }
    h
}

fn stream_hash(sc: &Scenario) -> u64 {
    let mut h = sc.arg as u64;
    if let Some(b) = &sc.bulk {
        h = hash_bytes(h, format!("{:?}", b).as_bytes());
    }
    for s in sc.conns.iter().flat_map(|c| &c.sessions) {
        h = hash_bytes(h, &s.stream);
        h = hash_bytes(h, format!("{:?}{:?}", s.start, s.phases).as_bytes());
    }
    h
}

fn worker(a: &[String]) {
    let prop = &a[0];
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, from, stride, count, secs) = (n(1), n(2), n(3), n(4), n(5));
    let prefix = &a[6];
    watchdog(20);
    let t0 = std::time::Instant::now();
    let progress = fs::File::create(format!("{}.at", prefix)).unwrap();
    use std::os::unix::fs::FileExt;
    let mut reach = Reach::new();
    let (mut nt, mut scheds, mut execs) = (Distinct::new(), Distinct::new(), Distinct::new());
    let mut samples: Vec<String> = vec![];
    let (mut runs, mut nontrivial) = (0u64, 0u64);
    let mut out = String::new();
    let mut probes = checks::Probes::new(prop);
    let mut i = from;
    while i < count {
        let _ = progress.write_at(&i.to_le_bytes(), 0);
        tick();
        let mut r = run_rng(prop, seed, i);
        let (sc, traces, v) = checks::run(prop, &mut r, &mut reach);
        runs += 1;
        let (sh, st) = (sched_hash(&sc), stream_hash(&sc));
        scheds.add(sh);
        execs.add(trace_hash(&traces));
        let calls: usize = traces.iter().flatten().map(|t| t.calls.len()).sum();
        let cbs: u64 = traces.iter().flatten().map(|t| t.callbacks).sum();
        if calls >= 2 && cbs > 0 {
            nontrivial += 1;
            nt.add(mix(sh ^ st));
            if samples.len() < 2 && from < 3 {
                let t = sc.text();
                if t.len() < 1500 {
                    samples.push(format!("run {}:\n{}", i, t));
                }
            }
        }
        if let Some(v) = v {
            out += &format!("viol {}\n", i);
            let _ = fs::write(format!("{}.viol", prefix), format!("# class {}\n# {}\n{}", v.class, v.msg.replace('\n', " "), sc.text()));
            break;
        }
        let late = t0.elapsed().as_secs() >= secs;
        if let Some(v) = probes.as_mut().and_then(|p| p.after(late || i + stride >= count)) {
            let h = scenario::History { seed, from, stride, count: runs };
            out += &format!("viol {}\n", i);
            let t = scenario::Scenario::of_history(prop, h).text();
            let _ = fs::write(format!("{}.viol", prefix), format!("# class {}\n# {}\n{}", v.class, v.msg, t));
            break;
        }
        i += stride;
        if late {
            out += "stopped 1\n";
            break;
        }
    }
    out += &format!(
        "runs {}\nnontrivial {}\ncalls {}\ncallbacks {}\nbytes {}\nsim_us {}\nexecs {}\n",
        runs, nontrivial, reach.calls, reach.callbacks, reach.bytes, reach.sim_us, reach.execs
    );
    for (i, f) in reach.faults.iter().enumerate() {
        out += &format!("fault {} {}\n", i, f);
    }
    for (k, s) in [("state1", &reach.states1), ("state2", &reach.states2)] {
        for (i, _) in s.iter().enumerate().filter(|x| *x.1) {
            out += &format!("{} {}\n", k, i);
        }
    }
    for e in &reach.edges {
        out += &format!("edge {}\n", e);
    }
    for (i, w) in reach.pairs.iter().enumerate().filter(|x| *x.1 != 0) {
        out += &format!("pairs {} {}\n", i, w);
    }
    let (known, hit) = httprec::cost::edges();
    out += &format!("instrumented {}\n", if from == 0 { known } else { 0 });
    for e in hit {
        out += &format!("hit {}\n", e);
    }
    nt.save(&format!("{}.nt", prefix));
    scheds.save(&format!("{}.sched", prefix));
    execs.save(&format!("{}.exec", prefix));
    let _ = fs::write(format!("{}.samples", prefix), samples.join("\u{1}"));
    let _ = fs::write(format!("{}.out", prefix), out);
}

/// Repeats one run, recording its decisions as they are made, so that they survive a crash.
fn trace(a: &[String]) {
    let prop = &a[0];
    let (seed, idx) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    watchdog(20);
    let mut reach = Reach::new();
    let mut r = run_rng(prop, seed, idx);
    let sc = checks::workload(prop, &mut r, &mut reach);
    let mut f = fs::File::create(&a[3]).unwrap();
    let _ = f.write_all(sc.text().as_bytes());
    sched::SINK.with(|s| *s.borrow_mut() = Some(f));
    let mut r = run_rng(prop, seed, idx);
    let _ = checks::run(prop, &mut r, &mut reach);
}

/// Executes a scenario file; prints the class of the violation.
fn try_file(a: &[String]) {
    watchdog(5);
    if let Some(sc) = fs::read_to_string(&a[0]).ok().and_then(|t| Scenario::parse(&t)) {
        let mut reach = Reach::new();
        if let Some(v) = checks::replay(&sc, &mut reach) {
            println!("{}\n{}", v.class, v.msg.replace('\n', " "));
        }
    }
}

fn selftest(n: u64) -> bool {
    use gen::*;
    let mut checked = 0u64;
    for i in 0..n {
        let mut r = run_rng("selftest", 0, i);
        let sw = swarm(&mut r);
        let (s, want) = if r.one_in(5) {
            pipeline(&mut r, &sw)
        } else {
            let m = any_mode(&mut r);
            well_formed(&mut r, &sw, m)
        };
        let m = model::run(&s.phases, s.start == scenario::Start::Fresh, &s.stream);
        let ok_end = match m.outcome {
            model::Outcome::Done(p) => p == s.stream.len(),
            model::Outcome::Pending(p) => s.phases[p] == model::Phase::H2,
            _ => false,
        };
        if m.items != want || !ok_end || m.limit.is_some() {
            println!("selftest run {}: {:?} {:?}\n{:?}\n{}", i, s.phases, m.outcome, m.limit, scenario::escape(&s.stream));
            println!("model:     {}\ngenerator: {}", item::show(&m.items), item::show(&want));
            return false;
        }
        // the text form is faithful
        let sc = Scenario {
            prop: "C01".into(),
            conns: vec![scenario::Conn { sessions: vec![s], pause: pause(&mut r) }],
            ops: vec![],
            arg: r.below(9),
            drain: true,
            keep_calling: r.pct(50),
            threads: r.one_in(9),
            history: None,
            bulk: if r.one_in(5) { Some(volume::Bulk { lens: vec![r.next(), 3], seed: r.next() }) } else { None },
        };
        if Scenario::parse(&sc.text()).as_ref() != Some(&sc) {
            println!("selftest run {}: text form differs\n{}", i, sc.text());
            return false;
        }
        checked += 1;
    }
    println!("selftest: {} histories agree", checked);
    true
}

fn log(prop: &str, seed: u64, n: u64) {
    let mut reach = Reach::new();
    for i in 0..n {
        let mut r = run_rng(prop, seed, i);
        let (mut sc, ts, v) = checks::run(prop, &mut r, &mut reach);
        let h = trace_hash(&ts);
        // replaying the recorded decisions gives the same history, also by way of the text form
        if i % 4 == 0 {
            sc = Scenario::parse(&sc.text()).expect("text form");
        }
        let e = checks::executed(&sc);
        let p = play::<Rec>(&e, &e.ops, &mut reach);
        let v2 = checks::judge(&sc, &p, &mut reach);
        println!(
            "{} {} {:016x} {:016x} {:?}{}",
            prop, i, mix(sched_hash(&sc) ^ stream_hash(&sc)), h, v.as_ref().map(|v| &v.class),
            if trace_hash(&p) != h || v != v2 { " REPLAY-DIFFERS" } else { "" }
        );
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    quiet_panics();
    let rest = if args.is_empty() { &[] } else { &args[1..] };
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => parent::check(&rest[0]),
        Some("replay") => parent::replay(&rest[0]),
        Some("worker") => {
            worker(rest);
            0
        }
        Some("trace") => {
            trace(rest);
            0
        }
        Some("try") => {
            try_file(rest);
            0
        }
        Some("shrink") => {
            shrink::main(rest);
            0
        }
        Some("selftest") => !selftest(rest[0].parse().unwrap()) as i32,
        Some("log") => {
            log(&rest[0], rest[1].parse().unwrap(), rest[2].parse().unwrap());
            0
        }
        _ => {
            eprintln!("usage: httpsim check|replay|selftest|log ...");
            2
        }
    };
    std::process::exit(code);
}
