//! Exploration: shares the runs out to worker processes, minimises and reports the first violation,
//! and writes the evidence.

use crate::checks;
use crate::scenario::{History, Scenario};
use crate::shrink::outcome;
use crate::world::*;
use crate::{Distinct, BITS, HUNG};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::Instant;

fn root() -> PathBuf {
    // <root>/sim/target/<profile>/httpsim
    let exe = std::env::current_exe().unwrap();
    exe.ancestors().nth(4).unwrap().to_path_buf()
}

/// Runs of a quick check, in thousands: 20 to 40 s on eight cores.
fn quick(prop: &str) -> u64 {
    match prop {
        "C01" => 2500,
        "C02" => 2300,
        "C03" => 1500,
        "C04" => 2000,
        "C05" => 1800,
        "C06" => 1200,
        "C07" => 3500,
        "C09" => 3500,
        "C10" => 1500,
        "C11" => 1800,
        "C13" => 1100,
        "C14" => 600,
        "C17" => 3000,
        "C24" => 550,
        "C08" | "C18" | "C19" => 5000,
        _ => 2000,
    }
}

fn var(n: &str) -> Option<String> {
    std::env::var(n).ok()
}

struct Found {
    idx: u64,
    class: String,
    msg: String,
    text: String,
    isolated: bool,
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Known {
    prop: String,
    stream: Vec<u8>,
    what: String,
}

fn known() -> Vec<Known> {
    let t = fs::read_to_string(root().join("KNOWN_FINDINGS")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        let mut f = l.splitn(4, ' ');
        if f.next() != Some("finding:") {
            continue;
        }
        let (p, s, w) = match (f.next(), f.next(), f.next()) {
            (Some(p), Some(s), Some(w)) => (p, s, w),
            _ => continue,
        };
        let (p, s) = match (p.strip_prefix("property="), s.strip_prefix("stream=")) {
            (Some(p), Some(s)) => (p, s),
            _ => continue,
        };
        if let Some(b) = crate::scenario::unhex(s) {
            v.push(Known { prop: p.into(), stream: b, what: w.into() });
        }
    }
    v
}

fn level_rule() -> &'static str {
    "each run draws from one seed: the streams of one or more peers, the handler's pauses, and a schedule of segment arrivals, reads, wake-ups, stalls, losses and damage; a run is non-trivial if the real parser was called at least twice and made at least one callback; runs are distinct if streams, pauses or decisions of the schedule differ (lower bound: bits set in a 2^26-bit table of hashes)"
}

pub fn check(prop: &str) -> i32 {
    if !checks::PROPS.contains(&prop) {
        eprintln!("unknown property {}", prop);
        return 2;
    }
    let t0 = Instant::now();
    let seed: u64 = var("VERIF_SEED").and_then(|s| s.trim().parse::<i64>().ok()).map_or(1, |s| s as u64);
    let tier = match var("VERIF_TIER").as_deref() {
        Some("thorough") => "thorough",
        _ => "quick",
    };
    let jobs: u64 = var("HTTPSIM_JOBS").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map_or(4, |n| n.get() as u64)
    });
    let count: u64 = var("HTTPSIM_RUNS").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        quick(prop) * 1000 * if tier == "thorough" { 80 } else { 1 }
    });
    let secs: u64 = match var("HTTPSIM_SECS").and_then(|s| s.parse().ok()) {
        Some(s) => s,
        None if tier == "thorough" => 800,
        None => 400,
    };
    println!("{} seed {} tier {} runs {} processes {}", prop, seed, tier, count, jobs);
    let root = root();
    let dir = root.join("sim/target").join(format!("run-{}-{}", prop, std::process::id()));
    if fs::create_dir_all(&dir).is_err() {
        eprintln!("cannot create {}", dir.display());
        return 2;
    }
    let r = explore(prop, seed, tier, jobs, count, secs, &dir, &root, t0);
    let _ = fs::remove_dir_all(&dir);
    r
}

fn explore(
    prop: &str, seed: u64, tier: &str, jobs: u64, count: u64, secs: u64, dir: &PathBuf, root: &PathBuf, t0: Instant,
) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let path = |j: u64, ext: &str| dir.join(format!("w{}.{}", j, ext));
    let mut kids = vec![];
    for j in 0..jobs {
        let k = Command::new(&exe)
            .args(["worker", prop])
            .args([seed, j, jobs, count, secs].iter().map(|n| n.to_string()))
            .arg(dir.join(format!("w{}", j)))
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(fs::File::create(path(j, "err")).map(Stdio::from).unwrap_or_else(|_| Stdio::null()))
            .spawn();
        match k {
            Ok(k) => kids.push(k),
            Err(e) => {
                eprintln!("cannot start a worker: {}", e);
                return 2;
            }
        }
    }
    let mut found: Option<Found> = None;
    let mut sums: BTreeMap<String, u64> = BTreeMap::new();
    let mut faults = vec![0u64; FAULTS.len()];
    let (mut s1, mut s2, mut edges) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    let mut hits = BTreeSet::new();
    let mut pairs: BTreeMap<u64, u64> = BTreeMap::new();
    let (mut nt, mut scheds, mut execs) = (Distinct::new(), Distinct::new(), Distinct::new());
    let mut samples: Vec<String> = vec![];
    let mut broken = false;
    for (j, mut k) in kids.into_iter().enumerate() {
        let j = j as u64;
        let st = match k.wait() {
            Ok(s) => s,
            Err(_) => return 2,
        };
        if !st.success() {
            let hang = st.code() == Some(HUNG);
            let sig = matches!(st.signal(), Some(4) | Some(6) | Some(7) | Some(8) | Some(11));
            let at = fs::read(path(j, "at")).ok().and_then(|b| b.try_into().ok()).map(u64::from_le_bytes);
            match at {
                Some(idx) if hang || sig => {
                    if found.as_ref().map_or(true, |f| idx < f.idx) {
                        found = Some(Found {
                            idx,
                            class: if hang { "hang" } else { "abort" }.into(),
                            msg: String::new(),
                            text: String::new(),
                            isolated: true,
                        });
                    }
                }
                _ => {
                    eprintln!(
                        "worker {} failed ({}) at run {:?}: {}",
                        j, st, at, fs::read_to_string(path(j, "err")).unwrap_or_default()
                    );
                    broken = true;
                }
            }
        }
        for l in fs::read_to_string(path(j, "out")).unwrap_or_default().lines() {
            let f: Vec<&str> = l.split(' ').collect();
            let n = |i: usize| f.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
            match f[0] {
                "fault" => faults[n(1) as usize] += n(2),
                "state1" => {
                    s1.insert(n(1));
                }
                "state2" => {
                    s2.insert(n(1));
                }
                "edge" => {
                    edges.insert(n(1));
                }
                "pairs" => *pairs.entry(n(1)).or_insert(0) |= n(2),
                "hit" => {
                    hits.insert(n(1));
                }
                "viol" => {
                    let idx = n(1);
                    if found.as_ref().map_or(true, |f| idx < f.idx) {
                        let t = fs::read_to_string(path(j, "viol")).unwrap_or_default();
                        let mut l = t.lines();
                        let class = l.next().unwrap_or("").trim_start_matches("# class ").to_string();
                        let msg = l.next().unwrap_or("").trim_start_matches("# ").to_string();
                        found = Some(Found { idx, class, msg, text: t, isolated: false });
                    }
                }
                k => *sums.entry(k.into()).or_insert(0) += n(1),
            }
        }
        nt.merge(&path(j, "nt").to_string_lossy());
        scheds.merge(&path(j, "sched").to_string_lossy());
        execs.merge(&path(j, "exec").to_string_lossy());
        let s = fs::read_to_string(path(j, "samples")).unwrap_or_default();
        samples.extend(s.split('\u{1}').filter(|s| !s.is_empty()).map(|s| s.to_string()));
    }
    if broken && found.is_none() {
        return 2;
    }
    let explore_s = t0.elapsed().as_secs_f64();
    let mut violation: Option<(String, String)> = None;
    let mut findings = vec![];
    // recorded findings
    let mut other: Option<(Scenario, String, String)> = None;
    for k in known().iter().filter(|k| k.prop == prop) {
        let (sc, v, fails) = checks::probe(prop, &k.stream);
        if fails {
            println!("KNOWN-FINDING: property={} {}", prop, k.what);
            findings.push(k.what.clone());
        } else if v.is_none() {
            println!("note: recorded finding does not occur: {}", k.what);
        }
        if let Some(v) = v {
            other = Some((sc, v.class, v.msg));
        }
    }
    if found.is_none() {
        if let Some((sc, class, msg)) = other {
            found = Some(Found { idx: 0, class, msg, text: sc.text(), isolated: false });
        }
    }
    if let (Some(f), Some(_)) = (&found, var("HTTPSIM_NOSHRINK")) {
        println!("{}: {}\nrun {}", f.class, f.msg, f.idx);
        return 1;
    }
    if let Some(f) = found {
        let replays = root.join("replays");
        let _ = fs::create_dir_all(&replays);
        let file = replays.join(format!("{}-seed{}-run{}.txt", prop, seed, f.idx));
        let (class, msg, text, raw_len) = match minimise(prop, seed, jobs, &f, dir) {
            Some(x) => x,
            None => {
                eprintln!("run {} of seed {} failed ({} {}), but does not when repeated", f.idx, seed, f.class, f.msg);
                return 2;
            }
        };
        let head = format!(
            "# {}: {}\n# {}\n# seed {} run {}; minimised from {} to {} bytes of scenario\n# replay: tools/replay {}\nclass {}\n",
            prop, class, msg, seed, f.idx, raw_len, text.len(), file.display(), class
        );
        if fs::write(&file, format!("{}{}", head, text)).is_err() {
            eprintln!("cannot write {}", file.display());
            return 2;
        }
        println!("{}: {}", class, msg);
        violation = Some((file.display().to_string(), format!("{}: {}", class, msg)));
    }
    let get = |k: &str| sums.get(k).copied().unwrap_or(0);
    let runs = get("runs");
    let per_hour = if explore_s > 0.0 { runs as f64 / explore_s * 3600.0 } else { 0.0 };
    let fl: Vec<String> = faults.iter().enumerate().map(|(i, n)| format!("{}: {}", json(FAULTS[i]), n)).collect();
    let sm: Vec<String> = samples.iter().take(4).map(|s| json(s)).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"nontrivial_runs\": {},\n  \"runs_and_seeds_per_hour\": {:.0},\n  \"budget_runs\": {},\n  \"executions_of_the_real_code\": {},\n  \"parser_calls\": {},\n  \"callbacks\": {},\n  \"stream_bytes_parsed\": {},\n  \"simulated_time_s\": {:.3},\n  \"faults_fired\": {{{}}},\n  \"distinct_interleavings\": {},\n  \"distinct_executions\": {},\n  \"distinct_measure\": {},\n  \"http1_states_at_slice_boundaries\": {},\n  \"http2_states_at_slice_boundaries\": {},\n  \"state_transitions_between_calls\": {},\n  \"pairs_of_state_and_next_byte\": {},\n  \"instrumented_code_edges\": {},\n  \"code_edges_executed\": {},\n  \"worker_processes\": {},\n  \"real_components\": {},\n  \"stub_components\": {},\n  \"known_findings_seen\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json(prop), json(tier), seed as i64, runs, nt.count(), json(level_rule()), sm.join(", "),
        get("nontrivial"), per_hour, count, get("execs"), get("calls"), get("callbacks"), get("bytes"),
        get("sim_us") as f64 / 1e6, fl.join(", "), scheds.count(), execs.count(),
        json(&format!("interleavings: sequences of (connection, arrival, read, wake-up, loss) and pauses; executions: complete recorded histories; each counted as bits set in a 2^{}-bit table of hashes, a lower bound", BITS)),
        s1.len(), s2.len(), edges.len(), pairs.values().map(|w| w.count_ones()).sum::<u32>(), get("instrumented"), hits.len(), jobs,
        json("http_box::http1::Parser, http_box::http2::Parser, the crate's macros, byte tables and header fast paths, byte-slice, default handler methods: all compiled from /repo's working tree"),
        json("peers, network, receive buffers, event loop, clock and application handlers are the simulator's; nothing of http-box is stubbed"),
        findings.iter().map(|f| json(f)).collect::<Vec<_>>().join(", "),
        [
            "sampling: the runs explored are a sample of the streams, schedules and faults possible",
            "the reference models in sim/src/model.rs state the documented grammar (checked against independently generated histories by httpsim selftest)",
        ].iter().map(|s| json(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(), violation.is_some() as u32,
    );
    let evdir = root.join("evidence");
    let _ = fs::create_dir_all(&evdir);
    if let Err(e) = fs::write(evdir.join(format!("{}.json", prop)), ev) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    println!(
        "{} runs ({} non-trivial and distinct), {} parser calls, {:.0} simulated s, {:.1} s",
        runs, nt.count(), get("calls"), get("sim_us") as f64 / 1e6, t0.elapsed().as_secs_f64()
    );
    match violation {
        Some((file, _)) => {
            println!("VIOLATION property={} replay={}", prop, file);
            1
        }
        None => {
            println!("{} held on everything explored", prop);
            0
        }
    }
}

/// (class, message, scenario text, length of the original)
fn minimise(prop: &str, seed: u64, jobs: u64, f: &Found, dir: &PathBuf) -> Option<(String, String, String, usize)> {
    let exe = std::env::current_exe().ok()?;
    let raw = dir.join("raw.txt");
    let small = dir.join("small.txt");
    if f.isolated {
        let _ = Command::new(&exe)
            .args(["trace", prop, &seed.to_string(), &f.idx.to_string()])
            .arg(&raw)
            .stderr(Stdio::null())
            .status();
    } else {
        fs::write(&raw, &f.text).ok()?;
    }
    let raw_s = raw.to_string_lossy().to_string();
    let (class, msg) = match outcome(&raw_s) {
        Some(x) => x,
        // It may depend on what the process did before.
        None => {
            let h = History { seed, from: f.idx % jobs, stride: jobs, count: f.idx / jobs + 1 };
            fs::write(&raw, Scenario::of_history(prop, h).text()).ok()?;
            outcome(&raw_s)?
        }
    };
    let raw_sc = Scenario::parse(&fs::read_to_string(&raw).ok()?)?;
    let raw_text = raw_sc.text();
    let n = raw_text.len();
    let isolated = class == "abort" || class == "hang" || raw_sc.history.is_some();
    for iso in [isolated, true] {
        let mut c = Command::new(&exe);
        c.arg("shrink").arg(&raw).arg(&small).arg(&class);
        if iso {
            c.arg("isolated");
        }
        let ok = c.stderr(Stdio::null()).status().map_or(false, |s| s.success());
        if ok {
            if let (Some((c2, m2)), Ok(t)) = (outcome(&small.to_string_lossy()), fs::read_to_string(&small)) {
                if c2 == class {
                    return Some((c2, m2, t, n));
                }
            }
        }
        if iso {
            break;
        }
    }
    Some((class, msg, raw_text, n))
}

/// Executes a replay file in a fresh process; reports as a check does.
pub fn replay(file: &str) -> i32 {
    let text = match fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let sc = match Scenario::parse(&text) {
        Some(s) => s,
        None => {
            eprintln!("{}: not a replay file", file);
            return 2;
        }
    };
    match outcome(file) {
        Some((class, msg)) => {
            println!("{}: {}", class, msg);
            println!("VIOLATION property={} replay={}", sc.prop, file);
            1
        }
        None => {
            println!("{} holds on {}", sc.prop, file);
            0
        }
    }
}
