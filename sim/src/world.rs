//! The simulated process: connections whose parsers are the real ones, receive buffers, and an
//! application that reads, pauses, resumes, re-initialises and re-uses parsers. It does nothing of
//! its own accord: every step is an `Op` chosen by a scheduler or read from a replay file.

use crate::arena::Slice;
use crate::item::*;
use crate::model::{Phase, EK};
use crate::scenario::*;
use http_box::fsm::Success;
use http_box::{http1, http2};
pub use httpport::Port;
use httprec::cost::{self, Cost};
pub use httprec::{Nul, Rec};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A call that takes more steps than this does not return.
const STEPS_PER_CALL: u64 = 2_000_000;
const STEPS_PER_BYTE: u64 = 1000;
/// Slices from this length on are watched now and then.
const WATCHED: usize = 40_000;

thread_local! {
    pub static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}

/// Panics are results of a run, not noise on stderr.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let at = i.location().map(|l| {
            let f = l.file();
            format!(" at {}:{}", f.rsplit("src/").next().unwrap_or(f), l.line())
        });
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{}{}", m, at.unwrap_or_default()));
    }));
}

// ---------------------------------------------------------------------------------------------
// traces

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ret {
    Eos(usize),
    Cb(usize),
    Fin(usize),
    Err(EK, u8),
    Failed,
    Panic,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    Dead,
    Finished,
    Other,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Call {
    pub phase: usize,
    /// Stream offset of the slice, and its length.
    pub at: usize,
    pub len: usize,
    pub ret: Ret,
    /// Items known to the handler after the call.
    pub items: usize,
    pub callbacks: u64,
    pub pieces: u64,
    pub state: u32,
    pub class: Class,
    /// Growth of byte_count(), and how much it had changed since the call before.
    pub counted: u64,
    pub drift: i64,
    /// The handler asked to stop; callbacks made after that.
    pub stop: bool,
    pub after_stop: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done(usize),
    Pending { phase: usize, pos: usize },
    /// `lo..hi` is the part of the stream given to the failing call; `pos` counts byte_count().
    Err { phase: usize, kind: EK, byte: u8, pos: usize, lo: usize, hi: usize },
    Panic(String),
    /// The application's handler failed, and the application lives on.
    Failed,
    /// The parser claims to have consumed more than it was given, or makes no progress.
    Broken(String),
}

#[derive(Clone, Debug)]
pub struct Trace {
    pub items: Vec<Item>,
    pub calls: Vec<Call>,
    /// What each of them cost.
    pub costs: Vec<Cost>,
    /// Calls made after the session had failed or finished.
    pub post: Vec<Call>,
    pub end: End,
    /// Offsets at which phases were reported finished.
    pub fins: Vec<usize>,
    /// state() before the first call of each phase.
    pub born: Vec<u32>,
    pub data_bytes: u64,
    pub callbacks: u64,
}

/// What fired, over all runs of a worker.
pub struct Reach {
    pub faults: Vec<u64>,
    pub states1: Vec<bool>,
    pub states2: Vec<bool>,
    pub edges: std::collections::HashSet<u32>,
    /// Parser state at the start of a call x first byte given to it.
    pub pairs: Vec<u64>,
    pub calls: u64,
    pub callbacks: u64,
    pub bytes: u64,
    pub sim_us: u64,
    pub execs: u64,
}

macro_rules! faults {
    ($($n:ident = $v:expr, $t:expr;)*) => {
        $(pub const $n: usize = $v;)*
        pub const FAULTS: &[&str] = &[$($t),*];
    };
}

faults! {
    F_SPLIT = 0, "segment boundary inside the stream";
    F_PAUSE = 1, "handler asked to stop";
    F_SPURIOUS = 2, "wake-up with an empty read";
    F_SHORT = 3, "short read (less than was buffered)";
    F_COALESCE = 4, "several segments coalesced into one read";
    F_STALL = 5, "stalled delivery (over 1 s simulated)";
    F_LOST = 6, "connection lost in mid-message, parser re-used";
    F_CUT = 7, "stream ends in mid-message for good";
    F_REPLACE = 8, "byte replaced";
    F_FLIP = 9, "bit flipped";
    F_INSERT = 10, "byte inserted";
    F_DELETE = 11, "bytes lost";
    F_DUP = 12, "segment duplicated";
    F_SWAP = 13, "segments reordered";
    F_GARBAGE = 14, "range overwritten with garbage";
    F_LIE = 15, "wrong content or body length supplied";
    F_DEADCALL = 16, "call after failure or completion";
    F_HANDLER = 17, "handler failed (unwound through the parser), parser re-used";
    F_BULK = 18, "bulk transfer (bodies of up to many gigabytes)";
    F_MOVE = 19, "parser moved to another thread for a call";
    F_PAGES = 20, "pages of the slice taken away before a call, given back when touched";
}

impl Reach {
    pub fn new() -> Reach {
        Reach {
            faults: vec![0; FAULTS.len()],
            states1: vec![false; 256],
            states2: vec![false; 256],
            edges: Default::default(),
            pairs: vec![0; 2 * 256 * 256 / 64],
            calls: 0,
            callbacks: 0,
            bytes: 0,
            sim_us: 0,
            execs: 0,
        }
    }
}

// ---------------------------------------------------------------------------------------------
// the world

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Head,
    Chunked,
    Multipart,
    Url,
}

/// Carries out `f` on a new thread, while this one waits.
fn elsewhere<R>(f: impl FnOnce() -> R) -> R {
    struct Moved<T>(T);
    unsafe impl<T> Send for Moved<T> {}
    impl<T> Moved<T> {
        fn get(self) -> T {
            self.0
        }
    }
    let f = Moved(f);
    let (r, m) = std::thread::scope(|s| {
        s.spawn(move || {
            let r = f.get()();
            Moved((r, PANIC_MSG.with(|p| p.take())))
        })
        .join()
        .unwrap_or_else(|_| std::process::exit(2))
        .get()
    });
    if !m.is_empty() {
        PANIC_MSG.with(|p| *p.borrow_mut() = m);
    }
    r
}

struct Rt<'s, T: Port + 's> {
    threads: bool,
    /// Count the pages of long slices that a call touches.
    watch: bool,
    /// Where parsers are moved for the calls made on other threads.
    spare: Option<Box<(http1::Parser<'s, T>, http2::Parser<'s, T>)>>,
    spec: &'s Conn,
    h1: http1::Parser<'s, T>,
    mode: Mode,
    h2: http2::Parser<'s, T>,
    h2_used: bool,
    handler: T,
    si: usize,
    pi: usize,
    raw_left: usize,
    pos: usize,
    arrived: usize,
    segs_waiting: u32,
    paused: bool,
    running: bool,
    fresh_phase: bool,
    prev_state: u32,
    /// byte_count() as last seen, or as it must be after a reset.
    counts: [usize; 2],
    cost: Cost,
    /// Calls in a row that were stopped and consumed nothing.
    idle: u32,
    cur: Trace,
    traces: Vec<Trace>,
}

pub struct World<'s, 'r, T: Port + 's> {
    conns: Vec<Rt<'s, T>>,
    keep_calling: bool,
    drain: bool,
    reach: &'r mut Reach,
}

fn new_trace() -> Trace {
    Trace {
        items: vec![],
        calls: vec![],
        costs: vec![],
        post: vec![],
        end: End::Pending { phase: 0, pos: 0 },
        fins: vec![],
        born: vec![],
        data_bytes: 0,
        callbacks: 0,
    }
}

fn error1(e: http1::ParserError) -> (EK, u8) {
    use http1::ParserError::*;
    match e {
        ChunkExtensionName(b) => (EK::ChunkExtensionName, b),
        ChunkExtensionValue(b) => (EK::ChunkExtensionValue, b),
        ChunkLength(b) => (EK::ChunkLength, b),
        CrlfSequence(b) => (EK::CrlfSequence, b),
        HeaderName(b) => (EK::HeaderName, b),
        HeaderValue(b) => (EK::HeaderValue, b),
        Method(b) => (EK::Method, b),
        MultipartBoundary(b) => (EK::MultipartBoundary, b),
        Status(b) => (EK::Status, b),
        StatusCode(b) => (EK::StatusCode, b),
        Url(b) => (EK::Url, b),
        UrlEncodedName(b) => (EK::UrlEncodedName, b),
        UrlEncodedValue(b) => (EK::UrlEncodedValue, b),
        Version(b) => (EK::Version, b),
        Dead => (EK::Dead, 0),
        #[allow(unreachable_patterns)]
        _ => (EK::Other, 0),
    }
}

impl<'s, T: Port + 's> Rt<'s, T> {
    fn new(spec: &'s Conn, threads: bool, watch: bool) -> Rt<'s, T> {
        let mut rt = Rt {
            threads,
            watch,
            spare: if threads { Some(Box::new((T::new1(), T::new2()))) } else { None },
            spec,
            h1: T::new1(),
            mode: Mode::Head,
            h2: T::new2(),
            h2_used: false,
            handler: T::make(&spec.pause),
            si: 0,
            pi: 0,
            raw_left: 0,
            pos: 0,
            arrived: 0,
            segs_waiting: 0,
            paused: false,
            running: true,
            fresh_phase: true,
            prev_state: 0,
            counts: [0, 0],
            cost: Cost::default(),
            idle: 0,
            cur: new_trace(),
            traces: vec![],
        };
        rt.start_session();
        rt
    }

    fn session(&self) -> &'s Session {
        &self.spec.sessions[self.si]
    }

    fn start_session(&mut self) {
        let s = self.session();
        self.handler = T::make(&self.spec.pause);
        self.handler.fail_at(s.fail);
        self.pi = 0;
        self.pos = 0;
        self.arrived = 0;
        self.segs_waiting = 0;
        self.running = true;
        self.idle = 0;
        self.cur = new_trace();
        if s.start == Start::Fresh {
            self.h1 = T::new1();
            self.mode = Mode::Head;
            self.h2 = T::new2();
            self.h2_used = false;
            self.counts = [0, 0];
        }
        self.start_phase(Some(&s.start));
    }

    fn start_phase(&mut self, start: Option<&Start>) {
        self.paused = false;
        self.fresh_phase = true;
        let phases = &self.session().phases;
        if self.pi == phases.len() {
            self.running = false;
            self.cur.end = End::Done(self.pos);
            return;
        }
        let reset = start == Some(&Start::Reset);
        if start.map_or(false, |s| *s != Start::Fresh) {
            for _ in 0..self.session().spins {
                if self.session().phases[0] == Phase::H2 {
                    T::reset2(&mut self.h2);
                } else {
                    T::reset1(&mut self.h1);
                }
            }
        }
        match &phases[self.pi] {
            Phase::Head => {
                if start == Some(&Start::Fresh) {
                    // a new parser parses heads
                } else if reset && self.mode == Mode::Head {
                    T::reset1(&mut self.h1);
                } else {
                    T::head(&mut self.h1);
                }
                self.mode = Mode::Head;
            }
            Phase::Chunked => {
                if reset && self.mode == Mode::Chunked {
                    T::reset1(&mut self.h1);
                } else {
                    T::chunked(&mut self.h1);
                }
                self.mode = Mode::Chunked;
            }
            Phase::Multipart { boundary, clens } => {
                self.handler.answers(clens);
                if reset && self.mode == Mode::Multipart {
                    T::reset1(&mut self.h1);
                } else {
                    T::multipart(&mut self.h1);
                }
                self.mode = Mode::Multipart;
                self.h1.set_boundary(boundary);
            }
            Phase::Url { len } => {
                if reset && self.mode == Mode::Url {
                    T::reset1(&mut self.h1);
                } else {
                    T::url(&mut self.h1);
                }
                self.mode = Mode::Url;
                self.h1.set_length(*len);
            }
            Phase::Raw { len } => {
                self.raw_left = *len;
            }
            Phase::H2 => {
                if self.h2_used || (start.is_some() && start != Some(&Start::Fresh)) {
                    T::reset2(&mut self.h2);
                    self.counts[1] = 0;
                }
                self.h2_used = true;
            }
        }
        let state = match phases[self.pi] {
            Phase::H2 => 1 << 16 | self.h2.state() as u32,
            _ => self.h1.state() as u32,
        };
        self.cur.born.push(state);
        self.prev_state = state & 0xFF;
    }

    fn is_h2(&self) -> bool {
        matches!(self.session().phases.get(self.pi), Some(Phase::H2))
            || (self.pi == self.session().phases.len()
                && matches!(self.session().phases.last(), Some(Phase::H2)))
    }

    /// One call into the real parser.
    fn call(&mut self, n: usize, reach: &mut Reach) -> Call {
        let calls = (self.cur.calls.len() + self.cur.post.len()) as u64;
        let stream = &self.session().stream;
        let slice = Slice::new(&stream[self.pos..self.pos + n], calls % 4 == 3);
        self.handler.begin_call(64 + 8 * self.arrived as u64 + 4 * calls);
        let h2 = self.is_h2();
        let before = if h2 { self.h2.byte_count() } else { self.h1.byte_count() };
        let expected = self.counts[h2 as usize];
        let away = calls % 3 > 0;
        let watch = self.watch && n >= WATCHED && calls % 5 == 1;
        if watch {
            reach.faults[F_PAGES] += 1;
        }
        let (h1p, h2p, handler) = match &mut self.spare {
            Some(s) if away => {
                std::mem::swap(&mut self.h1, &mut s.0);
                std::mem::swap(&mut self.h2, &mut s.1);
                (&mut s.0, &mut s.1, &mut self.handler)
            }
            _ => (&mut self.h1, &mut self.h2, &mut self.handler),
        };
        let mut call = || {
            let base = cost::begin(STEPS_PER_CALL + STEPS_PER_BYTE * n as u64);
            if watch {
                slice.watch();
            }
            let r = catch_unwind(AssertUnwindSafe(|| {
                if h2 {
                    T::resume2(h2p, handler, slice.bytes()).map_err(|dead| (if dead { EK::Dead } else { EK::Frame }, 0))
                } else {
                    T::resume1(h1p, handler, slice.bytes()).map_err(error1)
                }
            }));
            let mut c = cost::end(base);
            c.pages = if watch { Some(slice.unwatch()) } else { None };
            (r, c)
        };
        let r;
        (r, self.cost) = if self.threads && away {
            reach.faults[F_MOVE] += 1;
            elsewhere(&mut call)
        } else {
            call()
        };
        if let Some(s) = self.spare.as_mut().filter(|_| away) {
            std::mem::swap(&mut self.h1, &mut s.0);
            std::mem::swap(&mut self.h2, &mut s.1);
        }
        let after = if h2 { self.h2.byte_count() } else { self.h1.byte_count() };
        self.counts[h2 as usize] = after;
        let (state, class) = if h2 {
            let s = self.h2.state();
            let c = match s {
                http2::ParserState::Dead => Class::Dead,
                http2::ParserState::Finished => Class::Finished,
                _ => Class::Other,
            };
            (s as u32, c)
        } else {
            let s = self.h1.state();
            let c = match s {
                http1::ParserState::Dead => Class::Dead,
                http1::ParserState::Finished => Class::Finished,
                _ => Class::Other,
            };
            (s as u32, c)
        };
        let ret = match r {
            Ok(Ok(Success::Eos(k))) => Ret::Eos(k),
            Ok(Ok(Success::Callback(k))) => Ret::Cb(k),
            Ok(Ok(Success::Finished(k))) => Ret::Fin(k),
            Ok(Err((k, b))) => Ret::Err(k, b),
            Err(e) if e.is::<httprec::Failed>() => Ret::Failed,
            Err(_) => Ret::Panic,
        };
        reach.calls += 1;
        reach.bytes += n as u64;
        if (state as usize) < 256 {
            if h2 {
                reach.states2[state as usize] = true;
            } else {
                reach.states1[state as usize] = true;
            }
            if n > 0 {
                let p = (h2 as usize) << 16 | (self.prev_state as usize) << 8 | stream[self.pos] as usize;
                reach.pairs[p / 64] |= 1 << (p % 64);
            }
            reach.edges.insert((h2 as u32) << 20 | self.prev_state << 8 | state);
            self.prev_state = state;
        }
        let mut c = Call {
            phase: self.pi,
            at: self.pos,
            len: n,
            ret,
            items: 0,
            callbacks: 0,
            pieces: 0,
            state,
            class,
            drift: (before as i64).wrapping_sub(expected as i64),
            counted: (after as u64).wrapping_sub(before as u64),
            stop: false,
            after_stop: 0,
        };
        if let Some(l) = self.handler.log() {
            c.items = l.items.len();
            c.callbacks = l.callbacks;
            c.pieces = l.pieces;
            c.stop = l.stop;
            c.after_stop = l.after_stop;
            if l.stop {
                reach.faults[F_PAUSE] += 1;
            }
        }
        c
    }

    fn poll(&mut self, max: usize, force: bool, reach: &mut Reach) -> bool {
        if !self.running {
            return false;
        }
        let avail = self.arrived - self.pos;
        // an application that is called very often reads into a buffer of limited size
        let max = if self.cur.calls.len() > 1000 { max.min(4096) } else { max };
        let n = avail.min(max);
        if let Some(Phase::Raw { .. }) = self.session().phases.get(self.pi) {
            let k = n.min(self.raw_left);
            self.raw_left -= k;
            self.pos += k;
            if self.raw_left == 0 {
                self.pi += 1;
                self.start_phase(None);
                return true;
            }
            return k > 0;
        }
        let empty_ok = self.fresh_phase
            && matches!(self.session().phases.get(self.pi), Some(Phase::Url { len: 0 }));
        if n == 0 && !self.paused && !force && !empty_ok {
            return false;
        }
        if n < avail && n > 0 {
            reach.faults[F_SHORT] += 1;
        } else if n > 0 {
            if self.segs_waiting > 1 {
                reach.faults[F_COALESCE] += 1;
            }
            self.segs_waiting = 0;
        }
        let c = self.call(n, reach);
        self.cur.calls.push(c);
        self.cur.costs.push(self.cost);
        self.fresh_phase = false;
        self.paused = false;
        let known = self.cur.calls.len();
        let (prev_cb, prev_pos) = (
            if known > 1 { self.cur.calls[known - 2].callbacks } else { 0 },
            self.pos,
        );
        match c.ret {
            Ret::Eos(k) | Ret::Cb(k) | Ret::Fin(k) if k > n => {
                self.running = false;
                self.cur.end = End::Broken(format!("{:?} for a slice of {} bytes", c.ret, n));
            }
            Ret::Eos(k) => {
                self.pos += k;
                if k == 0 && n > 0 && c.callbacks == prev_cb {
                    self.running = false;
                    self.cur.end = End::Broken(format!(
                        "Eos(0) for a slice of {} bytes at offset {}: no progress",
                        n, prev_pos
                    ));
                } else if self.pos < self.session().stream.len() && k > 0 {
                    reach.faults[F_SPLIT] += 1;
                }
            }
            Ret::Cb(k) => {
                self.pos += k;
                self.paused = true;
                self.idle = if k > 0 { 0 } else { self.idle + 1 };
                if self.idle > 100 {
                    self.running = false;
                    self.cur.end = End::Broken(format!("callbacks without end at offset {}", self.pos));
                }
            }
            Ret::Fin(k) => {
                self.pos += k;
                self.cur.fins.push(self.pos);
                if self.is_h2() {
                    self.running = false;
                    self.cur.end = End::Broken("HTTP/2 parser reports Finished".into());
                } else {
                    self.pi += 1;
                    self.start_phase(None);
                }
            }
            Ret::Err(kind, byte) => {
                self.running = false;
                let pos = (self.pos as u64).wrapping_add(c.counted) as usize;
                self.cur.end =
                    End::Err { phase: self.pi, kind, byte, pos, lo: self.pos, hi: self.pos + n };
            }
            Ret::Failed => {
                self.running = false;
                reach.faults[F_HANDLER] += 1;
                self.cur.end = End::Failed;
            }
            Ret::Panic => {
                self.running = false;
                let m = PANIC_MSG.with(|p| p.borrow().clone());
                self.cur.end = End::Panic(m);
            }
        }
        true
    }

    /// Calls the parser of a failed or finished session once more.
    fn post_call(&mut self, n: usize, reach: &mut Reach) {
        if matches!(self.cur.end, End::Panic(_) | End::Broken(_) | End::Failed) {
            return;
        }
        if self.cur.calls.is_empty() {
            return;
        }
        self.pos = self.pos.min(self.session().stream.len());
        let n = n.min(self.session().stream.len() - self.pos);
        reach.faults[F_DEADCALL] += 1;
        let pi = self.pi;
        if self.pi == self.session().phases.len() {
            self.pi -= 1;
        }
        let c = self.call(n, reach);
        self.pi = pi;
        self.cur.post.push(c);
    }

    fn finish_session(&mut self, reach: &mut Reach) {
        if self.running {
            self.cur.end = End::Pending { phase: self.pi, pos: self.pos };
        }
        if let Some(l) = self.handler.log() {
            self.cur.items = std::mem::take(&mut l.items);
            self.cur.callbacks = l.callbacks;
            self.cur.data_bytes = l.data_bytes;
            reach.callbacks += l.callbacks;
        }
        let t = std::mem::replace(&mut self.cur, new_trace());
        self.traces.push(t);
    }

    fn next(&mut self, reach: &mut Reach) -> bool {
        if self.si + 1 >= self.spec.sessions.len() {
            return false;
        }
        if self.running && self.pos > 0 {
            reach.faults[F_LOST] += 1;
        }
        let broken = matches!(self.cur.end, End::Panic(_));
        self.finish_session(reach);
        self.si += 1;
        if broken {
            // a parser that panicked may be in any state
            self.h1 = T::new1();
            self.mode = Mode::Head;
            self.h2 = T::new2();
            self.h2_used = false;
            self.counts = [0, 0];
        }
        self.start_session();
        true
    }
}

impl<'s, 'r, T: Port + 's> World<'s, 'r, T> {
    pub fn new(sc: &'s Scenario, reach: &'r mut Reach) -> World<'s, 'r, T> {
        reach.execs += 1;
        World {
            conns: sc.conns.iter().map(|c| Rt::new(c, sc.threads, sc.prop == "C24")).collect(),
            keep_calling: sc.keep_calling,
            drain: sc.drain,
            reach,
        }
    }

    /// Carries out one scheduler decision. Decisions that make no sense are ignored, so that any
    /// part of a trace is a trace.
    pub fn apply(&mut self, a: Act, c: usize) -> bool {
        if c >= self.conns.len() {
            return false;
        }
        let rt = &mut self.conns[c];
        match a {
            Act::Arrive(n) => {
                let left = rt.session().stream.len() - rt.arrived;
                let n = left.min(n as usize);
                rt.arrived += n;
                rt.segs_waiting += 1;
                n > 0
            }
            Act::Poll(n) => {
                if !rt.running && self.keep_calling {
                    rt.post_call(n as usize, self.reach);
                    return true;
                }
                rt.poll(n as usize, false, self.reach)
            }
            Act::Spurious => {
                if !rt.running && self.keep_calling {
                    rt.post_call(0, self.reach);
                    return true;
                }
                if rt.running {
                    self.reach.faults[F_SPURIOUS] += 1;
                }
                rt.poll(0, true, self.reach)
            }
            Act::Next => rt.next(self.reach),
        }
    }

    pub fn left(&self, c: usize) -> usize {
        self.conns[c].session().stream.len() - self.conns[c].arrived
    }
    pub fn unread(&self, c: usize) -> usize {
        self.conns[c].arrived - self.conns[c].pos.min(self.conns[c].arrived)
    }
    pub fn paused(&self, c: usize) -> bool {
        self.conns[c].paused
    }
    pub fn running(&self, c: usize) -> bool {
        self.conns[c].running
    }
    pub fn session(&self, c: usize) -> usize {
        self.conns[c].si
    }
    pub fn stream(&self, c: usize) -> &'s [u8] {
        &self.conns[c].session().stream
    }
    pub fn arrived(&self, c: usize) -> usize {
        self.conns[c].arrived
    }

    /// Faults stop: everything is delivered and every connection is served until nothing moves.
    pub fn finish(mut self) -> Vec<Vec<Trace>> {
        for rt in self.conns.iter_mut() {
            if self.drain {
                loop {
                    rt.arrived = rt.session().stream.len();
                    let (mut idle, mut still) = (0, 0);
                    while rt.running && still < 200 {
                        let (p, n) = (rt.pos, rt.cur.calls.last().map(|c| c.callbacks));
                        if !rt.poll(usize::MAX, false, self.reach) {
                            break;
                        }
                        still = if rt.pos == p { still + 1 } else { 0 };
                        if rt.pos == p && rt.cur.calls.last().map(|c| c.callbacks) == n {
                            idle += 1;
                            if idle > 8 {
                                break;
                            }
                        } else {
                            idle = 0;
                        }
                    }
                    if self.keep_calling && !rt.running {
                        for n in [usize::MAX, 0, 1, usize::MAX] {
                            rt.post_call(n, self.reach);
                        }
                    }
                    if !rt.next(self.reach) {
                        break;
                    }
                }
            }
            rt.finish_session(self.reach);
        }
        self.conns.into_iter().map(|c| c.traces).collect()
    }
}

/// Executes a recorded trace.
pub fn play<T: Port>(sc: &Scenario, ops: &[Op], reach: &mut Reach) -> Vec<Vec<Trace>> {
    let mut w: World<T> = World::new(sc, reach);
    for o in ops {
        w.apply(o.a, o.c as usize);
    }
    w.finish()
}
