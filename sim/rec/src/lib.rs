//! The application's handlers: they record what they are told and ask to stop where the scenario says
//! so. Compiled without instrumentation, so that a call's cost is the parser's (see cost.rs).

pub mod cost;
pub mod item;

use cost::Mine;
use http_box::{http1, http2};
use item::*;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// When the handler asks to stop.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Pause {
    /// At every callback.
    pub all: bool,
    /// At these callbacks of a session, by ordinal.
    pub at: Vec<u32>,
}

impl Pause {
    pub fn none() -> Pause {
        Pause::default()
    }
    pub fn hit(&self, ordinal: u32) -> bool {
        self.all || self.at.binary_search(&ordinal).is_ok()
    }
}

// ---------------------------------------------------------------------------------------------
// handlers

/// What a failing handler unwinds with.
pub struct Failed;

/// What the world needs of a handler besides the crate's two handler traits.
pub trait Hand: http1::HttpHandler + http2::HttpHandler {
    fn make(pause: &Pause) -> Self;
    /// The application's answers to content_length() in the phase that starts.
    fn answers(&mut self, clens: &[Option<usize>]);
    /// This callback of the session fails: it unwinds through the parser.
    fn fail_at(&mut self, ordinal: Option<u32>);
    fn begin_call(&mut self, budget: u64);
    fn log(&mut self) -> Option<&mut Log>;
}

/// Everything a recording handler saw in a session.
#[derive(Default)]
pub struct Log {
    pub items: Vec<Item>,
    /// Rolling hash over the callbacks with their pieces.
    pub pieces: u64,
    pub callbacks: u64,
    pub data_bytes: u64,
    /// The handler asked to stop during the current call.
    pub stop: bool,
    /// Callbacks made in the current call after that.
    pub after_stop: u32,
    pub budget: u64,
}

pub struct Rec {
    pub l: Log,
    pause: Pause,
    ordinal: u32,
    fail: Option<u32>,
    clens: Vec<Option<usize>>,
    asked: usize,
    /// Zeros are not recorded in callbacks of these kinds, but counted.
    quiet: &'static [u8],
}

impl Rec {
    pub fn quiet(&mut self, kinds: &'static [u8]) {
        self.quiet = kinds;
    }
    fn bytes(&mut self, k: u8, d: &[u8]) {
        self.l.data_bytes += d.len() as u64;
        if self.quiet.contains(&k) {
            let ends = d.first().into_iter().chain(d.last());
            self.l.items.extend(ends.filter(|b| **b != 0).map(|b| byte(k, *b)));
        } else {
            self.l.items.extend(d.iter().map(|b| byte(k, *b)));
        }
    }
    fn answer(&mut self, k: u8, n: u64) -> bool {
        self.l.callbacks += 1;
        self.l.pieces = mix(self.l.pieces ^ (k as u64) << 56 ^ n);
        if self.l.callbacks > self.l.budget {
            panic!("callback budget exceeded");
        }
        if self.l.stop {
            self.l.after_stop += 1;
        }
        let o = self.ordinal;
        self.ordinal += 1;
        if self.fail == Some(o) {
            std::panic::resume_unwind(Box::new(Failed));
        }
        if self.pause.hit(o) {
            self.l.stop = true;
            return false;
        }
        true
    }
    #[inline(never)]
    fn ev(&mut self, i: Item) -> bool {
        let _mine = Mine::new();
        self.l.items.push(i);
        self.answer(i.k, i.v)
    }
    #[inline(never)]
    fn data(&mut self, k: u8, d: &[u8]) -> bool {
        let _mine = Mine::new();
        if d.is_empty() && k == HVALUE {
            self.l.items.push(it(HVALUE_EMPTY));
        }
        self.bytes(k, d);
        self.answer(k, d.len() as u64)
    }
    #[inline(never)]
    fn piece(&mut self, k: u8, k_end: u8, d: &[u8], fin: bool) -> bool {
        let _mine = Mine::new();
        self.bytes(k, d);
        if fin {
            self.l.items.push(it(k_end));
        }
        self.answer(if fin { k_end } else { k }, d.len() as u64)
    }
}

impl Hand for Rec {
    fn make(pause: &Pause) -> Rec {
        Rec { l: Log::default(), pause: pause.clone(), ordinal: 0, fail: None, clens: vec![], asked: 0, quiet: &[] }
    }
    fn answers(&mut self, clens: &[Option<usize>]) {
        self.clens = clens.to_vec();
        self.asked = 0;
    }
    fn fail_at(&mut self, ordinal: Option<u32>) {
        self.fail = ordinal;
    }
    fn begin_call(&mut self, budget: u64) {
        self.l.stop = false;
        self.l.after_stop = 0;
        self.l.budget = budget;
    }
    fn log(&mut self) -> Option<&mut Log> {
        Some(&mut self.l)
    }
}

impl http1::HttpHandler for Rec {
    #[inline(never)]
    fn content_length(&mut self) -> Option<usize> {
        let _mine = Mine::new();
        self.l.items.push(it(CLEN_QUERY));
        if self.l.stop {
            self.l.after_stop += 1;
        }
        self.l.callbacks += 1;
        if self.l.callbacks > self.l.budget {
            panic!("callback budget exceeded");
        }
        let n = self.clens.get(self.asked).copied().unwrap_or(None);
        self.asked += 1;
        n
    }
    fn on_body_finished(&mut self) -> bool {
        self.ev(it(BODY_FIN))
    }
    fn on_chunk_begin(&mut self) -> bool {
        self.ev(it(CHUNK_BEGIN))
    }
    fn on_chunk_data(&mut self, d: &[u8]) -> bool {
        self.data(CHUNK_DATA, d)
    }
    fn on_chunk_extension_finished(&mut self) -> bool {
        self.ev(it(CEXT_FIN))
    }
    fn on_chunk_extension_name(&mut self, d: &[u8]) -> bool {
        self.data(CEXT_NAME, d)
    }
    fn on_chunk_extension_value(&mut self, d: &[u8]) -> bool {
        self.data(CEXT_VALUE, d)
    }
    fn on_chunk_extensions_finished(&mut self) -> bool {
        self.ev(it(CEXTS_FIN))
    }
    fn on_chunk_length(&mut self, n: usize) -> bool {
        self.ev(val(CHUNK_LEN, n as u64))
    }
    fn on_header_name(&mut self, d: &[u8]) -> bool {
        self.data(HNAME, d)
    }
    fn on_header_value(&mut self, d: &[u8]) -> bool {
        self.data(HVALUE, d)
    }
    fn on_headers_finished(&mut self) -> bool {
        self.ev(it(HEADERS_FIN))
    }
    fn on_initial_finished(&mut self) -> bool {
        self.ev(it(INITIAL_FIN))
    }
    fn on_method(&mut self, d: &[u8]) -> bool {
        self.data(METHOD, d)
    }
    fn on_multipart_begin(&mut self) -> bool {
        self.ev(it(MP_BEGIN))
    }
    fn on_multipart_data(&mut self, d: &[u8]) -> bool {
        self.data(MP_DATA, d)
    }
    fn on_status(&mut self, d: &[u8]) -> bool {
        self.data(STATUS, d)
    }
    fn on_status_code(&mut self, c: u16) -> bool {
        self.ev(val(STATUS_CODE, c as u64))
    }
    fn on_url(&mut self, d: &[u8]) -> bool {
        self.data(URL, d)
    }
    fn on_url_encoded_begin(&mut self) -> bool {
        self.ev(it(URL_BEGIN))
    }
    fn on_url_encoded_name(&mut self, d: &[u8]) -> bool {
        self.data(URL_NAME, d)
    }
    fn on_url_encoded_value(&mut self, d: &[u8]) -> bool {
        self.data(URL_VALUE, d)
    }
    fn on_version(&mut self, major: u16, minor: u16) -> bool {
        self.ev(val(VERSION, (major as u64) << 16 | minor as u64))
    }
}

impl http2::HttpHandler for Rec {
    fn on_data(&mut self, d: &[u8], fin: bool) -> bool {
        self.piece(H2_DATA, H2_DATA_END, d, fin)
    }
    fn on_frame_format(&mut self, len: u32, ty: u8, flags: u8, sid: u32) -> bool {
        self.ev(frame(len, ty, flags, sid))
    }
    fn on_go_away(&mut self, sid: u32, code: u32) -> bool {
        self.ev(val2(H2_GOAWAY, sid, code as u64))
    }
    fn on_go_away_debug_data(&mut self, d: &[u8], fin: bool) -> bool {
        self.piece(H2_DEBUG, H2_DEBUG_END, d, fin)
    }
    fn on_headers(&mut self, exclusive: bool, sid: u32, weight: u8) -> bool {
        self.ev(prio(H2_HEADERS, exclusive, sid, weight))
    }
    fn on_headers_fragment(&mut self, d: &[u8], fin: bool) -> bool {
        self.piece(H2_FRAG, H2_FRAG_END, d, fin)
    }
    fn on_ping(&mut self, d: &[u8], fin: bool) -> bool {
        self.piece(H2_PING, H2_PING_END, d, fin)
    }
    fn on_priority(&mut self, exclusive: bool, sid: u32, weight: u8) -> bool {
        self.ev(prio(H2_PRIORITY, exclusive, sid, weight))
    }
    fn on_push_promise(&mut self, sid: u32) -> bool {
        self.ev(val(H2_PUSH, sid as u64))
    }
    fn on_rst_stream(&mut self, code: u32) -> bool {
        self.ev(val(H2_RST, code as u64))
    }
    fn on_settings(&mut self, id: u16, value: u32) -> bool {
        self.ev(val2(H2_SETTINGS, id as u32, value as u64))
    }
    fn on_unsupported(&mut self, d: &[u8], fin: bool) -> bool {
        self.piece(H2_UNSUP, H2_UNSUP_END, d, fin)
    }
    fn on_window_update(&mut self, n: u32) -> bool {
        self.ev(val(H2_WINDOW, n as u64))
    }
}

/// An application that implements no callback at all: the trait's defaults must parse through.
pub struct Nul;

impl http1::HttpHandler for Nul {}
impl http2::HttpHandler for Nul {}
impl Hand for Nul {
    fn make(_: &Pause) -> Nul {
        Nul
    }
    fn answers(&mut self, _: &[Option<usize>]) {}
    fn fail_at(&mut self, _: Option<u32>) {}
    fn begin_call(&mut self, _: u64) {}
    fn log(&mut self) -> Option<&mut Log> {
        None
    }
}

