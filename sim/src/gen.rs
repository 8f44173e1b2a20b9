//! Workload: what peers send. Well-formed messages are built together with the history they must
//! produce, so that the reference models are themselves checked (`httpsim selftest`).

use crate::item::*;
use crate::model::*;
use crate::rng::Rng;
use crate::scenario::*;
use crate::world::*;
use std::rc::Rc;

#[derive(Default)]
pub struct B {
    pub bytes: Vec<u8>,
    pub items: Vec<Item>,
}

impl B {
    fn raw(&mut self, b: &[u8]) {
        self.bytes.extend_from_slice(b);
    }
    fn data(&mut self, k: u8, b: &[u8]) {
        self.bytes.extend_from_slice(b);
        self.items.extend(b.iter().map(|x| byte(k, *x)));
    }
    fn ev(&mut self, i: Item) {
        self.items.push(i);
    }
}

/// What this run emphasises (swarm testing: every run has its own mix).
#[derive(Clone, Debug)]
pub struct Swarm {
    pub size: usize,
    pub quote: usize,
    pub fold: usize,
    pub high: usize,
    pub fast_names: usize,
    pub headers: usize,
    pub exts: usize,
    pub parts: usize,
    pub clen: usize,
    pub lookalike: usize,
    pub escapes: usize,
    pub odd_versions: usize,
    pub frames: usize,
    pub pad: usize,
    /// The element that may be longer than 65,536 bytes (while all others are short), or 0 for any.
    pub long: usize,
}

const LONG: usize = 65_000;
const L_BLANK: usize = 1;
const L_METHOD: usize = 2;
const L_URL: usize = 3;
const L_STATUS: usize = 4;
const L_HNAME: usize = 5;
const L_HVALUE: usize = 6;
const L_QUOTED: usize = 7;
const L_CEXT_NAME: usize = 8;
const L_CEXT_VALUE: usize = 9;
const L_CHUNK: usize = 10;
const L_PART: usize = 11;
const L_URL_NAME: usize = 12;
const L_URL_VALUE: usize = 13;
const L_FRAME: usize = 14;

mod literals {
    include!(concat!(env!("OUT_DIR"), "/literals.rs"));
}

const COMMON: &[&[u8]] = &[
    b"Origin", b"If-None-Match", b"If-Modified-Since", b"If-Match", b"If-Range", b"Accept-Ranges", b"Content-Encoding",
    b"Content-Language", b"Content-Location", b"Content-Range", b"Content-Disposition", b"Content-MD5", b"Expect",
    b"Strict-Transport-Security", b"Access-Control-Allow-Origin", b"Access-Control-Request-Method", b"Trailer",
    b"Warning", b"Vary", b"Proxy-Authorization", b"Proxy-Authenticate", b"Proxy-Connection", b"Max-Forwards", b"DNT",
    b"HTTP2-Settings", b"Alt-Svc", b"Link", b"Forwarded", b"X-Real-IP", b"X-Request-ID", b"X-Requested-With",
    b"X-Forwarded-Proto", b"X-Frame-Options", b"X-Content-Type-Options", b"Retry-After", b"From", b"Keep-Alive",
    b"Sec-WebSocket-Key", b"Sec-WebSocket-Version", b"Sec-Fetch-Mode", b"Upgrade-Insecure-Requests", b"P3P",
    b"keep-alive", b"close", b"chunked", b"identity", b"gzip", b"100-continue", b"text/html", b"no-cache", b"*/*",
    b"multipart/form-data", b"application/x-www-form-urlencoded", b"boundary", b"form-data", b"filename", b"name",
    b"charset=utf-8", b"max-age=0", b"websocket", b"h2c", b"/index.html", b"http://a/", b"/?a=b", b"*", b"localhost:80",
    b"PROPFIND", b"PROPPATCH", b"MKCOL", b"COPY", b"MOVE", b"LOCK", b"UNLOCK", b"SEARCH", b"REPORT", b"PURGE", b"LINK",
    b"MERGE", b"NOTIFY", b"SUBSCRIBE", b"MKCALENDAR", b"OK", b"PRI", b"HTTP", b"HTTP/1.1", b"a.b.c", b"0", b"1", b"100",
];

/// Words and numbers that peers use, or that the parsers' sources mention.
fn word(r: &mut Rng, fit: impl Fn(u8) -> bool) -> Option<&'static [u8]> {
    let mut w: &[u8] = if r.pct(50) { r.pick(COMMON) } else { r.pick(literals::WORDS) };
    while let Some((l, b)) = w.split_last() {
        if fit(*l) {
            break;
        }
        w = b;
    }
    if w.is_empty() || !w.iter().all(|b| fit(*b)) {
        None
    } else {
        Some(w)
    }
}

fn number(r: &mut Rng) -> u64 {
    let n = if r.pct(50) { *r.pick(literals::NUMBERS) } else { 1 << r.range(3, 32) };
    (n + r.below(3) as u64).wrapping_sub(1)
}

/// More than fits in 16 bits.
pub const LEGION: usize = 140_000;

pub fn swarm(r: &mut Rng) -> Swarm {
    let on = |r: &mut Rng, hi: usize| if r.one_in(3) { 0 } else { r.range(1, hi) };
    let mut sw = Swarm {
        size: match r.below(600) {
            0 | 1 => *r.pick(&[66_000, 70_000, 140_000]),
            2..=4 => 5_000,
            5..=50 => 400,
            51..=250 => 60,
            _ => 16,
        },
        quote: on(r, 60),
        fold: on(r, 40),
        high: on(r, 50),
        fast_names: on(r, 90),
        headers: match r.below(40) {
            0 => 60,
            1..=8 => 0,
            9..=20 => 2,
            _ => 6,
        },
        exts: on(r, 80),
        parts: *r.pick(&[0, 1, 1, 2, 3, 5]),
        clen: *r.pick(&[0, 0, 30, 60, 100]),
        lookalike: on(r, 90),
        escapes: on(r, 50),
        odd_versions: on(r, 80),
        frames: *r.pick(&[1, 1, 2, 3, 5, 9]),
        pad: on(r, 80),
        long: r.below(20),
    };
    if sw.size > LONG {
        match sw.long {
            L_HNAME => sw.fast_names = 10,
            L_QUOTED => sw.quote = 60,
            L_CEXT_NAME | L_CEXT_VALUE => sw.exts = 60,
            L_BLANK..=L_FRAME => {}
            _ => sw.long = 0,
        }
    }
    if sw.size >= 5000 {
        // few, but large
        sw.headers = sw.headers.min(3);
        sw.parts = sw.parts.min(2);
        sw.frames = sw.frames.min(3);
    } else if r.one_in(250) {
        // many, but small
        sw.size = 8;
        let legion = r.one_in(100);
        if legion {
            sw.size = 1;
            sw.headers = 1;
        }
        match r.below(4) {
            0 => sw.headers = if legion { LEGION } else { 300 },
            1 if !legion => sw.exts = 99,
            2 => sw.parts = if legion { LEGION } else { 80 },
            _ => sw.frames = if legion { LEGION } else { 300 },
        }
    }
    sw
}

/// A length: usually small, sometimes up to the run's size.
fn len(r: &mut Rng, sw: &Swarm, lo: usize, what: usize) -> usize {
    if sw.size > LONG && sw.long > 0 {
        return if what != sw.long {
            lo + r.below(40)
        } else if r.pct(50) {
            r.range(LONG, sw.size)
        } else {
            lo + r.below(400)
        };
    }
    match r.below(12) {
        0 => lo,
        1..=6 => lo + r.below(8),
        7..=9 => lo + r.below(20.min(sw.size) + 1),
        10 if r.one_in(3) => {
            let n = number(r);
            if n <= sw.size as u64 {
                lo.max(n as usize)
            } else {
                lo + r.below(sw.size + 1)
            }
        }
        _ => lo + r.below(sw.size + 1),
    }
}

pub const FAST_NAMES: &[&[u8]] = &[
    b"Accept", b"Accept-Charset", b"Accept-Encoding", b"Accept-Language", b"Authorization",
    b"Host", b"User-Agent", b"Upgrade", b"Connection", b"Content-Type", b"Content-Length",
    b"Cookie", b"Cache-Control", b"Content-Security-Policy", b"Location", b"Last-Modified",
    b"Pragma", b"Set-Cookie", b"Transfer-Encoding", b"X-Powered-By", b"X-Forwarded-For",
    b"X-Forwarded-Host", b"X-XSS-Protection", b"X-WebKit-CSP", b"WWW-Authenticate", b"Date",
    b"Server", b"ETag", b"Expires", b"Range", b"Referer", b"Via", b"Age", b"Allow", b"TE",
];

pub const METHODS: &[&[u8]] = &[
    b"GET", b"POST", b"PUT", b"DELETE", b"CONNECT", b"OPTIONS", b"TRACE", b"HEAD", b"PATCH",
];

const TOKENS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~";

fn vis(r: &mut Rng) -> u8 {
    0x21 + r.below(0x7F - 0x21) as u8
}

fn field_byte(r: &mut Rng, sw: &Swarm) -> u8 {
    if r.pct(sw.high) {
        return if r.one_in(4) { *r.pick(&[0x80, 0xFF, 0xFE, 0xC3]) } else { 0x80 | r.byte() };
    }
    match r.below(12) {
        0 => b' ',
        1 => b'\t',
        2 => *r.pick(b";:=,\\/()-"),
        _ => loop {
            let b = vis(r);
            if b != b'"' {
                return b;
            }
        },
    }
}

fn mangle_case(r: &mut Rng, n: &mut [u8]) {
    match r.below(4) {
        0 => n.make_ascii_lowercase(),
        1 => n.make_ascii_uppercase(),
        2 => {
            for b in n.iter_mut() {
                if r.pct(50) {
                    b.make_ascii_uppercase()
                } else {
                    b.make_ascii_lowercase()
                }
            }
        }
        _ => {
            let i = r.below(n.len());
            if n[i].is_ascii_uppercase() {
                n[i].make_ascii_lowercase()
            } else {
                n[i].make_ascii_uppercase()
            }
        }
    }
}

/// A token of some length; some have long runs of one kind of letter, which are delivered in one piece.
fn token(r: &mut Rng, sw: &Swarm, what: usize) -> Vec<u8> {
    let n = len(r, sw, 1, what);
    let kind = r.below(12);
    (0..n)
        .map(|_| match kind {
            0..=2 => b'a' + r.below(26) as u8,
            3 => b'A' + r.below(26) as u8,
            4 if !r.one_in(100) => b'a' + r.below(26) as u8,
            5 => r.pick(TOKENS).to_ascii_lowercase(),
            _ => *r.pick(TOKENS),
        })
        .collect()
}

fn header_name(r: &mut Rng, sw: &Swarm) -> Vec<u8> {
    if r.pct(sw.fast_names) {
        let mut n = match word(r, |b| TOKENS.contains(&b)) {
            Some(w) if r.one_in(6) => w.to_vec(),
            _ => r.pick(FAST_NAMES).to_vec(),
        };
        match r.below(8) {
            0 => mangle_case(r, &mut n),
            1 => {
                n.pop();
            }
            2 => n.push(*r.pick(TOKENS)),
            3 => {
                let i = r.below(n.len());
                n[i] = *r.pick(TOKENS);
            }
            _ => {}
        }
        n
    } else {
        token(r, sw, L_HNAME)
    }
}

fn quoted(r: &mut Rng, sw: &Swarm, out: &mut Vec<(u8, bool)>) {
    // (byte, belongs to the unquoted value)
    out.push((b'"', false));
    let most = if r.one_in(12) || sw.size > LONG && sw.long == L_QUOTED { usize::MAX } else { 200 };
    let escapes = *r.pick(&[0, 1, 20, 20, 20, 20]);
    for _ in 0..len(r, sw, 0, L_QUOTED).min(most) {
        if r.pct(escapes) {
            out.push((b'\\', false));
            let b = match r.below(3) {
                0 => *r.pick(b"\"\\ z"),
                _ => 0x20 + r.below(0x7A - 0x20 + 1) as u8,
            };
            out.push((b, true));
        } else {
            let b = field_byte(r, sw);
            if b != b'\\' {
                out.push((b, true));
            }
        }
    }
    out.push((b'"', false));
}

fn header_value(r: &mut Rng, sw: &Swarm, b: &mut B) {
    for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 3]) {
        b.raw(if r.one_in(4) { b"\t" } else { b" " });
    }
    if r.one_in(16) {
        b.ev(it(HVALUE_EMPTY));
    } else {
        let mut first = true;
        for _ in 0..r.range(1, 3) {
            let w = if r.one_in(12) { word(r, |b| visible(b) && b != b'"') } else { None };
            if r.pct(sw.quote) {
                let mut q = vec![];
                quoted(r, sw, &mut q);
                let q: Vec<u8> = q.into_iter().map(|x| x.0).collect();
                b.data(HVALUE, &q);
            } else if let Some(w) = w {
                b.data(HVALUE, w);
            } else {
                for i in 0..len(r, sw, 1, L_HVALUE) {
                    let mut x = field_byte(r, sw);
                    if first && i == 0 {
                        while x == b' ' || x == b'\t' {
                            x = field_byte(r, sw);
                        }
                    }
                    b.data(HVALUE, &[x]);
                }
            }
            first = false;
        }
    }
    while r.pct(sw.fold) {
        b.raw(b"\r\n");
        b.raw(if r.pct(50) { b" " } else { b"\t" });
        for _ in 0..len(r, sw, 0, L_HVALUE).min(100) {
            let x = field_byte(r, sw);
            b.data(HVALUE, &[x]);
        }
        if r.pct(sw.quote) {
            let mut q = vec![];
            quoted(r, sw, &mut q);
            let q: Vec<u8> = q.into_iter().map(|x| x.0).collect();
            b.data(HVALUE, &q);
        }
    }
    b.raw(b"\r\n");
}

fn headers(r: &mut Rng, sw: &Swarm, b: &mut B) {
    for _ in 0..r.below(sw.headers + 1) {
        let n = header_name(r, sw);
        b.raw(&n);
        b.items.extend(n.iter().map(|x| byte(HNAME, x.to_ascii_lowercase())));
        b.raw(b":");
        header_value(r, sw, b);
    }
    b.raw(b"\r\n");
    b.ev(it(HEADERS_FIN));
}

fn version(r: &mut Rng, sw: &Swarm) -> (Vec<u8>, u64) {
    let (a, c) = if r.pct(sw.odd_versions) {
        let mut num = |_: ()| -> String {
            let v = match r.below(4) {
                0 => r.below(10),
                1 => r.below(100),
                2 => *r.pick(&[0, 255, 256, 999, 100]),
                _ => r.below(1000),
            };
            let w = r.range(1, 3);
            let s = format!("{:0w$}", v, w = w);
            if s.len() > 3 {
                s[..3].to_string()
            } else {
                s
            }
        };
        (num(()), num(()))
    } else {
        let (a, c) = *r.pick(&[("1", "1"), ("1", "0"), ("2", "0"), ("1", "1")]);
        (a.to_string(), c.to_string())
    };
    let v = a.parse::<u64>().unwrap() << 16 | c.parse::<u64>().unwrap();
    (format!("{}.{}", a, c).into_bytes(), v)
}

pub fn head(r: &mut Rng, sw: &Swarm, b: &mut B, strip: bool) {
    if strip && r.one_in(4) {
        let n = match r.below(40) {
            0 => len(r, sw, 1, L_BLANK),
            1..=8 => r.range(5, 80),
            _ => r.range(1, 5),
        };
        for _ in 0..n {
            b.raw(&[*r.pick(b"\r\n \t")]);
        }
    }
    if r.pct(65) {
        // the HTTP/2 preface, or something close to it
        let pri = r.one_in(15);
        let m: Vec<u8> = match r.below(10) {
            _ if pri => b"PRI".to_vec(),
            0..=4 => r.pick(METHODS).to_vec(),
            5 | 6 => {
                let mut m = b"HTTP"[..r.range(1, 4)].to_vec();
                for _ in 0..*r.pick(&[0, 0, 1, 3]) {
                    m.push(b'A' + r.below(26) as u8);
                }
                m
            }
            7 => {
                let mut m = r.pick(METHODS).to_vec();
                match r.below(3) {
                    0 => {
                        m.pop();
                    }
                    1 => m.push(b'A' + r.below(26) as u8),
                    _ => {
                        let i = r.below(m.len());
                        m[i] = b'A' + r.below(26) as u8;
                    }
                }
                m
            }
            _ => match word(r, |b| b.is_ascii_uppercase()) {
                Some(w) => w.to_vec(),
                None => (0..len(r, sw, 1, L_METHOD)).map(|_| b'A' + r.below(26) as u8).collect(),
            },
        };
        b.data(METHOD, &m);
        b.raw(b" ");
        let u: Vec<u8> = match r.below(4) {
            0..=2 if pri => b"*".to_vec(),
            0 if r.one_in(4) => word(r, |b| b > 0x20 && b < 0x7F).unwrap_or(b"/").to_vec(),
            _ => (0..len(r, sw, 1, L_URL)).map(|_| vis(r)).collect(),
        };
        b.data(URL, &u);
        b.raw(b" HTTP/");
        let (t, v) = if pri && r.pct(75) { (b"2.0".to_vec(), 2 << 16) } else { version(r, sw) };
        b.raw(&t);
        b.ev(val(VERSION, v));
    } else {
        b.raw(b"HTTP/");
        let (t, v) = version(r, sw);
        b.raw(&t);
        b.ev(val(VERSION, v));
        let c = if r.pct(60) { *r.pick(&[100, 200, 204, 206, 301, 304, 404, 500]) } else { r.below(1000) };
        b.raw(format!(" {:03} ", c).as_bytes());
        b.ev(val(STATUS_CODE, c as u64));
        let n = len(r, sw, 0, L_STATUS);
        let s: Vec<u8> = match r.below(4) {
            0 => b"OK".to_vec(),
            1 => b"NOT FOUND".to_vec(),
            _ => (0..n)
                .map(|_| if r.pct(sw.high) { 0x80 | r.byte() } else { 0x20 + r.below(0x5F) as u8 })
                .collect(),
        };
        b.data(STATUS, &s);
    }
    b.raw(b"\r\n");
    b.ev(it(INITIAL_FIN));
    headers(r, sw, b);
}

fn hexlen(r: &mut Rng, n: u64) -> Vec<u8> {
    let s = format!("{:x}", n);
    let zeros = if r.one_in(8) { r.below(8 - s.len().min(8) + 1) } else { 0 };
    let mut v = vec![b'0'; zeros];
    v.extend(s.bytes().map(|c| if r.pct(50) { c.to_ascii_uppercase() } else { c }));
    v
}

fn chunk_exts(r: &mut Rng, sw: &Swarm, b: &mut B, last: bool) {
    let mut any = false;
    while r.pct(sw.exts) {
        any = true;
        b.raw(b";");
        for _ in 0..*r.pick(&[0, 0, 1, 2]) {
            b.raw(if r.one_in(3) { b"\t" } else { b" " });
        }
        let n: Vec<u8> = match word(r, |b| TOKENS.contains(&b)) {
            Some(w) if r.one_in(8) => w.to_vec(),
            _ => token(r, sw, L_CEXT_NAME),
        };
        b.raw(&n);
        b.items.extend(n.iter().map(|x| byte(CEXT_NAME, x.to_ascii_lowercase())));
        if r.pct(65) {
            b.raw(b"=");
            for _ in 0..*r.pick(&[0, 0, 1, 2]) {
                b.raw(if r.one_in(3) { b"\t" } else { b" " });
            }
            let mut first = true;
            for _ in 0..r.range(1, 2) {
                if r.pct(sw.quote) {
                    let mut q = vec![];
                    quoted(r, sw, &mut q);
                    for (x, v) in q {
                        b.raw(&[x]);
                        if v {
                            b.ev(byte(CEXT_VALUE, x));
                        }
                    }
                } else {
                    for i in 0..len(r, sw, 1, L_CEXT_VALUE) {
                        let mut x = field_byte(r, sw);
                        while x == b';' || (first && i == 0 && !visible(x)) {
                            x = field_byte(r, sw);
                        }
                        b.data(CEXT_VALUE, &[x]);
                    }
                }
                first = false;
            }
        }
        b.ev(it(CEXT_FIN));
    }
    if any || !last {
        b.ev(it(CEXTS_FIN));
    }
    b.raw(b"\r\n");
}

pub fn any_bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    let mode = r.below(4);
    (0..n)
        .map(|_| match mode {
            0 => r.byte(),
            1 => *r.pick(b"\r\n0-;\x00\xff"),
            2 => b'a' + r.below(26) as u8,
            _ => {
                if r.one_in(4) {
                    *r.pick(b"\r\n0-;:=\x00\xff")
                } else {
                    r.byte()
                }
            }
        })
        .collect()
}

pub fn chunked(r: &mut Rng, sw: &Swarm, b: &mut B) {
    for _ in 0..r.below(sw.parts + 2) {
        let n = match r.below(10) {
            0..=4 => r.range(1, 20),
            5 => *r.pick(&[1, 9, 10, 15, 16, 17, 255, 256, 257]),
            _ => len(r, sw, 1, L_CHUNK),
        };
        let n = if sw.size >= 5000 && (sw.size <= LONG || matches!(sw.long, 0 | L_CHUNK)) && r.one_in(3) {
            *r.pick(&[4095, 4096, 4097, sw.size, sw.size - 4_470])
        } else {
            n
        };
        b.ev(it(CHUNK_BEGIN));
        let h = hexlen(r, n as u64);
        b.raw(&h);
        b.ev(val(CHUNK_LEN, n as u64));
        chunk_exts(r, sw, b, false);
        let d = any_bytes(r, n);
        b.data(CHUNK_DATA, &d);
        b.raw(b"\r\n");
    }
    b.ev(it(CHUNK_BEGIN));
    let z = hexlen(r, 0);
    b.raw(&z);
    b.ev(val(CHUNK_LEN, 0));
    chunk_exts(r, sw, b, true);
    headers(r, sw, b);
    b.ev(it(BODY_FIN));
}

pub fn boundary(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(40) {
        0 if r.one_in(12) => *r.pick(&[1023, 1024, 4095, 4096, 8191, 8192, 8193, 9000]),
        0 => r.range(71, 400),
        1..=4 => r.range(30, 70),
        _ => r.range(1, 12),
    };
    let alphabet: &[u8] = match r.below(5) {
        0 => b"-",
        1 => b"a-",
        2 => b"ab",
        3 => b"a b",
        _ => b"abcdefXYZ0189'()+_,-./:=?",
    };
    (0..n).map(|_| *r.pick(alphabet)).collect()
}

fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    hay.windows(needle.len()).position(|w| w == needle)
}

pub fn multipart(r: &mut Rng, sw: &Swarm, b: &mut B) -> Phase {
    let bo = boundary(r);
    let mut delim = b"\r\n--".to_vec();
    delim.extend_from_slice(&bo);
    let mut clens = vec![];
    b.raw(&delim[2..]);
    for _ in 0..r.below(sw.parts + 2) {
        b.raw(b"\r\n");
        b.ev(it(MP_BEGIN));
        headers(r, sw, b);
        b.ev(it(CLEN_QUERY));
        let exact = r.pct(sw.clen);
        let mut d: Vec<u8> = vec![];
        for _ in 0..r.below(5) {
            if r.pct(sw.lookalike) {
                match r.below(5) {
                    0 => d.push(b'\r'),
                    1 => d.extend_from_slice(b"\r\n"),
                    2 => d.extend_from_slice(b"\r\n-"),
                    _ => {
                        let mut k = r.range(1, delim.len());
                        if k == delim.len() && !exact {
                            k -= 1;
                        }
                        d.extend_from_slice(&delim[..k]);
                        if r.pct(30) {
                            d.push(r.byte());
                        }
                    }
                }
            } else {
                let n = len(r, sw, 0, L_PART);
                d.extend(any_bytes(r, n));
            }
        }
        if !exact {
            // the data must not contain the delimiter, nor make one together with what follows
            let mut all = d.clone();
            all.extend_from_slice(&delim);
            if let Some(i) = find(&all, &delim) {
                d.truncate(i);
            }
        }
        b.data(MP_DATA, &d);
        clens.push(if exact { Some(d.len()) } else { None });
        b.raw(&delim);
    }
    b.raw(b"--");
    b.ev(it(BODY_FIN));
    Phase::Multipart { boundary: Rc::new(bo), clens }
}

fn url_text(r: &mut Rng, sw: &Swarm, b: &mut B, k: u8) {
    if r.one_in(20) {
        if let Some(w) = word(r, |b| b > 0x20 && b < 0x7F && !b"%+&;=".contains(&b)) {
            b.data(k, w);
        }
    }
    for _ in 0..len(r, sw, 0, if k == URL_NAME { L_URL_NAME } else { L_URL_VALUE }) {
        if r.pct(sw.escapes) {
            if r.one_in(3) {
                b.raw(b"+");
                b.ev(byte(k, b' '));
            } else {
                let v = r.byte();
                let h = format!("%{:02x}", v);
                let h: Vec<u8> =
                    h.bytes().map(|c| if r.pct(50) { c.to_ascii_uppercase() } else { c }).collect();
                b.raw(&h);
                b.ev(byte(k, v));
            }
        } else {
            let mut x = vis(r);
            while b"%+&;".contains(&x) || (x == b'=' && k == URL_NAME) {
                x = vis(r);
            }
            b.data(k, &[x]);
        }
    }
}

pub fn url(r: &mut Rng, sw: &Swarm, b: &mut B) -> Phase {
    let start = b.bytes.len();
    let n = if sw.frames > 9 { r.below(sw.frames) } else { *r.pick(&[0, 1, 1, 2, 3, 6]) };
    for i in 0..n {
        let before = b.bytes.len();
        let at = b.items.len();
        url_text(r, sw, b, URL_NAME);
        if r.pct(75) {
            b.raw(b"=");
            url_text(r, sw, b, URL_VALUE);
        }
        if i + 1 < n || r.one_in(5) {
            b.raw(if r.one_in(4) { b";" } else { b"&" });
        }
        if b.bytes.len() > before {
            b.items.insert(at, it(URL_BEGIN));
        }
    }
    b.ev(it(BODY_FIN));
    Phase::Url { len: b.bytes.len() - start }
}

fn be4(v: u32) -> [u8; 4] {
    v.to_be_bytes()
}

fn any32(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => r.below(16) as u32,
        5 if r.pct(50) => number(r) as u32,
        1 => *r.pick(&[0, 1, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0x0102_0304, 0x8000_0001, 0x00FF_0000]),
        _ => r.next() as u32,
    }
}

/// One well-formed frame.
pub fn frame_wf(r: &mut Rng, sw: &Swarm, b: &mut B) {
    let ty = match r.below(14) {
        n @ 0..=9 => n as u8,
        10 => F_DATA,
        11 => F_HEADERS,
        12 => F_GOAWAY,
        _ => *r.pick(&[10, 11, 16, 0x7F, 0x80, 0xFE, 0xFF]),
    };
    let mut flags = match r.below(4) {
        0 => 0,
        1 => 1 << r.below(8),
        _ => r.byte(),
    };
    if !r.pct(sw.pad) {
        flags &= !FL_PADDED;
    }
    let sid = any32(r);
    let mut p: Vec<u8> = vec![];
    let mut items = vec![];
    let body = len(r, sw, 0, L_FRAME);
    let d = any_bytes(r, body);
    let piece = |p: &mut Vec<u8>, items: &mut Vec<Item>, k: u8, e: u8| {
        p.extend_from_slice(&d);
        items.extend(d.iter().map(|x| byte(k, *x)));
        items.push(it(e));
    };
    match ty {
        F_DATA => piece(&mut p, &mut items, H2_DATA, H2_DATA_END),
        F_HEADERS => {
            if flags & FL_PRIO != 0 {
                let (v, w) = (any32(r), r.byte());
                p.extend_from_slice(&be4(v));
                p.push(w);
                items.push(prio(H2_HEADERS, v >> 31 == 1, v & 0x7FFF_FFFF, w));
            } else {
                items.push(prio(H2_HEADERS, false, 0, 0));
            }
            piece(&mut p, &mut items, H2_FRAG, H2_FRAG_END);
        }
        F_PRIORITY => {
            let (v, w) = (any32(r), r.byte());
            p.extend_from_slice(&be4(v));
            p.push(w);
            items.push(prio(H2_PRIORITY, v >> 31 == 1, v & 0x7FFF_FFFF, w));
        }
        F_RST => {
            let v = any32(r);
            p.extend_from_slice(&be4(v));
            items.push(val(H2_RST, v as u64));
        }
        F_SETTINGS => {
            if r.pct(75) {
                let (i, v) = (any32(r) as u16, any32(r));
                p.extend_from_slice(&i.to_be_bytes());
                p.extend_from_slice(&be4(v));
                items.push(val2(H2_SETTINGS, i as u32, v as u64));
            }
        }
        F_PUSH => {
            let v = any32(r);
            p.extend_from_slice(&be4(v));
            items.push(val(H2_PUSH, (v & 0x7FFF_FFFF) as u64));
            piece(&mut p, &mut items, H2_FRAG, H2_FRAG_END);
        }
        F_PING => {
            let d = any_bytes(r, 8);
            p.extend_from_slice(&d);
            items.extend(d.iter().map(|x| byte(H2_PING, *x)));
            items.push(it(H2_PING_END));
        }
        F_GOAWAY => {
            let (s, c) = (any32(r), any32(r));
            p.extend_from_slice(&be4(s));
            p.extend_from_slice(&be4(c));
            items.push(val2(H2_GOAWAY, s & 0x7FFF_FFFF, c as u64));
            if !d.is_empty() {
                piece(&mut p, &mut items, H2_DEBUG, H2_DEBUG_END);
            }
        }
        F_WINDOW => {
            let v = any32(r);
            p.extend_from_slice(&be4(v));
            items.push(val(H2_WINDOW, (v & 0x7FFF_FFFF) as u64));
        }
        F_CONT => piece(&mut p, &mut items, H2_FRAG, H2_FRAG_END),
        _ => piece(&mut p, &mut items, H2_UNSUP, H2_UNSUP_END),
    }
    if flags & FL_PADDED != 0 && (matches!(ty, F_DATA | F_HEADERS | F_PUSH) || ty > F_CONT) {
        let pad = match r.below(4) {
            0 => 0,
            1 => 255,
            2 => r.below(256),
            _ => r.below(6),
        };
        p.insert(0, pad as u8);
        let fill = if r.pct(70) { 0 } else { r.byte() };
        p.resize(p.len() + pad, fill);
    }
    b.raw(&be4(p.len() as u32)[1..]);
    b.raw(&[ty, flags]);
    b.raw(&be4(sid));
    b.raw(&p);
    b.ev(frame(p.len() as u32, ty, flags, sid & 0x7FFF_FFFF));
    b.items.extend(items);
}

/// A frame whose header and content need not agree.
pub fn frame_any(r: &mut Rng, sw: &Swarm, out: &mut Vec<u8>) {
    if r.pct(50) {
        let mut b = B::default();
        frame_wf(r, sw, &mut b);
        if r.one_in(3) {
            // change the type, flags, length or pad length
            match r.below(4) {
                0 => b.bytes[3] = r.below(12) as u8,
                1 => b.bytes[4] ^= 1 << r.below(8),
                2 if r.pct(30) => b.bytes[0] ^= 1 << r.below(8),
                2 if r.pct(30) => b.bytes[1] ^= 1 << r.below(8),
                2 => b.bytes[2] = b.bytes[2].wrapping_add(r.below(9) as u8).wrapping_sub(4),
                _ => {
                    if b.bytes.len() > 9 {
                        b.bytes[9] = r.byte()
                    }
                }
            }
        }
        out.extend(b.bytes);
    } else {
        let n = match r.below(8) {
            0..=5 => r.below(14),
            6 => r.below(300),
            _ => *r.pick(&[0xFF, 0x100, 0xFFFF, 0x10000, 0xFF_FFFF]),
        };
        out.extend_from_slice(&be4(n as u32)[1..]);
        out.push(r.below(12) as u8);
        out.push(if r.pct(50) { *r.pick(&[0, 8, 0x20, 0x28]) } else { r.byte() });
        out.extend_from_slice(&be4(any32(r)));
        let k = if r.pct(80) { n.min(400) } else { r.below(n.min(400) + 1) };
        for _ in 0..k {
            let x = if r.pct(50) { r.below(12) as u8 } else { r.byte() };
            out.push(x);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Head,
    Chunked,
    Multipart,
    Url,
    H2,
}

pub const H1: &[Mode] = &[Mode::Head, Mode::Chunked, Mode::Multipart, Mode::Url];
pub const ALL: &[Mode] = &[Mode::Head, Mode::Chunked, Mode::Multipart, Mode::Url, Mode::H2];

pub fn any_mode(r: &mut Rng) -> Mode {
    *r.pick(ALL)
}
pub fn any_h1(r: &mut Rng) -> Mode {
    *r.pick(H1)
}

/// Appends one well-formed message of the given mode.
fn part(r: &mut Rng, sw: &Swarm, mode: Mode, b: &mut B, strip: bool) -> Phase {
    match mode {
        Mode::Head => {
            head(r, sw, b, strip);
            Phase::Head
        }
        Mode::Chunked => {
            chunked(r, sw, b);
            Phase::Chunked
        }
        Mode::Multipart => multipart(r, sw, b),
        Mode::Url => url(r, sw, b),
        Mode::H2 => {
            for _ in 0..r.range(1, sw.frames) {
                frame_wf(r, sw, b);
            }
            Phase::H2
        }
    }
}

/// A session with one well-formed message, and the history it must produce.
pub fn well_formed(r: &mut Rng, sw: &Swarm, mode: Mode) -> (Session, Vec<Item>) {
    let mut b = B::default();
    let start = if matches!(mode, Mode::Head | Mode::H2) && r.pct(50) { Start::Fresh } else { Start::Init };
    let p = part(r, sw, mode, &mut b, start == Start::Init);
    (Session { start, phases: vec![p], stream: b.bytes, fail: None, spins: 0 }, b.items)
}

/// A session with several messages following each other, and the history they must produce.
pub fn pipeline(r: &mut Rng, sw: &Swarm) -> (Session, Vec<Item>) {
    let mut b = B::default();
    let mut phases = vec![];
    let start = if r.pct(50) { Start::Fresh } else { Start::Init };
    let n = if sw.frames == LEGION { r.range(1, LEGION / 2) } else if sw.frames > 9 { r.range(1, 30) } else { r.range(1, 3) };
    // many messages, or some of many elements
    let few = Swarm { frames: sw.frames.min(9), ..sw.clone() };
    let sw = if n > 30 { &few } else { sw };
    for i in 0..n {
        phases.push(part(r, sw, Mode::Head, &mut b, i > 0 || start == Start::Init));
        let p = match r.below(6) {
            0 => {
                // a body the application reads itself
                let n = len(r, sw, 0, L_PART);
                let d = any_bytes(r, n);
                b.raw(&d);
                Some(Phase::Raw { len: n })
            }
            1 | 2 => Some(part(r, sw, Mode::Chunked, &mut b, true)),
            3 => Some(part(r, sw, Mode::Multipart, &mut b, true)),
            4 => Some(part(r, sw, Mode::Url, &mut b, true)),
            _ => None,
        };
        phases.extend(p);
    }
    if r.one_in(3) {
        // HTTP/2 with prior knowledge: a head, the rest of the preface, then frames
        b.data(METHOD, b"PRI");
        b.raw(b" ");
        b.data(URL, b"*");
        b.raw(b" HTTP/2.0\r\n");
        b.ev(val(VERSION, 2 << 16));
        b.ev(it(INITIAL_FIN));
        b.raw(b"\r\n");
        b.ev(it(HEADERS_FIN));
        b.raw(b"SM\r\n\r\n");
        phases.push(Phase::Head);
        phases.push(Phase::Raw { len: 6 });
        phases.push(part(r, sw, Mode::H2, &mut b, true));
    }
    (Session { start, phases, stream: b.bytes, fail: None, spins: 0 }, b.items)
}

const NASTY: &[u8] = b"\r\n\t :;=\"\\-%&+?/.,(){}0aAfFgGzZHTP9\x00\x01\x08\x0b\x1f\x20\x7e\x7f\x80\xc3\xfe\xff";
/// Neighbours of the character classes.
const EDGES: &[u8] = b"@[`{g/:G^|~}!#*<>_\x1f\x20\x7e\x7f\x80";

/// What a broken middlebox or a hostile peer does to a stream.
pub fn corrupt(r: &mut Rng, s: &mut Vec<u8>, reach: &mut Reach) {
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
        if s.is_empty() {
            s.push(*r.pick(NASTY));
            reach.faults[F_INSERT] += 1;
            continue;
        }
        // half of the time near something structural
        let mut i = r.below(s.len());
        if r.pct(50) {
            let k = (0..s.len().min(60))
                .map(|d| (i + d) % s.len())
                .find(|k| matches!(s[*k], b'\r' | b'\n' | b':' | b';' | b'=' | b'"' | b'%' | b'-' | b' ' | b'\\'));
            if let Some(k) = k {
                i = (k + r.below(3)).saturating_sub(1).min(s.len() - 1);
            }
        }
        match r.below(18) {
            12 => {
                s[i] = *r.pick(EDGES);
                reach.faults[F_REPLACE] += 1;
            }
            13 => {
                // one up or down: out of a class, or into the next field's
                s[i] = if r.pct(50) { s[i].wrapping_add(1) } else { s[i].wrapping_sub(1) };
                reach.faults[F_REPLACE] += 1;
            }
            0..=3 => {
                s[i] = *r.pick(NASTY);
                reach.faults[F_REPLACE] += 1;
            }
            4 | 14..=17 => {
                s[i] = r.byte();
                reach.faults[F_REPLACE] += 1;
            }
            5 => {
                s[i] ^= 1 << r.below(8);
                reach.faults[F_FLIP] += 1;
            }
            6 | 7 => {
                s.insert(i, *r.pick(NASTY));
                reach.faults[F_INSERT] += 1;
            }
            8 => {
                let k = r.range(1, 4).min(s.len() - i);
                s.drain(i..i + k);
                reach.faults[F_DELETE] += 1;
            }
            9 => {
                let k = r.range(1, 20).min(s.len() - i);
                let d = s[i..i + k].to_vec();
                let at = i + k;
                s.splice(at..at, d);
                reach.faults[F_DUP] += 1;
            }
            10 => {
                let k = r.range(1, 12).min((s.len() - i) / 2);
                for j in 0..k {
                    s.swap(i + j, i + k + j);
                }
                reach.faults[F_SWAP] += 1;
            }
            _ => {
                let k = r.range(1, 8).min(s.len() - i);
                for j in 0..k {
                    s[i + j] = *r.pick(NASTY);
                }
                reach.faults[F_GARBAGE] += 1;
            }
        }
    }
}

/// Random text made of the pieces the grammars are made of.
pub fn soup(r: &mut Rng, mode: Mode, bo: &[u8]) -> Vec<u8> {
    let mut s = vec![];
    if mode == Mode::H2 {
        let sw = swarm(r);
        let sw = Swarm { size: sw.size.min(60), ..sw };
        for _ in 0..r.range(1, 5) {
            frame_any(r, &sw, &mut s);
        }
        return s;
    }
    let words: &[&[u8]] = match mode {
        Mode::Head => &[
            b"GET ", b"POST ", b"H", b"HT", b"HTT", b"HTTP", b"HTTP/", b"HTTP/1.1", b"HTTP/1.1 200 OK",
            b" / ", b" ", b"\r\n", b"\r", b"\n", b"1", b".", b"1.1", b"200", b"999", b"Host", b":", b": ",
            b"Content-Security-Policy:", b"a", b"\"", b"\\", b"\t", b"\x7f", b"\xff", b"\r\n\r\n", b"PRI * HTTP/2.0\r\n",
        ],
        Mode::Chunked => &[
            b"0", b"1", b"a", b"F", b"10", b"FFFFFFFF", b"00", b"7fffffff", b"\r\n", b"\r", b"\n", b";", b"=", b"ext",
            b"\"", b"\\", b" ", b"\t", b"x", b"\r\n\r\n", b"0\r\n", b"3\r\nabc\r\n", b"name: v\r\n", b"\xff", b"\x00",
        ],
        Mode::Multipart => &[
            b"\r\n", b"\r", b"\n", b"-", b"--", b"a: b", b"\r\n\r\n", b"data", b"\r\n--", b"\x00", b"\xff", b"\"", b": ",
        ],
        _ => &[
            b"a", b"=", b"&", b";", b"+", b"%", b"%41", b"%4", b"%zz", b"%ff", b"name", b" ", b"\r", b"\x7f", b"\xff", b"%0",
        ],
    };
    for _ in 0..r.range(1, 14) {
        if mode == Mode::Multipart && r.pct(35) {
            if r.pct(70) {
                s.extend_from_slice(b"--");
            }
            let k = if r.pct(75) { bo.len() } else { r.below(bo.len() + 1) };
            s.extend_from_slice(&bo[..k]);
        } else {
            s.extend_from_slice(*r.pick(words));
        }
        if r.one_in(20) {
            match word(r, |_| true) {
                Some(w) if r.pct(60) => s.extend_from_slice(w),
                _ if mode == Mode::Chunked => s.extend_from_slice(format!("{:x}", number(r)).as_bytes()),
                _ => s.extend_from_slice(number(r).to_string().as_bytes()),
            }
        }
        if r.one_in(12) {
            s.push(r.byte());
        }
    }
    s
}

/// A session of one phase whose stream may be well-formed, damaged, hostile or cut short.
pub fn anything(r: &mut Rng, sw: &Swarm, mode: Mode, reach: &mut Reach) -> Session {
    let (mut s, _) = well_formed(r, sw, mode);
    match r.below(10) {
        0 | 1 => {}
        2 => {
            let bo = match &s.phases[0] {
                Phase::Multipart { boundary, .. } => boundary.clone(),
                _ => Rc::new(vec![]),
            };
            s.stream = soup(r, mode, &bo);
            if let Phase::Url { len } = &mut s.phases[0] {
                *len = s.stream.len();
            }
            reach.faults[F_GARBAGE] += 1;
        }
        3 => {
            let k = r.below(s.stream.len() + 1);
            s.stream.truncate(k);
            reach.faults[F_CUT] += 1;
        }
        4 if mode == Mode::H2 => {
            s.stream = vec![];
            for _ in 0..r.range(1, 4) {
                frame_any(r, sw, &mut s.stream);
            }
            reach.faults[F_GARBAGE] += 1;
        }
        5 if mode == Mode::Chunked && r.pct(40) => {
            // the first chunk claims to be much larger than it is
            let digits = s.stream.iter().take_while(|c| c.is_ascii_hexdigit()).count();
            if let Ok(n) = u64::from_str_radix(&String::from_utf8_lossy(&s.stream[..digits]), 16) {
                let more = 1u64 << *r.pick(&[8, 15, 16, 20, 23, 24, 28, 30, 31]);
                let h = hexlen(r, n + more);
                s.stream.splice(..digits, h);
                reach.faults[F_LIE] += 1;
            }
        }
        _ => corrupt(r, &mut s.stream, reach),
    }
    // bytes of something else behind it
    if r.one_in(5) && mode != Mode::H2 {
        let n = r.range(1, 30);
        let t = any_bytes(r, n);
        s.stream.extend(t);
    }
    lie(r, &mut s, reach, 8);
    s
}

/// The application supplies wrong lengths.
pub fn lie(r: &mut Rng, s: &mut Session, reach: &mut Reach, one_in: usize) {
    for p in s.phases.iter_mut() {
        match p {
            Phase::Url { len } if r.one_in(one_in) => {
                *len = match r.below(5) {
                    4 => len.saturating_add(1 << *r.pick(&[7, 8, 15, 16, 24, 31, 32, 33, 48, 62])),
                    0 => len.saturating_sub(r.range(1, 3)),
                    1 => len.saturating_add(r.range(1, 10)),
                    2 => 0,
                    _ => r.below(len.saturating_mul(2).saturating_add(2)),
                };
                reach.faults[F_LIE] += 1;
            }
            Phase::Multipart { clens, .. } if r.one_in(one_in) => {
                if clens.is_empty() {
                    clens.push(None);
                }
                let i = r.below(clens.len());
                clens[i] = match (r.below(5), clens[i]) {
                    (0, _) => Some(0),
                    (1, Some(n)) => Some(n.saturating_add(r.range(1, 4))),
                    (2, Some(n)) => Some(n.saturating_sub(r.range(1, 4))),
                    (3, _) => None,
                    (4, Some(n)) => Some(n.saturating_add(1 << *r.pick(&[7, 8, 15, 16, 24, 31, 32, 33, 48, 62]))),
                    _ => Some(r.below(40)),
                };
                reach.faults[F_LIE] += 1;
            }
            _ => {}
        }
    }
}

pub fn pause(r: &mut Rng) -> Pause {
    match r.below(5) {
        0 => Pause { all: true, at: vec![] },
        1 => Pause { all: false, at: vec![r.below(12) as u32] },
        _ => {
            let p = *r.pick(&[5, 20, 50]);
            let off = r.below(12) as u32;
            let mut at: Vec<u32> = (0..120u32).filter(|_| r.pct(p)).map(|x| x + off).collect();
            if at.is_empty() {
                at.push(off);
            }
            Pause { all: false, at }
        }
    }
}

pub fn maybe_pause(r: &mut Rng, pct: usize) -> Pause {
    if r.pct(pct) {
        pause(r)
    } else {
        Pause::none()
    }
}
