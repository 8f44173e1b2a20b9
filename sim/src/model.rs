//! Reference models: for each format, a byte-at-a-time machine written from the grammar in the
//! documentation, which knows nothing of slices, fast paths, pauses or callbacks that can fail.
//! Every item carries the number of stream bytes after which it is decided.

use crate::item::*;
use std::rc::Rc;

/// What an endpoint expects next on a connection.
#[derive(Clone, Debug, PartialEq)]
pub enum Phase {
    /// HTTP/1 head.
    Head,
    /// HTTP/1 chunked body.
    Chunked,
    /// HTTP/1 multipart body: boundary, and the handler's answers to content_length() per part.
    Multipart { boundary: Rc<Vec<u8>>, clens: Vec<Option<usize>> },
    /// HTTP/1 URL-encoded body of a declared length.
    Url { len: usize },
    /// Bytes the application consumes itself.
    Raw { len: usize },
    /// HTTP/2 frames until the connection ends.
    H2,
}

impl Phase {
    pub fn name(&self) -> &'static str {
        match self {
            Phase::Head => "head",
            Phase::Chunked => "chunked",
            Phase::Multipart { .. } => "multipart",
            Phase::Url { .. } => "url",
            Phase::Raw { .. } => "raw",
            Phase::H2 => "h2",
        }
    }
}

/// Error kinds of the HTTP/1 parser, and one for HTTP/2.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EK {
    ChunkExtensionName,
    ChunkExtensionValue,
    ChunkLength,
    CrlfSequence,
    HeaderName,
    HeaderValue,
    Method,
    MultipartBoundary,
    Status,
    StatusCode,
    Url,
    UrlEncodedName,
    UrlEncodedValue,
    Version,
    /// Any error of the HTTP/2 parser.
    Frame,
    Dead,
    Other,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Outcome {
    /// All phases finished; the offset is where the last one ended.
    Done(usize),
    /// The stream ended inside the given phase.
    Pending(usize),
    /// The phase failed: error kind, offending byte, bytes consumed up to and including it.
    Err { phase: usize, kind: EK, byte: u8, off: usize },
}

#[derive(Clone, Debug)]
pub struct PhaseOut {
    /// Where it ended: (stream offset, item index), if it did.
    pub end: Option<(usize, usize)>,
}

#[derive(Clone, Debug)]
pub struct ModelOut {
    pub items: Vec<Item>,
    pub offs: Vec<usize>,
    pub phases: Vec<PhaseOut>,
    pub outcome: Outcome,
    /// Set when the stream runs into a recorded known finding: nothing is judged beyond this
    /// offset.
    pub limit: Option<usize>,
}

impl ModelOut {
    /// Number of items decided by the first `off` bytes.
    pub fn decided(&self, off: usize) -> usize {
        self.offs.partition_point(|o| *o <= off)
    }

    /// Number of items an error outcome may lack: the unfinished last token.
    pub fn open_tail(&self) -> usize {
        open_tail(&self.items)
    }
}

/// Length of the last token of a history if it is one that comes in pieces.
pub fn open_tail(items: &[Item]) -> usize {
    match items.last() {
        Some(l) if is_data(l.k) => items.iter().rev().take_while(|i| i.k == l.k).count(),
        _ => 0,
    }
}

pub fn visible(b: u8) -> bool {
    b > 0x20 && b < 0x7F
}
pub fn upper(b: u8) -> bool {
    b.is_ascii_uppercase()
}
pub fn header_field(b: u8) -> bool {
    b == 9 || (b >= 0x20 && b < 0x7F && b != b'"') || b >= 0x80
}
pub fn quoted_field(b: u8) -> bool {
    header_field(b) && b != b'\\'
}
pub fn escapable(b: u8) -> bool {
    (0x20..=0x7A).contains(&b)
}
pub fn token(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)
}
fn hexval(b: u8) -> Option<u8> {
    (b as char).to_digit(16).map(|d| d as u8)
}

enum Step {
    More,
    /// The phase is complete with this byte.
    Done,
    Bad(EK),
}

/// Header block of a head, a part, or the trailers of a chunked body.
#[derive(Clone, Copy)]
enum Hs {
    Line,
    Name,
    Strip,
    Value,
    Quoted,
    Escape,
    Lf,
    EndLf,
}

struct Headers {
    s: Hs,
}

enum HStep {
    More,
    End,
    Bad(EK),
}

impl Headers {
    fn step(&mut self, b: u8, out: &mut Vec<Item>) -> HStep {
        match self.s {
            Hs::Line => {
                if b == b'\r' {
                    self.s = Hs::EndLf;
                } else if b == b' ' || b == b'\t' {
                    self.s = Hs::Value;
                } else if visible(b) {
                    self.s = Hs::Name;
                    return self.step(b, out);
                } else {
                    return HStep::Bad(EK::HeaderName);
                }
            }
            Hs::Name => {
                if b == b':' {
                    self.s = Hs::Strip;
                } else if token(b) {
                    out.push(byte(HNAME, b.to_ascii_lowercase()));
                } else {
                    return HStep::Bad(EK::HeaderName);
                }
            }
            Hs::Strip => {
                if b == b' ' || b == b'\t' {
                } else if b == b'\r' {
                    out.push(it(HVALUE_EMPTY));
                    self.s = Hs::Lf;
                } else if visible(b) || b >= 0x80 {
                    self.s = Hs::Value;
                    return self.step(b, out);
                } else {
                    return HStep::Bad(EK::HeaderValue);
                }
            }
            Hs::Value => {
                if b == b'\r' {
                    self.s = Hs::Lf;
                } else if b == b'"' {
                    out.push(byte(HVALUE, b));
                    self.s = Hs::Quoted;
                } else if header_field(b) {
                    out.push(byte(HVALUE, b));
                } else {
                    return HStep::Bad(EK::HeaderValue);
                }
            }
            Hs::Quoted => {
                if b == b'"' {
                    self.s = Hs::Value;
                } else if b == b'\\' {
                    self.s = Hs::Escape;
                } else if !quoted_field(b) {
                    return HStep::Bad(EK::HeaderValue);
                }
                out.push(byte(HVALUE, b));
            }
            Hs::Escape => {
                if !escapable(b) {
                    return HStep::Bad(EK::HeaderValue);
                }
                out.push(byte(HVALUE, b));
                self.s = Hs::Quoted;
            }
            Hs::Lf => {
                if b != b'\n' {
                    return HStep::Bad(EK::CrlfSequence);
                }
                self.s = Hs::Line;
            }
            Hs::EndLf => {
                if b != b'\n' {
                    return HStep::Bad(EK::CrlfSequence);
                }
                out.push(it(HEADERS_FIN));
                return HStep::End;
            }
        }
        HStep::More
    }
}

enum HeadS {
    Strip,
    Start,
    /// This many bytes of "HTTP/" were seen.
    Prefix(usize),
    Method,
    Url1,
    Url,
    ReqHttp(usize),
    /// Request or response version: digits of major or minor seen so far.
    Major(bool, u32, usize),
    Minor(bool, u32, u32, usize),
    Code(u32, usize),
    Status1,
    Status,
    Lf,
    Headers(Headers),
}

fn head_step(s: &mut HeadS, b: u8, out: &mut Vec<Item>) -> Step {
    match s {
        HeadS::Strip => {
            if !b"\r\n\t ".contains(&b) {
                *s = HeadS::Start;
                return head_step(s, b, out);
            }
        }
        HeadS::Start => {
            if b == b'H' {
                *s = HeadS::Prefix(1);
            } else if upper(b) {
                out.push(byte(METHOD, b));
                *s = HeadS::Method;
            } else {
                return Step::Bad(EK::Method);
            }
        }
        HeadS::Prefix(n) => {
            let n = *n;
            if b == b"HTTP/"[n] {
                *s = if n == 4 { HeadS::Major(false, 0, 0) } else { HeadS::Prefix(n + 1) };
            } else if b == b' ' || upper(b) {
                for c in &b"HTTP/"[..n] {
                    out.push(byte(METHOD, *c));
                }
                *s = HeadS::Method;
                return head_step(s, b, out);
            } else {
                return Step::Bad(EK::Method);
            }
        }
        HeadS::Method => {
            if b == b' ' {
                *s = HeadS::Url1;
            } else if upper(b) {
                out.push(byte(METHOD, b));
            } else {
                return Step::Bad(EK::Method);
            }
        }
        HeadS::Url1 | HeadS::Url => {
            if visible(b) {
                out.push(byte(URL, b));
                *s = HeadS::Url;
            } else if b == b' ' && matches!(s, HeadS::Url) {
                *s = HeadS::ReqHttp(0);
            } else {
                return Step::Bad(EK::Url);
            }
        }
        HeadS::ReqHttp(n) => {
            if b != b"HTTP/"[*n] {
                return Step::Bad(EK::Version);
            }
            *s = if *n == 4 { HeadS::Major(true, 0, 0) } else { HeadS::ReqHttp(*n + 1) };
        }
        HeadS::Major(req, v, n) => {
            if b.is_ascii_digit() && *n < 3 {
                *s = HeadS::Major(*req, *v * 10 + (b - b'0') as u32, *n + 1);
            } else if b == b'.' && *n > 0 {
                *s = HeadS::Minor(*req, *v, 0, 0);
            } else {
                return Step::Bad(EK::Version);
            }
        }
        HeadS::Minor(req, major, v, n) => {
            let end = if *req { b'\r' } else { b' ' };
            if b.is_ascii_digit() && *n < 3 {
                *s = HeadS::Minor(*req, *major, *v * 10 + (b - b'0') as u32, *n + 1);
            } else if b == end && *n > 0 {
                out.push(val(VERSION, (*major as u64) << 16 | *v as u64));
                if *req {
                    out.push(it(INITIAL_FIN));
                    *s = HeadS::Lf;
                } else {
                    *s = HeadS::Code(0, 0);
                }
            } else {
                return Step::Bad(EK::Version);
            }
        }
        HeadS::Code(v, n) => {
            if *n < 3 && b.is_ascii_digit() {
                *s = HeadS::Code(*v * 10 + (b - b'0') as u32, *n + 1);
            } else if *n == 3 && b == b' ' {
                out.push(val(STATUS_CODE, *v as u64));
                *s = HeadS::Status1;
            } else {
                return Step::Bad(EK::StatusCode);
            }
        }
        HeadS::Status1 | HeadS::Status => {
            if b >= 0x20 && b != 0x7F {
                out.push(byte(STATUS, b));
                *s = HeadS::Status;
            } else if b == b'\r' {
                out.push(it(INITIAL_FIN));
                *s = HeadS::Lf;
            } else {
                return Step::Bad(EK::Status);
            }
        }
        HeadS::Lf => {
            if b != b'\n' {
                return Step::Bad(EK::CrlfSequence);
            }
            *s = HeadS::Headers(Headers { s: Hs::Line });
        }
        HeadS::Headers(h) => {
            return match h.step(b, out) {
                HStep::More => Step::More,
                HStep::End => Step::Done,
                HStep::Bad(k) => Step::Bad(k),
            }
        }
    }
    Step::More
}

enum ChunkS {
    Len1,
    Len(u64, usize),
    ExtStrip,
    ExtName,
    ExtVStrip,
    ExtValue,
    ExtQuoted,
    ExtEscape,
    LineLf,
    Data(u64),
    DataCr,
    DataLf,
    TrailerLf,
    Trailers(Headers),
}

struct Chunked {
    s: ChunkS,
    len: u64,
}

impl Chunked {
    fn ext_end(&mut self, b: u8, out: &mut Vec<Item>) {
        out.push(it(CEXT_FIN));
        if b == b'\r' {
            out.push(it(CEXTS_FIN));
            self.s = ChunkS::LineLf;
        } else {
            self.s = ChunkS::ExtStrip;
        }
    }

    fn step(&mut self, b: u8, out: &mut Vec<Item>) -> Step {
        match &mut self.s {
            ChunkS::Len1 => match hexval(b) {
                Some(d) => {
                    out.push(it(CHUNK_BEGIN));
                    self.len = d as u64;
                    self.s = ChunkS::Len(d as u64, 1);
                }
                None => return Step::Bad(EK::ChunkLength),
            },
            ChunkS::Len(v, n) => {
                if let (Some(d), true) = (hexval(b), *n < 8) {
                    self.s = ChunkS::Len(*v << 4 | d as u64, *n + 1);
                } else if b == b'\r' || b == b';' {
                    self.len = *v;
                    out.push(val(CHUNK_LEN, *v));
                    if b == b';' {
                        self.s = ChunkS::ExtStrip;
                    } else if self.len == 0 {
                        self.s = ChunkS::TrailerLf;
                    } else {
                        out.push(it(CEXTS_FIN));
                        self.s = ChunkS::LineLf;
                    }
                } else {
                    return Step::Bad(EK::ChunkLength);
                }
            }
            ChunkS::ExtStrip => {
                if b == b' ' || b == b'\t' {
                } else if visible(b) {
                    self.s = ChunkS::ExtName;
                    return self.step(b, out);
                } else {
                    return Step::Bad(EK::ChunkExtensionName);
                }
            }
            ChunkS::ExtName => {
                if b == b'=' {
                    self.s = ChunkS::ExtVStrip;
                } else if b == b'\r' || b == b';' {
                    self.ext_end(b, out);
                } else if token(b) {
                    out.push(byte(CEXT_NAME, b.to_ascii_lowercase()));
                } else {
                    return Step::Bad(EK::ChunkExtensionName);
                }
            }
            ChunkS::ExtVStrip => {
                if b == b' ' || b == b'\t' {
                } else if visible(b) {
                    self.s = ChunkS::ExtValue;
                    return self.step(b, out);
                } else {
                    return Step::Bad(EK::ChunkExtensionValue);
                }
            }
            ChunkS::ExtValue => {
                if b == b'\r' || b == b';' {
                    self.ext_end(b, out);
                } else if b == b'"' {
                    self.s = ChunkS::ExtQuoted;
                } else if header_field(b) {
                    out.push(byte(CEXT_VALUE, b));
                } else {
                    return Step::Bad(EK::ChunkExtensionValue);
                }
            }
            ChunkS::ExtQuoted => {
                if b == b'"' {
                    self.s = ChunkS::ExtValue;
                } else if b == b'\\' {
                    self.s = ChunkS::ExtEscape;
                } else if quoted_field(b) {
                    out.push(byte(CEXT_VALUE, b));
                } else {
                    return Step::Bad(EK::ChunkExtensionValue);
                }
            }
            ChunkS::ExtEscape => {
                if !escapable(b) {
                    return Step::Bad(EK::ChunkExtensionValue);
                }
                out.push(byte(CEXT_VALUE, b));
                self.s = ChunkS::ExtQuoted;
            }
            ChunkS::LineLf => {
                if b != b'\n' {
                    return Step::Bad(EK::CrlfSequence);
                }
                self.s = if self.len == 0 {
                    ChunkS::Trailers(Headers { s: Hs::Line })
                } else {
                    ChunkS::Data(self.len)
                };
            }
            ChunkS::Data(left) => {
                out.push(byte(CHUNK_DATA, b));
                *left -= 1;
                if *left == 0 {
                    self.s = ChunkS::DataCr;
                }
            }
            ChunkS::DataCr => {
                if b != b'\r' {
                    return Step::Bad(EK::CrlfSequence);
                }
                self.s = ChunkS::DataLf;
            }
            ChunkS::DataLf => {
                if b != b'\n' {
                    return Step::Bad(EK::CrlfSequence);
                }
                self.s = ChunkS::Len1;
            }
            ChunkS::TrailerLf => {
                if b != b'\n' {
                    return Step::Bad(EK::CrlfSequence);
                }
                self.s = ChunkS::Trailers(Headers { s: Hs::Line });
            }
            ChunkS::Trailers(h) => {
                return match h.step(b, out) {
                    HStep::More => Step::More,
                    HStep::End => {
                        out.push(it(BODY_FIN));
                        Step::Done
                    }
                    HStep::Bad(k) => Step::Bad(k),
                }
            }
        }
        Step::More
    }
}

enum MpS {
    /// A boundary is required; this many bytes of "\r\n--" boundary were matched.
    Required(usize),
    AfterBoundary,
    EndDash,
    Lf,
    Headers(Headers),
    Exact(usize),
    /// Data up to the next boundary; this many bytes of a possible one are held back.
    Scan(usize),
}

struct Multipart<'a> {
    s: MpS,
    delim: Vec<u8>,
    clens: &'a [Option<usize>],
    part: usize,
}

impl<'a> Multipart<'a> {
    fn step(&mut self, b: u8, out: &mut Vec<Item>) -> Step {
        match &mut self.s {
            MpS::Required(n) => {
                if b != self.delim[*n] {
                    return Step::Bad(EK::MultipartBoundary);
                }
                *n += 1;
                if *n == self.delim.len() {
                    self.s = MpS::AfterBoundary;
                }
            }
            MpS::AfterBoundary => match b {
                b'\r' => {
                    out.push(it(MP_BEGIN));
                    self.s = MpS::Lf;
                }
                b'-' => self.s = MpS::EndDash,
                _ => return Step::Bad(EK::MultipartBoundary),
            },
            MpS::EndDash => {
                if b != b'-' {
                    return Step::Bad(EK::MultipartBoundary);
                }
                out.push(it(BODY_FIN));
                return Step::Done;
            }
            MpS::Lf => {
                if b != b'\n' {
                    return Step::Bad(EK::CrlfSequence);
                }
                self.s = MpS::Headers(Headers { s: Hs::Line });
            }
            MpS::Headers(h) => match h.step(b, out) {
                HStep::More => {}
                HStep::Bad(k) => return Step::Bad(k),
                HStep::End => {
                    out.push(it(CLEN_QUERY));
                    let n = self.clens.get(self.part).copied().unwrap_or(None);
                    self.part += 1;
                    self.s = match n {
                        None => MpS::Scan(0),
                        Some(0) => MpS::Required(0),
                        Some(n) => MpS::Exact(n),
                    };
                }
            },
            MpS::Exact(n) => {
                out.push(byte(MP_DATA, b));
                *n -= 1;
                if *n == 0 {
                    self.s = MpS::Required(0);
                }
            }
            MpS::Scan(held) => {
                if b == self.delim[*held] {
                    *held += 1;
                    if *held == self.delim.len() {
                        self.s = MpS::AfterBoundary;
                    }
                } else {
                    for c in &self.delim[..*held] {
                        out.push(byte(MP_DATA, *c));
                    }
                    if b == b'\r' {
                        *held = 1;
                    } else {
                        *held = 0;
                        out.push(byte(MP_DATA, b));
                    }
                }
            }
        }
        Step::More
    }
}

enum UrlS {
    Begin,
    Name,
    NameHex(Option<u8>),
    Value,
    ValueHex(Option<u8>),
}

fn url_step(s: &mut UrlS, b: u8, out: &mut Vec<Item>) -> Step {
    match s {
        UrlS::Begin => {
            out.push(it(URL_BEGIN));
            *s = UrlS::Name;
            return url_step(s, b, out);
        }
        UrlS::Name => match b {
            b'%' => *s = UrlS::NameHex(None),
            b'+' => out.push(byte(URL_NAME, b' ')),
            b'=' => *s = UrlS::Value,
            b'&' | b';' => *s = UrlS::Begin,
            _ if visible(b) => out.push(byte(URL_NAME, b)),
            _ => return Step::Bad(EK::UrlEncodedName),
        },
        UrlS::Value => match b {
            b'%' => *s = UrlS::ValueHex(None),
            b'+' => out.push(byte(URL_VALUE, b' ')),
            b'&' | b';' => *s = UrlS::Begin,
            _ if visible(b) => out.push(byte(URL_VALUE, b)),
            _ => return Step::Bad(EK::UrlEncodedValue),
        },
        UrlS::NameHex(hi) => match (hexval(b), *hi) {
            (Some(d), None) => *hi = Some(d),
            (Some(d), Some(h)) => {
                out.push(byte(URL_NAME, h << 4 | d));
                *s = UrlS::Name;
            }
            _ => return Step::Bad(EK::UrlEncodedName),
        },
        UrlS::ValueHex(hi) => match (hexval(b), *hi) {
            (Some(d), None) => *hi = Some(d),
            (Some(d), Some(h)) => {
                out.push(byte(URL_VALUE, h << 4 | d));
                *s = UrlS::Value;
            }
            _ => return Step::Bad(EK::UrlEncodedValue),
        },
    }
    Step::More
}

enum M<'a> {
    Head(HeadS),
    Chunked(Chunked),
    Multipart(Multipart<'a>),
    Url(UrlS, usize),
    Raw(usize),
}

/// Runs the model over a whole stream. `stripped` says whether the first phase starts from an
/// initialised parser, which skips leading white space, or from a new one.
pub fn run(phases: &[Phase], fresh: bool, stream: &[u8]) -> ModelOut {
    let mut m = ModelOut {
        items: vec![],
        offs: vec![],
        phases: vec![],
        outcome: Outcome::Pending(0),
        limit: None,
    };
    let mut pos = 0;
    let mut out: Vec<Item> = vec![];
    for (pi, ph) in phases.iter().enumerate() {
        m.phases.push(PhaseOut { end: None });
        m.outcome = Outcome::Pending(pi);
        let mut st = match ph {
            Phase::H2 => {
                h2(&mut m, stream, pos, pi, false);
                return m;
            }
            Phase::Head => M::Head(if fresh && pi == 0 { HeadS::Start } else { HeadS::Strip }),
            Phase::Chunked => M::Chunked(Chunked { s: ChunkS::Len1, len: 0 }),
            Phase::Multipart { boundary, clens } => {
                let mut delim = b"\r\n--".to_vec();
                delim.extend_from_slice(boundary);
                M::Multipart(Multipart { s: MpS::Required(2), delim, clens, part: 0 })
            }
            Phase::Url { len } => M::Url(UrlS::Begin, *len),
            Phase::Raw { len } => M::Raw(*len),
        };
        let mut done = false;
        match st {
            M::Url(_, 0) => {
                m.items.push(it(BODY_FIN));
                m.offs.push(pos);
                done = true;
            }
            M::Raw(0) => done = true,
            _ => {}
        }
        while !done && pos < stream.len() {
            let b = stream[pos];
            pos += 1;
            let r = match &mut st {
                M::Head(s) => head_step(s, b, &mut out),
                M::Chunked(c) => c.step(b, &mut out),
                M::Multipart(p) => p.step(b, &mut out),
                M::Url(s, left) => {
                    let r = url_step(s, b, &mut out);
                    *left -= 1;
                    match r {
                        Step::More if *left == 0 => {
                            out.push(it(BODY_FIN));
                            Step::Done
                        }
                        r => r,
                    }
                }
                M::Raw(left) => {
                    *left -= 1;
                    if *left == 0 {
                        Step::Done
                    } else {
                        Step::More
                    }
                }
            };
            for i in out.drain(..) {
                m.items.push(i);
                m.offs.push(pos);
            }
            match r {
                Step::More => {}
                Step::Done => done = true,
                Step::Bad(kind) => {
                    m.outcome = Outcome::Err { phase: pi, kind, byte: b, off: pos };
                    return m;
                }
            }
        }
        if !done {
            return m;
        }
        m.phases[pi].end = Some((pos, m.items.len()));
        m.outcome = Outcome::Done(pos);
    }
    m
}

pub const F_DATA: u8 = 0;
pub const F_HEADERS: u8 = 1;
pub const F_PRIORITY: u8 = 2;
pub const F_RST: u8 = 3;
pub const F_SETTINGS: u8 = 4;
pub const F_PUSH: u8 = 5;
pub const F_PING: u8 = 6;
pub const F_GOAWAY: u8 = 7;
pub const F_WINDOW: u8 = 8;
pub const F_CONT: u8 = 9;
pub const FL_PADDED: u8 = 0x8;
pub const FL_PRIO: u8 = 0x20;

fn be(s: &[u8]) -> u64 {
    s.iter().fold(0, |a, b| a << 8 | *b as u64)
}

/// Fixed-size frames whose recorded finding is that a longer declared length is not honoured.
pub fn fixed_len(ty: u8) -> Option<usize> {
    match ty {
        F_PRIORITY => Some(5),
        F_RST | F_WINDOW => Some(4),
        F_SETTINGS => Some(6),
        _ => None,
    }
}

/// HTTP/2 frames, one at a time, from the frame layout of RFC 7540.
fn h2(m: &mut ModelOut, stream: &[u8], mut pos: usize, pi: usize, recorded: bool) {
    fn push(m: &mut ModelOut, i: Item, off: usize) {
        m.items.push(i);
        m.offs.push(off);
    }
    loop {
        if stream.len() - pos < 9 {
            return;
        }
        let h = &stream[pos..pos + 9];
        let len = be(&h[..3]) as usize;
        let (ty, flags) = (h[3], h[4]);
        let sid = be(&h[5..9]) as u32 & 0x7FFF_FFFF;
        let start = pos + 9;
        push(m, frame(len as u32, ty, flags, sid), start);
        let mut end = start + len;
        if recorded {
            // the recorded findings: the rest of a longer payload is read as the next frame
            if let Some(n) = fixed_len(ty) {
                end = end.min(start + n);
            }
        }
        // next unread payload byte, and end of the payload without padding
        let mut p = start;
        let mut data_end = end;
        let bad = |m: &mut ModelOut, off: usize| {
            m.outcome = Outcome::Err { phase: pi, kind: EK::Frame, byte: 0, off };
        };
        // RFC 7540 6: these carry padding; for unknown types this parser documents the same
        let may_pad = matches!(ty, F_DATA | F_HEADERS | F_PUSH) || ty > F_CONT;
        if may_pad && flags & FL_PADDED != 0 {
            if len < 1 {
                return bad(m, start);
            }
            if stream.len() <= p {
                return;
            }
            let pad = stream[p] as usize;
            p += 1;
            if pad > end - p {
                return bad(m, p);
            }
            data_end = end - pad;
        }
        let fixed = match ty {
            F_HEADERS if flags & FL_PRIO != 0 => 5,
            F_PUSH => 4,
            F_GOAWAY => 8,
            F_SETTINGS if len == 0 => 0,
            _ => match fixed_len(ty) {
                Some(n) => {
                    if len > n && !recorded {
                        m.limit = Some(start);
                        return;
                    }
                    n
                }
                None => 0,
            },
        };
        if data_end - p < fixed {
            return bad(m, p);
        }
        if stream.len() < p + fixed {
            return;
        }
        let f = &stream[p..p + fixed];
        p += fixed;
        match ty {
            F_HEADERS => {
                let i = if fixed == 5 {
                    let v = be(&f[..4]) as u32;
                    prio(H2_HEADERS, v >> 31 == 1, v & 0x7FFF_FFFF, f[4])
                } else {
                    prio(H2_HEADERS, false, 0, 0)
                };
                push(m, i, p);
            }
            F_PRIORITY => {
                let v = be(&f[..4]) as u32;
                push(m, prio(H2_PRIORITY, v >> 31 == 1, v & 0x7FFF_FFFF, f[4]), p);
            }
            F_RST => push(m, val(H2_RST, be(f)), p),
            F_WINDOW => push(m, val(H2_WINDOW, be(f) & 0x7FFF_FFFF), p),
            F_PUSH => push(m, val(H2_PUSH, be(f) & 0x7FFF_FFFF), p),
            F_SETTINGS if fixed == 6 => {
                push(m, val2(H2_SETTINGS, be(&f[..2]) as u32, be(&f[2..])), p)
            }
            F_GOAWAY => {
                push(m, val2(H2_GOAWAY, be(&f[..4]) as u32 & 0x7FFF_FFFF, be(&f[4..])), p)
            }
            _ => {}
        }
        let payload = match ty {
            F_DATA => Some((H2_DATA, H2_DATA_END)),
            F_HEADERS | F_PUSH | F_CONT => Some((H2_FRAG, H2_FRAG_END)),
            F_PING => Some((H2_PING, H2_PING_END)),
            F_GOAWAY if p < data_end => Some((H2_DEBUG, H2_DEBUG_END)),
            _ if ty > F_CONT => Some((H2_UNSUP, H2_UNSUP_END)),
            _ => None,
        };
        if let Some((k, k_end)) = payload {
            while p < data_end {
                if p >= stream.len() {
                    return;
                }
                push(m, byte(k, stream[p]), p + 1);
                p += 1;
            }
            push(m, it(k_end), p);
        }
        if end > stream.len() {
            return;
        }
        pos = end;
    }
}

/// The outcome of an HTTP/2 stream with the recorded findings as they are.
pub fn h2_recorded(stream: &[u8]) -> ModelOut {
    let mut m = ModelOut {
        items: vec![],
        offs: vec![],
        phases: vec![],
        outcome: Outcome::Pending(0),
        limit: None,
    };
    h2(&mut m, stream, 0, 0, true);
    m
}

/// The history a correct parser gives for the streams of the recorded findings: every entry of a
/// SETTINGS frame, and longer fixed-size frames with their surplus bytes skipped.
pub fn h2_unlimited(stream: &[u8]) -> Vec<Item> {
    let mut out = vec![];
    let mut rest = stream;
    while rest.len() >= 9 {
        let len = be(&rest[..3]) as usize;
        let n = (9 + len).min(rest.len());
        let f = &rest[..n];
        let mut m = run(&[Phase::H2], true, f);
        if m.limit.is_some() {
            let (ty, p) = (f[3], &f[9..]);
            let step = fixed_len(ty).unwrap();
            if ty == F_SETTINGS {
                for e in p.chunks(step).filter(|e| e.len() == step) {
                    m.items.push(val2(H2_SETTINGS, be(&e[..2]) as u32, be(&e[2..])));
                }
            } else if p.len() >= step {
                let v = be(&p[..4]) as u32;
                m.items.push(match ty {
                    F_PRIORITY => prio(H2_PRIORITY, v >> 31 == 1, v & 0x7FFF_FFFF, p[4]),
                    F_RST => val(H2_RST, v as u64),
                    _ => val(H2_WINDOW, (v & 0x7FFF_FFFF) as u64),
                });
            }
        }
        out.extend(m.items);
        rest = &rest[n..];
    }
    out
}
