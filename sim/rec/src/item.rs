//! The flattened history: one item per callback, or per byte for callbacks that carry data. Token
//! pieces are joined by this, so two histories agree exactly when the joined tokens do.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Item {
    pub k: u8,
    pub w: u32,
    pub v: u64,
}

macro_rules! kinds {
    ($($n:ident = $v:expr, $t:expr;)*) => {
        $(pub const $n: u8 = $v;)*
        pub fn kind_name(k: u8) -> &'static str {
            match k { $($v => $t,)* _ => "?" }
        }
    };
}

kinds! {
    METHOD = 1, "method";
    URL = 2, "url";
    VERSION = 3, "version";
    STATUS_CODE = 4, "status_code";
    STATUS = 5, "status";
    INITIAL_FIN = 6, "initial_finished";
    HNAME = 7, "header_name";
    HVALUE = 8, "header_value";
    HEADERS_FIN = 9, "headers_finished";
    HVALUE_EMPTY = 24, "header_value(\"\")";
    CHUNK_BEGIN = 10, "chunk_begin";
    CHUNK_LEN = 11, "chunk_length";
    CEXT_NAME = 12, "chunk_extension_name";
    CEXT_VALUE = 13, "chunk_extension_value";
    CEXT_FIN = 14, "chunk_extension_finished";
    CEXTS_FIN = 15, "chunk_extensions_finished";
    CHUNK_DATA = 16, "chunk_data";
    BODY_FIN = 17, "body_finished";
    MP_BEGIN = 18, "multipart_begin";
    MP_DATA = 19, "multipart_data";
    CLEN_QUERY = 20, "content_length?";
    URL_BEGIN = 21, "url_encoded_begin";
    URL_NAME = 22, "url_encoded_name";
    URL_VALUE = 23, "url_encoded_value";
    H2_FRAME = 40, "frame_format";
    H2_DATA = 41, "data";
    H2_DATA_END = 42, "data(finished)";
    H2_HEADERS = 43, "headers";
    H2_FRAG = 44, "headers_fragment";
    H2_FRAG_END = 45, "headers_fragment(finished)";
    H2_PRIORITY = 46, "priority";
    H2_RST = 47, "rst_stream";
    H2_SETTINGS = 48, "settings";
    H2_PUSH = 49, "push_promise";
    H2_PING = 50, "ping";
    H2_PING_END = 51, "ping(finished)";
    H2_GOAWAY = 52, "go_away";
    H2_DEBUG = 53, "go_away_debug_data";
    H2_DEBUG_END = 54, "go_away_debug_data(finished)";
    H2_WINDOW = 55, "window_update";
    H2_UNSUP = 56, "unsupported";
    H2_UNSUP_END = 57, "unsupported(finished)";
}

pub fn is_data(k: u8) -> bool {
    matches!(
        k,
        METHOD | URL | STATUS | HNAME | HVALUE | CEXT_NAME | CEXT_VALUE | CHUNK_DATA | MP_DATA
            | URL_NAME | URL_VALUE | H2_DATA | H2_FRAG | H2_PING | H2_DEBUG | H2_UNSUP
    )
}

pub fn it(k: u8) -> Item {
    Item { k, w: 0, v: 0 }
}

pub fn byte(k: u8, b: u8) -> Item {
    Item { k, w: 0, v: b as u64 }
}

pub fn val(k: u8, v: u64) -> Item {
    Item { k, w: 0, v }
}

pub fn val2(k: u8, w: u32, v: u64) -> Item {
    Item { k, w, v }
}

/// Frame format item: length and type and stream identifier in `v`, flags in `w`.
pub fn frame(len: u32, ty: u8, flags: u8, sid: u32) -> Item {
    Item { k: H2_FRAME, w: flags as u32, v: (len as u64) << 40 | (ty as u64) << 32 | sid as u64 }
}

/// Priority fields: stream identifier and weight in `v`, exclusive in `w`.
pub fn prio(k: u8, exclusive: bool, sid: u32, weight: u8) -> Item {
    Item { k, w: exclusive as u32, v: (sid as u64) << 8 | weight as u64 }
}

/// Readable, token-joined form of a history, for reports.
pub fn show(items: &[Item]) -> String {
    let mut out = String::new();
    let mut i = 0;
    while i < items.len() {
        let a = items[i];
        if !out.is_empty() {
            out.push(' ');
        }
        if is_data(a.k) {
            let mut s = String::new();
            let mut n = 0;
            while i < items.len() && items[i].k == a.k {
                if n < 60 {
                    for c in std::ascii::escape_default(items[i].v as u8) {
                        s.push(c as char);
                    }
                }
                n += 1;
                i += 1;
            }
            if n > 60 {
                s.push_str(&format!("...({} bytes)", n));
            }
            out.push_str(&format!("{}(\"{}\")", kind_name(a.k), s));
        } else {
            i += 1;
            match a.k {
                VERSION => out.push_str(&format!("version({}.{})", a.v >> 16, a.v & 0xFFFF)),
                STATUS_CODE | CHUNK_LEN | H2_RST | H2_WINDOW | H2_PUSH => {
                    out.push_str(&format!("{}({})", kind_name(a.k), a.v))
                }
                H2_FRAME => out.push_str(&format!(
                    "frame(len={} type={} flags={:#x} stream={})",
                    a.v >> 40, (a.v >> 32) & 0xFF, a.w, a.v & 0xFFFF_FFFF
                )),
                H2_HEADERS | H2_PRIORITY => out.push_str(&format!(
                    "{}(exclusive={} stream={} weight={})",
                    kind_name(a.k), a.w, a.v >> 8, a.v & 0xFF
                )),
                H2_SETTINGS | H2_GOAWAY => {
                    out.push_str(&format!("{}({},{})", kind_name(a.k), a.w, a.v))
                }
                _ => out.push_str(kind_name(a.k)),
            }
        }
    }
    out
}
