//! The parsers as the simulator uses them. All of the crate's generic code is instantiated here, and this
//! crate is compiled with instrumentation (tools/rustc-wrap).

use http_box::fsm::Success;
use http_box::{http1, http2};
use httprec::cost::Mine;
use httprec::{Hand, Nul, Rec};

pub trait Port: Hand + Sized + 'static {
    fn new1<'a>() -> http1::Parser<'a, Self>;
    fn new2<'a>() -> http2::Parser<'a, Self>;
    fn reset1<'a>(p: &mut http1::Parser<'a, Self>);
    fn head<'a>(p: &mut http1::Parser<'a, Self>);
    fn chunked<'a>(p: &mut http1::Parser<'a, Self>);
    fn multipart<'a>(p: &mut http1::Parser<'a, Self>);
    fn url<'a>(p: &mut http1::Parser<'a, Self>);
    fn reset2<'a>(p: &mut http2::Parser<'a, Self>);
    fn resume1<'a>(p: &mut http1::Parser<'a, Self>, h: &mut Self, s: &[u8]) -> Result<Success, http1::ParserError>;
    /// The error says whether the parser was dead already (http2 does not export its error type).
    fn resume2<'a>(p: &mut http2::Parser<'a, Self>, h: &mut Self, s: &[u8]) -> Result<Success, bool>;
}

macro_rules! port {
    ($t:ty) => {
        impl Port for $t {
            #[inline(never)]
            fn new1<'a>() -> http1::Parser<'a, Self> {
                http1::Parser::new()
            }
            #[inline(never)]
            fn new2<'a>() -> http2::Parser<'a, Self> {
                http2::Parser::new()
            }
            #[inline(never)]
            fn reset1<'a>(p: &mut http1::Parser<'a, Self>) {
                p.reset()
            }
            #[inline(never)]
            fn head<'a>(p: &mut http1::Parser<'a, Self>) {
                p.init_head()
            }
            #[inline(never)]
            fn chunked<'a>(p: &mut http1::Parser<'a, Self>) {
                p.init_chunked()
            }
            #[inline(never)]
            fn multipart<'a>(p: &mut http1::Parser<'a, Self>) {
                p.init_multipart()
            }
            #[inline(never)]
            fn url<'a>(p: &mut http1::Parser<'a, Self>) {
                p.init_url_encoded()
            }
            #[inline(never)]
            fn reset2<'a>(p: &mut http2::Parser<'a, Self>) {
                p.reset()
            }
            #[inline(never)]
            fn resume1<'a>(p: &mut http1::Parser<'a, Self>, h: &mut Self, s: &[u8]) -> Result<Success, http1::ParserError> {
                p.resume(h, s)
            }
            #[inline(never)]
            fn resume2<'a>(p: &mut http2::Parser<'a, Self>, h: &mut Self, s: &[u8]) -> Result<Success, bool> {
                p.resume(h, s).map_err(|e| {
                    let _mine = Mine::new();
                    format!("{:?}", e).contains("Dead")
                })
            }
        }
    };
}

port!(Rec);
port!(Nul);
