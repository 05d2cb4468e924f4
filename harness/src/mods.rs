mod spec;
mod tree;
mod rb;
#[cfg(feature = "cbor")]
mod cbor;
#[cfg(feature = "cv")]
mod cv;

#[cfg(feature = "rih")]
mod rih;
#[cfg(feature = "http")]
mod http;
#[cfg(feature = "msg")]
mod msg;
#[cfg(feature = "rv")]
mod rv;
#[cfg(feature = "rv")]
mod zip;
#[cfg(all(feature = "js", target_arch = "wasm32"))]
mod js;
#[cfg(feature = "asset")]
mod asset;

#[cfg(not(target_arch = "wasm32"))]
pub const TABLES: &[&[(&str, fn())]] = &[
    tree::TABLE,
    rb::TABLE,
    #[cfg(feature = "cbor")]
    cbor::TABLE,
    #[cfg(feature = "cv")]
    cv::TABLE,
    #[cfg(feature = "rih")]
    rih::TABLE,
    #[cfg(feature = "http")]
    http::TABLE,
    #[cfg(feature = "msg")]
    msg::TABLE,
    #[cfg(feature = "rv")]
    rv::TABLE,
    #[cfg(feature = "rv")]
    zip::TABLE,
    #[cfg(feature = "asset")]
    asset::TABLE,
];
