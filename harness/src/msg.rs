//! HTTP messages: what their Candid form, their builders and conversions keep, and how URLs are read
use candid::{decode_one, encode_one, CandidType, Deserialize};
use ic_http_certification::*;
use std::str::FromStr;

harnesses! {
    c40_request c40_response c40_text c40_reject c40_large c40_bytes c40_url c40_anyurl c40_convert c40_text_t c40_bytes_t c40_anyurl_t c40_url_t
}

/// the gateway interface's records, as any other implementation of Candid would write them
#[derive(CandidType, Deserialize, PartialEq, Clone)]
struct Req {
    method: String,
    url: String,
    headers: Vec<(String, String)>,
    #[serde(with = "serde_bytes")]
    body: Vec<u8>,
    certificate_version: Option<u16>,
}
#[derive(CandidType, Deserialize, PartialEq, Clone)]
struct UpdateReq {
    method: String,
    url: String,
    headers: Vec<(String, String)>,
    #[serde(with = "serde_bytes")]
    body: Vec<u8>,
}
#[derive(CandidType, Deserialize, PartialEq, Clone)]
struct Resp {
    status_code: u16,
    headers: Vec<(String, String)>,
    #[serde(with = "serde_bytes")]
    body: Vec<u8>,
    upgrade: Option<bool>,
}
#[derive(CandidType, Deserialize, PartialEq, Clone)]
struct UpdateResp {
    status_code: u16,
    headers: Vec<(String, String)>,
    #[serde(with = "serde_bytes")]
    body: Vec<u8>,
}
const KEPT: &str = "a message's Candid form holds something else than the message";
const READ: &str = "a message is read from Candid as another one";
const BUILT: &str = "a message holds something else than it was built from";
const MOVED: &str = "a conversion changes a message";

fn build(q: &Req) -> HttpRequest<'static> {
    let mut b = HttpRequest::builder()
        .with_method(Method::from_str(&q.method).unwrap())
        .with_url(q.url.clone())
        .with_headers(q.headers.clone())
        .with_body(q.body.clone());
    if let Some(v) = q.certificate_version {
        b = b.with_certificate_version(v);
    }
    b.build()
}
fn shown(r: &HttpRequest) -> Req {
    Req { method: r.method().as_str().into(), url: r.url().into(), headers: r.headers().to_vec(), body: r.body().to_vec(), certificate_version: r.certificate_version() }
}
fn shown_update(r: &HttpUpdateRequest) -> UpdateReq {
    UpdateReq { method: r.method().as_str().into(), url: r.url().into(), headers: r.headers().to_vec(), body: r.body().to_vec() }
}
fn less(q: &Req) -> UpdateReq {
    UpdateReq { method: q.method.clone(), url: q.url.clone(), headers: q.headers.clone(), body: q.body.clone() }
}
fn build_response(q: &Resp) -> HttpResponse<'static> {
    let mut b = HttpResponse::builder()
        .with_status_code(StatusCode::from_u16(q.status_code).unwrap())
        .with_headers(q.headers.clone())
        .with_body(q.body.clone());
    if let Some(v) = q.upgrade {
        b = b.with_upgrade(v);
    }
    b.build()
}
fn shown_response(r: &HttpResponse) -> Resp {
    Resp { status_code: r.status_code().as_u16(), headers: r.headers().to_vec(), body: r.body().to_vec(), upgrade: r.upgrade() }
}
fn shown_update_response(r: &HttpUpdateResponse) -> UpdateResp {
    UpdateResp { status_code: r.status_code().as_u16(), headers: r.headers().to_vec(), body: r.body().to_vec() }
}
fn less_response(q: &Resp) -> UpdateResp {
    UpdateResp { status_code: q.status_code, headers: q.headers.clone(), body: q.body.clone() }
}

/// there and back again, in every form
fn request(q: &Req) {
    let r = build(q);
    nd::check(shown(&r) == *q, BUILT);
    nd::check(decode_one::<Req>(&encode_one(&r).unwrap()).is_ok_and(|x| x == *q), KEPT);
    nd::check(decode_one::<HttpRequest>(&encode_one(q).unwrap()).is_ok_and(|x| shown(&x) == *q), READ);
    let bytes = encode_one(&r).unwrap();
    nd::check(decode_one::<HttpRequest>(&bytes).is_ok_and(|x| x == r && shown(&x) == *q), READ);
    // an update request is the same without the version; each is read as the other
    let u = HttpUpdateRequest::from(r.clone());
    nd::check(shown_update(&u) == less(q), MOVED);
    nd::check(decode_one::<UpdateReq>(&encode_one(&u).unwrap()).is_ok_and(|x| x == less(q)), KEPT);
    nd::check(decode_one::<HttpUpdateRequest>(&encode_one(less(q)).unwrap()).is_ok_and(|x| shown_update(&x) == less(q)), READ);
    nd::check(decode_one::<HttpUpdateRequest>(&bytes).is_ok_and(|x| x == u), READ);
    let mut plain = q.clone();
    plain.certificate_version = None;
    nd::check(decode_one::<HttpRequest>(&encode_one(&u).unwrap()).is_ok_and(|x| shown(&x) == plain), READ);
}
fn response(q: &Resp) {
    let r = build_response(q);
    nd::check(shown_response(&r) == *q, BUILT);
    let bytes = encode_one(&r).unwrap();
    nd::check(decode_one::<Resp>(&bytes).is_ok_and(|x| x == *q), KEPT);
    nd::check(decode_one::<HttpResponse>(&encode_one(q).unwrap()).is_ok_and(|x| shown_response(&x) == *q), READ);
    nd::check(decode_one::<HttpResponse>(&bytes).is_ok_and(|x| x == r && shown_response(&x) == *q), READ);
    let u = HttpUpdateResponse::from(r.clone());
    nd::check(shown_update_response(&u) == less_response(q), MOVED);
    nd::check(decode_one::<UpdateResp>(&encode_one(&u).unwrap()).is_ok_and(|x| x == less_response(q)), KEPT);
    nd::check(decode_one::<HttpUpdateResponse>(&encode_one(less_response(q)).unwrap()).is_ok_and(|x| shown_update_response(&x) == less_response(q)), READ);
    nd::check(decode_one::<HttpUpdateResponse>(&bytes).is_ok_and(|x| x == u), READ);
}
const METHODS: [&str; 11] = ["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "CONNECT", "TRACE", "get", "X-Long.Extension_Method~1"];

fn sample() -> Req {
    Req {
        method: "POST".into(),
        url: "/a/b%20c?q=1&r#x".into(),
        headers: vec![("Accept".into(), "text/html".into()), ("accept".into(), "".into()), ("X".into(), "y".into()), ("Accept".into(), "text/html".into())],
        body: vec![0, 1, 255],
        certificate_version: Some(2),
    }
}
/// any body, version, number of headers
fn c40_request() {
    let mut q = sample();
    q.method = nd::pick(&METHODS).into();
    q.headers.truncate(nd::choice(5));
    q.body = nd::bytes(nd::choice(4));
    q.certificate_version = if nd::choice(2) == 1 { Some(nd::u16()) } else { None };
    request(&q);
    nd::cover("request");
}
fn c40_response() {
    let mut q = Resp { status_code: 0, headers: sample().headers, body: nd::bytes(nd::choice(4)), upgrade: nd::pick(&[None, Some(false), Some(true)]) };
    q.headers.truncate(nd::choice(5));
    q.status_code = nd::u16();
    nd::assume(q.status_code >= 100 && q.status_code < 1000);
    response(&q);
    // built anew
    let b = HttpResponseBuilder::from(build_response(&q));
    nd::check(shown_response(&b.clone().build()) == q && shown_update_response(&b.build_update()) == less_response(&q), MOVED);
    nd::cover("response");
}
/// any text of n characters or bytes
fn text(n: usize) -> String {
    match nd::choice(2) {
        0 => nd::ascii(n),
        _ => {
            let b = nd::bytes(n);
            let s = String::from_utf8(b);
            nd::assume(s.is_ok());
            s.unwrap()
        }
    }
}
fn texts(n: usize) {
    let mut q = sample();
    let t = text(nd::choice(n + 1));
    match nd::choice(4) {
        0 => q.url = t,
        1 => q.headers[nd::pick(&[0, 1, 3])].0 = t,
        2 => q.headers[nd::pick(&[0, 1, 3])].1 = t,
        _ => {
            nd::assume(!t.is_empty() && Method::from_str(&t).is_ok());
            q.method = t
        }
    }
    request(&q);
    response(&Resp { status_code: 206, headers: q.headers, body: q.body, upgrade: Some(true) });
    nd::cover("text");
}
fn c40_text() {
    texts(2)
}
fn c40_text_t() {
    texts(3)
}
fn tchar(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)
}
/// a method that is none, a status that is none
fn c40_reject() {
    match nd::choice(2) {
        0 => {
            let m = text(nd::choice(4));
            let q = Req { method: m.clone(), ..sample() };
            // what a method may be is up to the http crate, within what HTTP allows
            let ok = Method::from_str(&m).is_ok();
            nd::check(!ok || !m.is_empty() && m.bytes().all(tchar), "a request is read with a method that is none, or not read with one");
            let bytes = encode_one(&q).unwrap();
            nd::check(decode_one::<HttpRequest>(&bytes).is_ok_and(|x| shown(&x) == q) == ok, "a request is read with a method that is none, or not read with one");
            nd::check(decode_one::<HttpUpdateRequest>(&bytes).is_ok() == ok, "a request is read with a method that is none, or not read with one");
            nd::cover(if ok { "accepted" } else { "rejected" });
        }
        _ => {
            let q = Resp { status_code: nd::u16(), headers: vec![], body: vec![1], upgrade: None };
            let ok = (100..1000).contains(&q.status_code);
            let bytes = encode_one(&q).unwrap();
            nd::check(decode_one::<HttpResponse>(&bytes).is_ok_and(|x| shown_response(&x) == q) == ok, "a response is read with a status that is none, or not read with one");
            nd::check(decode_one::<HttpUpdateResponse>(&bytes).is_ok() == ok, "a response is read with a status that is none, or not read with one");
            nd::cover(if ok { "accepted" } else { "rejected" });
        }
    }
}
fn c40_large() {
    let mut q = sample();
    match nd::choice(3) {
        0 => {
            q.headers = (0..71).map(|i| (format!("Header-{}", i * 37 % 71), format!("value {i}"))).collect();
            q.headers[nd::pick(&[0, 40, 70])].1 = format!("{}{}", "v".repeat(nd::pick(&[127, 300])), nd::ascii(1));
        }
        1 => q.url = format!("/{}{}?{}", "p".repeat(300), nd::ascii(1), "q".repeat(nd::pick(&[10, 20000]))),
        _ => {
            q.body = vec![7; nd::pick(&[127, 128, 4097, 70001])];
            let n = q.body.len();
            q.body[nd::pick(&[0, n - 1])] = nd::u8();
        }
    }
    request(&q);
    response(&Resp { status_code: 404, headers: q.headers, body: q.body, upgrade: None });
    nd::cover("large");
}
/// bytes that are no message, or another one: an answer or an error
fn bytes(n: usize) {
    let z = match nd::choice(3) {
        0 => encode_one(build(&sample())).unwrap(),
        1 => encode_one(build_response(&Resp { status_code: 200, headers: vec![("a".into(), "b".into())], body: vec![1, 2], upgrade: Some(true) })).unwrap(),
        _ => encode_one(HttpUpdateRequest::from(build(&sample()))).unwrap(),
    };
    let mut z = z;
    let at = nd::choice(z.len() + 1 - n);
    for i in 0..n {
        z[at + i] = nd::u8();
    }
    let r = decode_one::<HttpRequest>(&z).map(|x| shown(&x));
    let other = decode_one::<Req>(&z);
    match &r {
        Ok(x) => nd::check(other.is_ok_and(|y| y == *x), READ),
        Err(_) => nd::check(!other.is_ok_and(|x| Method::from_str(&x.method).is_ok()), READ),
    }
    let s = decode_one::<HttpResponse>(&z).map(|x| shown_response(&x));
    let other = decode_one::<Resp>(&z);
    match &s {
        Ok(x) => nd::check(other.is_ok_and(|y| y == *x), READ),
        Err(_) => nd::check(!other.is_ok_and(|x| (100..1000).contains(&x.status_code)), READ),
    }
    nd::cover(if r.is_ok() || s.is_ok() { "read" } else { "rejected" });
}
fn c40_bytes() {
    bytes(1)
}
fn c40_bytes_t() {
    bytes(2)
}

// ---- URLs
/// path (percent-decoded) and query of a URL, from its parts
fn url(n: usize, k: usize) {
    let origin = nd::pick(&["", "https://x.icp0.io:443"]);
    let mut path: Vec<u8> = vec![];
    let mut raw = String::new();
    if origin.is_empty() || nd::choice(2) == 1 {
        path.push(b'/');
        raw.push('/');
    }
    if !raw.is_empty() {
        for _ in 0..nd::choice(n + 1) {
            match nd::choice(3) {
                0 => {
                    let s = nd::such(1, |b| b.is_ascii_alphanumeric() || b"/-._~!$&'()*+,;=:@".contains(&b));
                    path.extend(s.bytes());
                    raw += &s;
                }
                1 => {
                    let b = nd::u8();
                    path.push(b);
                    raw.push('%');
                    let hex = if nd::choice(2) == 0 { b"0123456789abcdef" } else { b"0123456789ABCDEF" };
                    raw.push(hex[(b >> 4) as usize] as char);
                    raw.push(hex[(b & 15) as usize] as char);
                }
                _ => {
                    path.extend("dir/%41".replace("%41", "A").bytes());
                    raw += "dir/%41";
                }
            }
        }
    }
    let query = match nd::choice(4) {
        0 => None,
        1 => Some("".to_string()),
        2 => Some(nd::such(k, |b| b.is_ascii_alphanumeric() || b"-._~!$&'()*+,;=:@/?%".contains(&b))),
        _ => Some("a=%20b&c=d".to_string()),
    };
    let mut whole = format!("{origin}{raw}");
    if let Some(q) = &query {
        whole += "?";
        whole += q;
    }
    if nd::choice(2) == 1 {
        whole += "#part?x=/y";
    }
    if path.is_empty() {
        path.push(b'/');
    }
    let r = HttpRequest::get(whole.clone()).build();
    let want = String::from_utf8(path).ok();
    let say = "the path or query of a request is not that of its URL";
    nd::check(r.get_path().ok() == want, say);
    nd::check(r.get_query().is_ok_and(|x| x == query), say);
    let u = HttpRequest::get(whole.clone()).build_update();
    nd::check(u.get_path().ok() == want && u.get_query().is_ok_and(|x| x == query), say);
    nd::check(r.url() == whole && u.url() == whole, BUILT);
    nd::cover(if want.is_some() { "path" } else { "no text" });
}
fn c40_url() {
    url(1, 1)
}
fn c40_url_t() {
    url(2, 1)
}
fn c40_anyurl() {
    anyurl(3)
}
fn c40_anyurl_t() {
    anyurl(4)
}
/// any text: what is read as a path and a query is in it
fn anyurl(n: usize) {
    let t = format!("{}{}", nd::pick(&["", "/", "/a?", "https://", "/%"]), text(nd::choice(n + 1)));
    let r = HttpRequest::get(t.clone()).build();
    let (p, q) = (r.get_path(), r.get_query());
    if let Ok(q) = &q {
        let q2 = t.split('#').next().unwrap().split_once('?').map(|x| x.1.to_string());
        nd::check(*q == q2, "the path or query of a request is not that of its URL");
    }
    if let Ok(p) = &p {
        if t.starts_with('/') {
            let raw = t.split(['?', '#']).next().unwrap();
            nd::check(urldecode(raw.as_bytes()) == p.as_bytes(), "the path or query of a request is not that of its URL");
        }
    }
    nd::check(q.is_ok() || p.is_err(), "a URL that is none has a path");
    nd::cover(if p.is_ok() { "path" } else { "none" });
}
fn urldecode(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    let hex = |b: u8| (b as char).to_digit(16);
    while i < s.len() {
        if s[i] == b'%' && i + 2 < s.len() {
            if let (Some(a), Some(b)) = (hex(s[i + 1]), hex(s[i + 2])) {
                o.push((a * 16 + b) as u8);
                i += 3;
                continue;
            }
        }
        o.push(s[i]);
        i += 1;
    }
    o
}
/// builders: each part is set by its own call, in any order; what is not set has the documented value
fn c40_convert() {
    let (get, post, put, patch, delete) = (HttpRequest::get("/u"), HttpRequest::post("/u"), HttpRequest::put("/u"), HttpRequest::patch("/u"), HttpRequest::delete("/u"));
    let i = nd::choice(6);
    let (b, m) = match i {
        0 => (get, "GET"),
        1 => (post, "POST"),
        2 => (put, "PUT"),
        3 => (patch, "PATCH"),
        4 => (delete, "DELETE"),
        _ => (HttpRequest::builder(), "GET"),
    };
    let mut want = Req { method: m.into(), url: if i < 5 { "/u".into() } else { "/".into() }, headers: vec![], body: vec![], certificate_version: None };
    let mut b = b;
    for _ in 0..nd::choice(4) {
        match nd::choice(5) {
            0 => {
                let s = nd::ascii(1);
                b = b.with_url(s.clone());
                want.url = s;
            }
            1 => {
                let m = nd::pick(&METHODS);
                b = b.with_method(Method::from_str(m).unwrap());
                want.method = m.into();
            }
            2 => {
                want.headers = vec![(nd::ascii(1), "b".into())];
                b = b.with_headers(want.headers.clone());
            }
            3 => {
                want.body = nd::bytes(1);
                b = b.with_body(want.body.clone());
            }
            _ => {
                let v = nd::u16();
                want.certificate_version = Some(v);
                b = b.with_certificate_version(v);
            }
        }
    }
    nd::check(shown_update(&b.clone().build_update()) == less(&want), BUILT);
    // not set, the version is none, or the documented 1
    let r = b.build();
    if want.certificate_version.is_none() && r.certificate_version() == Some(1) {
        want.certificate_version = Some(1);
    }
    nd::check(shown(&r) == want, BUILT);
    // headers of a response
    let mut p = HttpResponse::builder().build();
    nd::check(shown_response(&p) == Resp { status_code: 200, headers: vec![], body: vec![], upgrade: None }, BUILT);
    let h = vec![("A".to_string(), nd::ascii(1)), ("a".to_string(), nd::ascii(1)), ("A".to_string(), "x".to_string())];
    for x in &h {
        p.add_header(x.clone());
    }
    nd::check(p.headers() == h && p.headers_mut() == &h, BUILT);
    let mut u = HttpUpdateResponse::from(p);
    u.add_header(h[0].clone());
    nd::check(u.headers().len() == 4 && u.headers()[..3] == h && u.headers()[3] == h[0] && u.headers_mut().len() == 4, BUILT);
    nd::cover("built");
}
