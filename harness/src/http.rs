//! ic-http-certification: hashes of requests and responses, certifications, the certification tree
use crate::rih::{of_map, same};
use crate::spec::*;
use ic_http_certification::cel::DefaultRequestCertification;
use ic_http_certification::*;

harnesses! {
    c25_spec c25_bind c25_query c25_headers c25_anyname c25_anyquery c25_bind_t c25_large c25_query_t
    c26_spec c26_bind c26_filter c26_special c26_anyname c26_many c26_bind_t c26_large
    c30_header c30_text c30_full c30_name c30_other c30_header_t
    c28_one c28_two c28_names c28_any c28_deep c28_deep_t c28_far c28_two_t c28_three_t
    c29_history c29_paths c29_any c29_many c29_history_t c29_paths_t
}
type H = [u8; 32];
type Hs = Vec<(String, String)>;

pub fn lower(s: &str) -> String {
    let mut v = s.as_bytes().to_vec();
    for x in &mut v {
        // without a fork
        *x |= ((*x >= b'A') & (*x <= b'Z')) as u8 * 32;
    }
    String::from_utf8(v).unwrap()
}
pub fn leb(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    while v >= 128 {
        o.push(v as u8 & 127 | 128);
        v >>= 7;
    }
    o.push(v as u8);
    o
}
pub fn names(n: usize, set: &[u8]) -> Vec<String> {
    (0..nd::range(0, n)).map(|_| nd::chars(1, set)).collect()
}
pub fn headers(n: usize, set: &[u8]) -> Hs {
    (0..nd::range(0, n)).map(|_| (nd::chars(1, set), nd::ascii(nd::range(0, 1)))).collect()
}
pub fn listed(l: &[String], name: &str) -> bool {
    let mut r = false;
    for x in l {
        r |= x.len() == name.len() && lower(x) == lower(name);
    }
    r
}
pub fn refs(v: &[String]) -> Vec<&str> {
    v.iter().map(|x| x.as_str()).collect()
}
/// the certified headers: lower case names and values
pub fn chosen(h: &[(String, String)], keep: &dyn Fn(&str) -> bool) -> Hs {
    h.iter().filter(|x| keep(&x.0)).map(|x| (lower(&x.0), x.1.clone())).collect()
}
pub fn filtered_query(q: &str, params: &[String]) -> String {
    let mut o: Vec<String> = vec![];
    let mut cur = vec![];
    let b = q.as_bytes();
    for i in 0..=b.len() {
        if i == b.len() || b[i] == b'&' {
            let frag = String::from_utf8(std::mem::take(&mut cur)).unwrap();
            let name = match frag.find('=') {
                Some(p) => &frag[..p],
                None => &frag,
            };
            if listed(params, name) {
                o.push(frag.clone());
            }
        } else {
            cur.push(b[i]);
        }
    }
    o.join("&")
}
pub fn spec_request(method: &str, query: Option<&str>, hs: &[(String, String)], body: &[u8], names: &[String], params: &[String]) -> H {
    let mut m: Vec<(H, H)> = chosen(hs, &|n| listed(names, n)).iter().map(|x| (sha(&[x.0.as_bytes()]), sha(&[x.1.as_bytes()]))).collect();
    m.push((sha(&[b":ic-cert-method"]), sha(&[method.as_bytes()])));
    if let Some(q) = query {
        m.push((sha(&[b":ic-cert-query"]), sha(&[filtered_query(q, params).as_bytes()])));
    }
    sha(&[&of_map(&m), &sha(&[body])])
}
#[derive(Clone)]
pub struct Rq {
    pub method: &'static str,
    pub query: Option<String>,
    pub headers: Hs,
    pub body: Vec<u8>,
}
impl Rq {
    fn real(&self) -> HttpRequest<'static> {
        self.at("/p")
    }
    pub fn at(&self, path: &str) -> HttpRequest<'static> {
        let url = match &self.query {
            Some(q) => format!("{path}?{q}"),
            None => path.into(),
        };
        HttpRequest::builder().with_method(self.method.parse().unwrap()).with_url(url).with_headers(self.headers.clone()).with_body(self.body.clone()).build()
    }
}
fn req_hash(r: &Rq, names: &[String], params: &[String]) -> H {
    let d = DefaultRequestCertification::new(refs(names), refs(params));
    match request_hash(&r.real(), &d) {
        Ok(h) => h,
        Err(_) => {
            nd::check(false, "request_hash fails");
            [0; 32]
        }
    }
}

// ---- C25
fn c25_spec() {
    let r = Rq {
        method: nd::pick(&["GET", "POST", "PURGE"]),
        query: if nd::choice(2) == 0 { None } else { Some(nd::chars(nd::range(0, 3), b"aA=&")) },
        headers: headers(2, b"aB-"),
        body: nd::bytes(nd::range(0, 1)),
    };
    let (n, p) = (names(1, b"Ab-"), names(1, b"aB"));
    nd::check(req_hash(&r, &n, &p) == spec_request(r.method, r.query.as_deref(), &r.headers, &r.body, &n, &p), "the request hash is not the one of the specification");
}
/// two requests have the same hash just when they agree on what is certified
fn same_hash(a: &Rq, b: &Rq, n: &[String], p: &[String]) {
    let eq = req_hash(a, n, p) == req_hash(b, n, p);
    let q = |r: &Rq| r.query.as_deref().map(|q| filtered_query(q, p));
    let keep = |x: &str| listed(n, x);
    let want = a.method == b.method && a.body.len() == b.body.len() && (a.body == b.body) & (q(a) == q(b)) && same(&chosen(&a.headers, &keep), &chosen(&b.headers, &keep));
    nd::cover(if want { "same" } else { "different" });
    nd::check(eq == want, "the request hash does not stand for the certified parts");
}
fn c25_bind() {
    let r = || Rq {
        method: nd::pick(&["GET", "POST"]),
        query: if nd::choice(2) == 0 { None } else { Some(nd::chars(1, b"aA=&")) },
        headers: headers(1, b"aA"),
        body: nd::bytes(nd::range(0, 1)),
    };
    same_hash(&r(), &r(), &names(1, b"aAb"), &names(1, b"aAb"));
}
fn c25_bind_t() {
    let r = |n| Rq {
        method: nd::pick(&["GET", "PUT"]),
        query: if nd::choice(2) == 0 { None } else { Some(nd::chars(1, b"aA=&")) },
        headers: headers(n, b"aA"),
        body: nd::bytes(1),
    };
    same_hash(&r(2), &r(1), &names(1, b"aAb"), &names(1, b"aAb"));
}
fn query(n: usize, k: usize) {
    let r = |q| Rq { method: "GET", query: Some(q), headers: vec![], body: vec![] };
    let (a, b) = (nd::chars(nd::range(0, n), b"aBc=&"), nd::chars(nd::range(0, n), b"abc=&"));
    let p = names(k, b"abC");
    let (x, y) = (filtered_query(&a, &p), filtered_query(&b, &p));
    let eq = req_hash(&r(a), &[], &p) == req_hash(&r(b), &[], &p);
    nd::cover(if x == y { "same" } else { "different" });
    nd::check(eq == (x == y), "the request hash does not stand for the certified query parameters");
}
fn c25_query() {
    query(3, 2)
}
fn c25_query_t() {
    query(5, 2)
}
/// repeated headers, in any order and letter case
fn c25_headers() {
    let r = |h| Rq { method: "GET", query: None, headers: h, body: vec![] };
    let hs = |m: usize| -> Hs { (0..nd::range(0, m)).map(|_| (nd::chars(1, b"aAbC"), nd::chars(1, b"xy"))).collect() };
    let (a, b) = (hs(3), hs(2));
    same_hash(&r(a), &r(b), &names(2, b"ABc"), &[]);
}
/// names of any characters
fn c25_anyname() {
    let n = |lo, hi| nd::token(nd::range(lo, hi));
    let r = Rq { method: "GET", query: None, headers: vec![(n(1, 2), nd::value(nd::range(0, 2))), (format!("x-a-longer-header-name-{}", nd::token(1)), nd::value(1))], body: vec![] };
    let l = vec![n(1, 2), nd::pick(&["X-A-longer-header-name-k", "x-a-longer-header-name-~"]).to_string()];
    nd::check(req_hash(&r, &l, &[]) == spec_request(r.method, None, &r.headers, &r.body, &l, &[]), "the request hash is not the one of the specification");
}
fn c25_anyquery() {
    let q = match nd::choice(3) {
        0 => nd::query(nd::range(0, 4)),
        1 => format!("a{}=x&{}", nd::param(1), nd::query(2)),
        _ => format!("{}=x&longer_name={}&Longer_name{}=", nd::param(2), nd::query(1), nd::query(1)),
    };
    let p = if nd::choice(2) == 0 { vec![nd::param(nd::range(1, 2))] } else { vec!["LONGER_name".into(), "a_".into()] };
    let r = Rq { method: "GET", query: Some(q), headers: vec![], body: vec![] };
    nd::check(req_hash(&r, &[], &p) == spec_request(r.method, r.query.as_deref(), &[], &[], &[], &p), "the request hash is not the one of the specification");
}

// ---- C26
pub const CERT: &str = "IC-Certificate";
pub const EXPR: &str = "IC-CertificateExpression";
#[derive(Clone)]
pub enum Which {
    Only(Vec<String>),
    Except(Vec<String>),
}
impl Which {
    pub fn any(n: usize, set: &[u8]) -> Which {
        if nd::choice(2) == 0 {
            Which::Only(names(n, set))
        } else {
            Which::Except(names(n, set))
        }
    }
    pub fn real(&self) -> DefaultResponseCertification<'_> {
        match self {
            Which::Only(l) => DefaultResponseCertification::certified_response_headers(refs(l)),
            Which::Except(l) => DefaultResponseCertification::response_header_exclusions(refs(l)),
        }
    }
    pub fn keeps(&self, n: &str) -> bool {
        let same = |x: &str| x.len() == n.len() && lower(x) == lower(n);
        if same(CERT) {
            return false;
        }
        if same(EXPR) {
            return true;
        }
        match self {
            Which::Only(x) => listed(x, n),
            Which::Except(x) => !listed(x, n),
        }
    }
}
#[derive(Clone)]
pub struct Rs {
    pub status: u16,
    pub headers: Hs,
    pub body: Vec<u8>,
}
impl Rs {
    pub fn real(&self) -> HttpResponse<'static> {
        HttpResponse::builder().with_status_code(StatusCode::from_u16(self.status).unwrap()).with_headers(self.headers.clone()).with_body(self.body.clone()).build()
    }
}
/// many headers and parameters, long names, values and bodies
fn c25_large() {
    let (long, par) = ("N".repeat(300), "p".repeat(300));
    let mut l: Vec<String> = (0..70).map(|i| format!("X-{i}")).collect();
    l.push(long);
    let mut ps: Vec<String> = (0..70).map(|i| format!("q{i}")).collect();
    ps.push(par);
    let q: Vec<String> = ps.iter().enumerate().map(|(i, p)| format!("{p}={}", "z".repeat(if i < 69 { 1 } else { 3000 }))).collect();
    let hs: Hs = l.iter().enumerate().map(|(i, n)| (n.clone(), "v".repeat(if i < 69 { i } else { 9000 }))).collect();
    let (ln, pn) = (nd::pick(&[0, 67, 71]), nd::pick(&[0, 67, 71]));
    let mut r = Rq { method: "POST", query: Some(q.join("&")), headers: hs, body: vec![1; 3] };
    match nd::choice(3) {
        0 => {
            let i = nd::pick(&[0, 66, 69, 70]);
            let (n, v) = &mut r.headers[i];
            let s = if nd::choice(2) == 0 { n } else { v };
            let at = s.len() - (s.len() > 0) as usize;
            s.replace_range(at.., &nd::token(1));
        }
        1 => {
            let b = r.query.as_mut().unwrap();
            let n = b.len();
            let at = nd::pick(&[0, 150, 3400, n - 3002, n - 1]);
            b.replace_range(at..at + 1, &nd::query(1));
        }
        _ => {
            r.headers.truncate(1);
            r.body = vec![2; nd::pick(&[65537, 2000001])];
            let n = r.body.len();
            r.body[nd::pick(&[0, 65535, n - 1])] = nd::u8();
        }
    }
    let (n, p) = (&l[..ln], &ps[..pn]);
    nd::check(req_hash(&r, n, p) == spec_request(r.method, r.query.as_deref(), &r.headers, &r.body, n, p), "the request hash is not the one of the specification");
}
pub fn status() -> u16 {
    let s = nd::u16();
    nd::assume((100..1000).contains(&s));
    s
}
pub fn spec_response(status: u16, hs: &[(String, String)], body_hash: H) -> H {
    let mut m: Vec<(H, H)> = hs.iter().map(|x| (sha(&[x.0.as_bytes()]), sha(&[x.1.as_bytes()]))).collect();
    m.push((sha(&[b":ic-cert-status"]), sha(&[&leb(status as u64)])));
    sha(&[&of_map(&m), &body_hash])
}
/// any header: an ordinary one, the certificate, or the expression, in different letter cases
fn special(h: &mut Hs) {
    for _ in 0..nd::range(0, 1) {
        let n = nd::pick(&[CERT, "ic-certificate", "iC-CERTIFICATE", EXPR, "ic-certificateexpression", "IC-Certificatf"]);
        let at = nd::choice(h.len() + 1);
        h.insert(at, (n.into(), nd::ascii(1)));
    }
}
fn c26_spec() {
    let mut h = headers(1, b"aB");
    special(&mut h);
    let w = Which::any(1, b"Ab");
    let r = Rs { status: status(), headers: h, body: nd::bytes(nd::range(0, 1)) };
    let own = if nd::choice(2) == 0 { None } else { Some(nd::array()) };
    let want = spec_response(r.status, &chosen(&r.headers, &|n| w.keeps(n)), own.unwrap_or(sha(&[&r.body])));
    nd::check(response_hash(&r.real(), &w.real(), own) == want, "the response hash is not the one of the specification");
}
fn c26_filter() {
    let mut h = headers(2, b"aB");
    special(&mut h);
    let w = Which::any(2, b"AbC");
    let r = Rs { status: 200, headers: h, body: vec![] };
    let f = filter_response_headers(&r.real(), &w.real());
    let want = chosen(&r.headers, &|n| w.keeps(n));
    nd::check(f.headers == want, "filter_response_headers keeps other headers");
    let c: Vec<&String> = r.headers.iter().filter(|x| lower(&x.0) == lower(CERT)).map(|x| &x.1).collect();
    nd::check(f.certificate.as_ref() == c.last().copied(), "filter_response_headers gives another certificate");
    nd::cover(if c.is_empty() { "no certificate" } else { "certificate" });
}
fn same_response(a: &Rs, b: &Rs, w: &Which) {
    let h = |r: &Rs| response_hash(&r.real(), &w.real(), None);
    let eq = h(a) == h(b);
    let keep = |x: &str| w.keeps(x);
    let want = a.body.len() == b.body.len() && (a.status == b.status) & (a.body == b.body) && same(&chosen(&a.headers, &keep), &chosen(&b.headers, &keep));
    nd::cover(if want { "same" } else { "different" });
    nd::check(eq == want, "the response hash does not stand for the certified parts");
}
fn c26_bind() {
    let r = || Rs { status: status(), headers: headers(1, b"aAb"), body: nd::bytes(nd::range(0, 1)) };
    same_response(&r(), &r(), &Which::any(1, b"aAb"));
}
fn c26_bind_t() {
    let r = |n| Rs { status: status(), headers: headers(n, b"aAb"), body: nd::bytes(1) };
    same_response(&r(2), &r(1), &Which::any(1, b"aAb"));
}
/// with certificate and expression headers, listed or not
fn c26_special() {
    let r = |n| {
        let mut h = headers(n, b"aA");
        special(&mut h);
        Rs { status: 200, headers: h, body: vec![] }
    };
    let l = match nd::choice(4) {
        0 => vec![],
        1 => vec![nd::pick(&[CERT, "ic-certificate"]).to_string()],
        2 => vec![EXPR.to_string(), "a".into()],
        _ => vec!["a".into()],
    };
    let w = if nd::choice(2) == 0 { Which::Only(l) } else { Which::Except(l) };
    same_response(&r(0), &r(1), &w);
}
/// a name in which one character of the given one may be another, in either letter case
pub fn nearly(name: &str) -> String {
    let mut b = name.as_bytes().to_vec();
    match nd::choice(4) {
        0 => {
            let i = nd::choice(b.len());
            b[i] = nd::token(1).as_bytes()[0];
        }
        1 => b.truncate(nd::range(1, b.len() - 1)),
        2 => b.push(nd::token(1).as_bytes()[0]),
        _ => b.insert(0, nd::token(1).as_bytes()[0]),
    }
    String::from_utf8(b).unwrap()
}
/// names of any characters, and names that look like the special ones
fn c26_anyname() {
    let name = || match nd::choice(3) {
        0 => nd::token(nd::range(1, 2)),
        1 => nearly(CERT),
        _ => nearly(EXPR),
    };
    let h = vec![(name(), nd::value(nd::range(0, 2))), (nd::token(1), nd::value(1))];
    let l = vec![nd::token(nd::range(1, 2)), nd::pick(&["iC-Certificate-", "IC-CertificateExpressioN", "c-Certificate"]).to_string()];
    let w = if nd::choice(2) == 0 { Which::Only(l) } else { Which::Except(l) };
    let r = Rs { status: 200, headers: h, body: vec![] };
    let want = chosen(&r.headers, &|n| w.keeps(n));
    nd::check(filter_response_headers(&r.real(), &w.real()).headers == want, "filter_response_headers keeps other headers");
    nd::check(response_hash(&r.real(), &w.real(), None) == spec_response(200, &want, sha(&[b""])), "the response hash is not the one of the specification");
}
/// many headers, names and a longer body
fn c26_many() {
    let n = nd::pick(&[3, 9, 20]);
    let mut h: Hs = (0..n).map(|i| (format!("X-Header-{}", i / 2), format!("value {i}"))).collect();
    let i = nd::choice(n);
    match nd::choice(3) {
        0 => h[i].0 = format!("x-heAder-{}", nd::token(1)),
        1 => h[i].1 = format!("value {}", nd::value(1)),
        _ => h[i].0 = nd::pick(&["ic-Certificate", "ic-certificateexpression"]).into(),
    }
    let l: Vec<String> = (0..nd::pick(&[0, 1, 5, 10])).map(|i| format!("x-header-{}", 2 * i)).collect();
    let w = if nd::choice(2) == 0 { Which::Only(l) } else { Which::Except(l) };
    let mut body = vec![7; nd::pick(&[0, 64, 1000])];
    if !body.is_empty() {
        let i = nd::choice(2) * (body.len() - 1);
        body[i] = nd::u8();
    }
    let r = Rs { status: status(), headers: h, body };
    let want = chosen(&r.headers, &|n| w.keeps(n));
    nd::check(response_hash(&r.real(), &w.real(), None) == spec_response(r.status, &want, sha(&[&r.body])), "the response hash is not the one of the specification");
}

/// very many headers, long names, values and bodies
fn c26_large() {
    let mut l: Vec<String> = (0..70).map(|i| format!("X-{i}")).collect();
    l.push("N".repeat(300));
    let mut h: Hs = l.iter().enumerate().map(|(i, n)| (n.clone(), "v".repeat(if i < 69 { i } else { 9000 }))).collect();
    let k = nd::pick(&[0, 67, 71]);
    let w = if nd::choice(2) == 0 { Which::Only(l[..k].to_vec()) } else { Which::Except(l[..k].to_vec()) };
    let mut body = vec![1; 3];
    if nd::choice(2) == 0 {
        let i = nd::pick(&[0, 66, 69, 70]);
        let (n, v) = &mut h[i];
        let s = if nd::choice(2) == 0 { n } else { v };
        let at = s.len() - (s.len() > 0) as usize;
        s.replace_range(at.., &nd::token(1));
    } else {
        h.truncate(1);
        body = vec![2; nd::pick(&[65537, 2000001])];
        let n = body.len();
        body[nd::pick(&[0, 65535, n - 1])] = nd::u8();
    }
    let r = Rs { status: status(), headers: h, body };
    let want = chosen(&r.headers, &|n| w.keeps(n));
    nd::check(response_hash(&r.real(), &w.real(), None) == spec_response(r.status, &want, sha(&[&r.body])), "the response hash is not the one of the specification");
}

// ---- C30
/// the tree path of a certification: expression, request and response hash
fn proves(c: &HttpCertification, want: &[Vec<u8>]) {
    let mut t = HttpCertificationTree::default();
    t.insert(&HttpCertificationTreeEntry::new(HttpCertificationPath::exact("/"), *c));
    let mut v = Leaf(vec![]);
    let p = [path(&[b"http_expr", b"", b"<$>"]), want.to_vec()].concat();
    for l in p.iter().rev() {
        v = lab(l, v);
    }
    nd::check(t.root_hash() == v.digest(), "a certification does not carry the hashes of its expression, request and response");
}
fn only(l: &'static [&'static str]) -> DefaultResponseOnlyCelExpression<'static> {
    DefaultCelBuilder::response_only_certification().with_response_certification(DefaultResponseCertification::certified_response_headers(l)).build()
}
fn full(l: &'static [&'static str]) -> DefaultFullCelExpression<'static> {
    DefaultCelBuilder::full_certification()
        .with_request_headers(l)
        .with_request_query_parameters(&["q"][..])
        .with_response_certification(DefaultResponseCertification::response_header_exclusions(l))
        .build()
}
/// a response that may carry the expression, and whether it does
fn carrying(expr: &str, n: usize) -> (Rs, bool) {
    let mut h: Hs = vec![];
    let (mut good, mut bad) = (0, 0);
    for _ in 0..nd::range(0, n) {
        let name = nd::pick(&[EXPR, "ic-certificateexpression", "iC-cERTIFICATEeXPRESSION", "IC-Certificate", "IC-CertificateExpressio", "a"]);
        let is = lower(name) == lower(EXPR);
        let v = match nd::choice(3) {
            0 => expr.to_string(),
            1 => nd::ascii(nd::range(0, 1)),
            _ => format!("{expr} "),
        };
        if is {
            if v == expr {
                good += 1
            } else {
                bad += 1
            }
        }
        h.push((name.to_string(), v));
    }
    (Rs { status: 200, headers: h, body: nd::bytes(1) }, good == 1 && bad == 0)
}
fn response_only(n: usize) {
    let d = only(&["A"]);
    let e = d.to_string();
    let (r, ok) = carrying(&e, n);
    let c = HttpCertification::response_only(&d, &r.real(), None);
    nd::cover(if ok { "created" } else { "refused" });
    nd::check(c.is_ok() == ok, "a certification is created for a response that does not carry the expression, or refused for one that does");
    if let Ok(c) = c {
        let w = Which::Only(vec!["A".into()]);
        let h = spec_response(200, &chosen(&r.headers, &|n| w.keeps(n)), sha(&[&r.body]));
        proves(&c, &[sha(&[e.as_bytes()]).to_vec(), vec![], h.to_vec()]);
    }
}
fn c30_header() {
    response_only(2)
}
fn c30_header_t() {
    response_only(3)
}
/// the text has to be exactly the expression's
fn c30_text() {
    let (a, e);
    let d = only(&["A", "b"]);
    let f = full(&["A"]);
    let whole = nd::choice(2) == 1;
    e = if whole { f.to_string() } else { d.to_string() };
    let mut b = e.clone().into_bytes();
    match nd::choice(4) {
        0 => {
            let i = nd::choice(b.len());
            b[i] = nd::u8();
            nd::assume(b[i] < 128);
        }
        1 => {
            b.truncate(nd::choice(b.len()));
        }
        2 => {
            let x = nd::u8();
            nd::assume(x < 128);
            b.insert(if nd::choice(2) == 0 { 0 } else { b.len() }, x);
        }
        _ => b = if whole { d.to_string() } else { f.to_string() }.into_bytes(),
    }
    a = String::from_utf8(b).unwrap();
    let ok = a == e;
    let r = Rs { status: 404, headers: vec![("b".into(), "x".into()), (EXPR.into(), a)], body: vec![] };
    let q = Rq { method: "GET", query: None, headers: vec![], body: vec![] };
    let c = if whole { HttpCertification::full(&f, &q.real(), &r.real(), None) } else { HttpCertification::response_only(&d, &r.real(), None) };
    nd::cover(if ok { "created" } else { "refused" });
    nd::check(c.is_ok() == ok, "a certification is created for a response with another expression, or refused for the right one");
}
/// header names that look like the expression's
fn c30_name() {
    let d = only(&["A"]);
    let e = d.to_string();
    let n = nearly(EXPR);
    let ok = lower(&n) == lower(EXPR);
    let mut h = vec![(n, e.clone()), (nd::token(1), nd::value(1))];
    if nd::choice(2) == 1 {
        h.swap(0, 1);
    }
    let r = Rs { status: 200, headers: h, body: vec![] };
    let c = HttpCertification::response_only(&d, &r.real(), None);
    nd::cover(if ok { "created" } else { "refused" });
    nd::check(c.is_ok() == ok, "a certification is created for a response that does not carry the expression, or refused for one that does");
}
/// every kind of expression against every other one
fn c30_other() {
    use DefaultResponseCertification as D;
    const L: [&[&str]; 4] = [&[], &["a"], &["A"], &["a", "a"]];
    let resp = |l: &'static [&'static str]| match nd::choice(2) {
        0 => D::certified_response_headers(l),
        _ => D::response_header_exclusions(l),
    };
    let text = match nd::choice(3) {
        0 => DefaultCelBuilder::skip_certification().to_string(),
        1 => DefaultCelBuilder::response_only_certification().with_response_certification(resp(nd::pick(&L))).build().to_string(),
        _ => DefaultCelBuilder::full_certification().with_request_headers(nd::pick(&L)).with_request_query_parameters(nd::pick(&L)).with_response_certification(resp(nd::pick(&L))).build().to_string(),
    };
    let r = Rs { status: 200, headers: vec![(EXPR.into(), text.clone())], body: vec![] };
    let (made, want) = if nd::choice(2) == 0 {
        let d = DefaultCelBuilder::response_only_certification().with_response_certification(resp(nd::pick(&L))).build();
        (HttpCertification::response_only(&d, &r.real(), None), d.to_string())
    } else {
        let d = DefaultCelBuilder::full_certification().with_request_headers(nd::pick(&L)).with_request_query_parameters(nd::pick(&L)).with_response_certification(resp(nd::pick(&L))).build();
        let q = Rq { method: "GET", query: None, headers: vec![], body: vec![] };
        (HttpCertification::full(&d, &q.real(), &r.real(), None), d.to_string())
    };
    nd::cover(if made.is_ok() { "created" } else { "refused" });
    nd::check(made.is_ok() == (text == want), "a certification is created for a response with another expression, or refused for the right one");
}
fn c30_full() {
    let d = full(&["A"]);
    let e = d.to_string();
    let mut r = Rs { status: status(), headers: vec![(EXPR.into(), e.clone()), (nd::chars(1, b"aB"), nd::chars(1, b"xy"))], body: nd::bytes(1) };
    if nd::choice(2) == 1 {
        r.headers.swap(0, 1);
    }
    let q = Rq { method: nd::pick(&["GET", "POST"]), query: if nd::choice(2) == 0 { None } else { Some(nd::chars(1, b"qQ=&")) }, headers: headers(1, b"Ab"), body: nd::bytes(1) };
    let own = if nd::choice(2) == 0 { None } else { Some(nd::array()) };
    let w = Which::Except(vec!["A".into()]);
    match HttpCertification::full(&d, &q.real(), &r.real(), own) {
        Ok(c) => {
            let h = spec_response(r.status, &chosen(&r.headers, &|n| w.keeps(n)), own.unwrap_or(sha(&[&r.body])));
            let rq = spec_request(q.method, q.query.as_deref(), &q.headers, &q.body, &["A".to_string()], &["q".to_string()]);
            proves(&c, &[sha(&[e.as_bytes()]).to_vec(), rq.to_vec(), h.to_vec()]);
        }
        Err(_) => nd::check(false, "a certification is refused for a response that carries the expression"),
    }
    let s = DefaultCelBuilder::skip_certification().to_string();
    proves(&HttpCertification::skip(), &[sha(&[s.as_bytes()]).to_vec()]);
}

// ---- C28, C29
pub fn some_certifications() -> [(HttpCertification, Vec<Vec<u8>>); 3] {
    let d = only(&["A"]);
    let e = d.to_string();
    let r = Rs { status: 200, headers: vec![(EXPR.into(), e.clone())], body: b"x".to_vec() };
    let mk = |r: &Rs| HttpCertification::response_only(&d, &r.real(), None).unwrap();
    let p = |r: &Rs| {
        let w = Which::Only(vec!["A".into()]);
        vec![sha(&[e.as_bytes()]).to_vec(), vec![], spec_response(200, &chosen(&r.headers, &|n| w.keeps(n)), sha(&[&r.body])).to_vec()]
    };
    let r2 = Rs { body: b"y".to_vec(), headers: r.headers.clone(), ..r };
    let s = DefaultCelBuilder::skip_certification().to_string();
    [(mk(&r), p(&r)), (HttpCertification::skip(), vec![sha(&[s.as_bytes()]).to_vec()]), (mk(&r2), p(&r2))]
}
/// segments of a path, and whether it ends in a slash
#[derive(Clone)]
pub struct P {
    pub seg: Vec<String>,
    pub dir: bool,
}
impl P {
    pub fn any(n: usize, seg: &dyn Fn() -> String) -> P {
        let k = nd::range(0, n);
        P { seg: (0..k).map(|_| seg()).collect(), dir: k == 0 || nd::choice(2) == 1 }
    }
    pub fn url(&self) -> String {
        format!("/{}{}", self.seg.join("/"), if self.dir && !self.seg.is_empty() { "/" } else { "" })
    }
    pub fn tree(&self) -> Vec<Vec<u8>> {
        let mut v: Vec<Vec<u8>> = self.seg.iter().map(|x| x.as_bytes().to_vec()).collect();
        if self.dir {
            v.push(vec![]);
        }
        v
    }
    /// as a wildcard it covers the URLs that begin with its segments; with a slash, those beyond it
    pub fn covers(&self, u: &P) -> bool {
        let (p, u) = (self.tree(), u.tree());
        p.len() <= u.len() && (u[..p.len()] == p[..] || self.dir && u[..p.len() - 1] == p[..p.len() - 1])
    }
}
pub fn with(p: &[Vec<u8>], last: &[u8]) -> Vec<Vec<u8>> {
    [&[b"http_expr".to_vec()], p, &[last.to_vec()]].concat()
}
/// the wildcards that cover a URL, the most specific one first
pub fn wildcards(u: &P) -> Vec<Vec<Vec<u8>>> {
    let mut out = vec![u.tree()];
    let s: Vec<Vec<u8>> = u.seg.iter().map(|x| x.as_bytes().to_vec()).collect();
    for k in (0..=s.len()).rev() {
        let mut w = s[..k].to_vec();
        if k < s.len() {
            w.push(vec![]);
            out.push(w.clone());
            w.pop();
        }
        out.push(w);
    }
    // a URL with a slash begins with [.., ""], then [..]; the list above has the URL itself twice otherwise
    if !u.dir {
        out.remove(0);
    }
    if u.seg.is_empty() {
        out = vec![vec![vec![]], vec![]];
    }
    out
}
struct E {
    p: P,
    wild: bool,
    cert: usize,
}
impl E {
    fn real(&self, certs: &[(HttpCertification, Vec<Vec<u8>>); 3]) -> HttpCertificationTreeEntry<'static> {
        HttpCertificationTreeEntry::new(self.path(), certs[self.cert].0)
    }
    fn path(&self) -> HttpCertificationPath<'static> {
        if self.wild {
            HttpCertificationPath::wildcard(self.p.url())
        } else {
            HttpCertificationPath::exact(self.p.url())
        }
    }
    fn expr(&self) -> Vec<Vec<u8>> {
        with(&self.p.tree(), if self.wild { b"<*>" } else { b"<$>" })
    }
    fn full(&self, certs: &[(HttpCertification, Vec<Vec<u8>>); 3]) -> Vec<Vec<u8>> {
        [self.expr(), certs[self.cert].1.clone()].concat()
    }
}
/// the witness of entry e for a URL, in a tree that certifies the paths `all`
fn witnessed(t: &HttpCertificationTree, certs: &[(HttpCertification, Vec<Vec<u8>>); 3], all: &[Vec<Vec<u8>>], e: &E, u: &P) {
    let w = match t.witness(&e.real(certs), &u.url()) {
        Ok(w) => w,
        Err(_) => return nd::check(false, "no witness for a certified path that covers the URL"),
    };
    nd::check(w.digest() == t.root_hash(), "the witness has another root hash than the tree");
    let v = view(w.as_ref());
    let me = e.full(certs);
    let inside = all.contains(&me);
    match v.walk(&me) {
        R::Found(Leaf(x)) => {
            nd::check(inside, "a witness proves an entry that is not in the tree");
            nd::check(x.is_empty(), "the certified entry has a value");
        }
        R::Found(_) => nd::check(false, "a witness shows something else at the place of the entry"),
        _ => nd::check(!inside, "a witness does not prove its entry"),
    }
    nd::cover(if inside { "in the tree" } else { "not in the tree" });
    let expr: Vec<Vec<u8>> = e.path().to_expr_path().into_iter().map(String::into_bytes).collect();
    nd::check(expr == e.expr(), "to_expr_path gives another path than the certified one");
    if !e.wild {
        return;
    }
    let mut before = vec![with(&u.tree(), b"<$>")];
    for q in wildcards(u) {
        if q == e.p.tree() {
            break;
        }
        before.push(with(&q, b"<*>"));
    }
    for q in before {
        let there = all.iter().any(|p| p.starts_with(&q));
        match v.walk(&q) {
            R::Absent => nd::check(!there, "a witness denies a certified path"),
            _ => nd::check(there, "a witness does not prove that no more specific path is certified"),
        }
        if there {
            nd::cover("a more specific path is certified");
        }
    }
}
pub fn ab() -> String {
    nd::chars(1, b"ab")
}
fn any_entry(n: usize, certs: usize, seg: &dyn Fn() -> String) -> E {
    E { p: P::any(n, seg), wild: nd::choice(2) == 1, cert: nd::choice(certs) }
}
/// k entries in a tree; the witness for the first, or for one that is not there
fn c28(k: usize, n: usize, url: usize, seg: &dyn Fn() -> String) {
    let certs = some_certifications();
    let e = any_entry(n, 2, seg);
    let u = if e.wild { P::any(url, seg) } else { e.p.clone() };
    nd::assume(!e.wild || e.p.covers(&u));
    let mut t = HttpCertificationTree::default();
    let mut all = vec![];
    let at = nd::choice(k + 1);
    for i in 0..k {
        let o = any_entry(n, 1, seg);
        if i == at {
            t.insert(&e.real(&certs));
            all.push(e.full(&certs));
        }
        t.insert(&o.real(&certs));
        all.push(o.full(&certs));
    }
    witnessed(&t, &certs, &all, &e, &u);
}
fn c28_one() {
    c28(1, 2, 3, &ab)
}
fn c28_two() {
    c28(2, 1, 2, &ab)
}
fn c28_two_t() {
    c28(2, 2, 3, &ab)
}
fn c28_three_t() {
    c28(3, 1, 2, &ab)
}
/// segments that look like the markers used in the tree
fn c28_names() {
    c28(1, 1, 2, &|| nd::pick(&["http_expr", "<*>", "<$>", "a"]).to_string())
}
/// segments of any characters
fn any_seg() -> String {
    match nd::choice(3) {
        0 => nd::segment(1),
        1 => nd::segment(2),
        _ => format!("<{}>", nd::pick(&["*", "$"])),
    }
}
fn c28_any() {
    c28(1, 1, 2, &any_seg)
}
/// deep paths, with entries at some of the places around them
fn c28_deep() {
    deep(3, 4)
}
fn c28_deep_t() {
    deep(3, 6)
}
fn deep(from: usize, to: usize) {
    let certs = some_certifications();
    let p = |n: usize, dir| P { seg: ["a", "b", "c", "d", "e", "f"][..n].iter().map(|x| x.to_string()).collect(), dir };
    let n = nd::range(from, to);
    let mut u = p(n, nd::choice(2) == 1);
    if nd::choice(2) == 1 {
        let i = nd::choice(n);
        u.seg[i] = nd::segment(1);
    }
    let k = nd::range(0, n);
    let e = E { p: p(k, k == 0 || nd::choice(2) == 1), wild: true, cert: 0 };
    nd::assume(e.p.covers(&u));
    let k = nd::range(0, n);
    let mut o = E { p: p(k, k == 0 || nd::choice(2) == 1), wild: nd::choice(2) == 1, cert: nd::choice(2) };
    if nd::choice(2) == 1 && k > 0 {
        o.p.seg[k - 1] = nd::segment(1);
    }
    let o2 = E { p: p(2, true), wild: true, cert: 1 };
    let mut t = HttpCertificationTree::default();
    let mut all = vec![];
    for x in [&e, &o, &o2] {
        t.insert(&x.real(&certs));
        all.push(x.full(&certs));
    }
    witnessed(&t, &certs, &all, &e, &u);
}
/// paths of many and of long segments
fn c28_far() {
    let certs = some_certifications();
    let n = nd::pick(&[9, 24]);
    let p = |k: usize, dir| P { seg: (0..k).map(|i| if i % 8 == 7 { "s".repeat(300) } else { format!("s{i}") }).collect(), dir };
    let mut u = p(n, nd::choice(2) == 1);
    match nd::choice(3) {
        0 => {}
        1 => u.seg[7].replace_range(299.., &nd::segment(1)),
        _ => u.seg[n - 1] = nd::segment(1),
    }
    let at = |k: usize| p(nd::pick(&[0, k, n - 1, n]), true);
    let e = E { p: at(7), wild: true, cert: 0 };
    nd::assume(e.p.covers(&u));
    let o = E { p: at(8), wild: nd::choice(2) == 1, cert: nd::choice(2) };
    let o2 = E { p: p(2, true), wild: true, cert: 1 };
    let mut t = HttpCertificationTree::default();
    let mut all = vec![];
    for x in [&e, &o, &o2] {
        t.insert(&x.real(&certs));
        all.push(x.full(&certs));
    }
    witnessed(&t, &certs, &all, &e, &u);
}
/// insertions, deletions and clearing against a set
fn history(ops: usize, pool: &[E], clear: bool) {
    let certs = some_certifications();
    let mut t = HttpCertificationTree::default();
    let none = t.root_hash();
    let mut all: Vec<Vec<Vec<u8>>> = vec![];
    for _ in 0..ops {
        let i = nd::choice(2 * pool.len() + clear as usize);
        if i == 2 * pool.len() {
            t.clear();
            all.clear();
            nd::check(t.root_hash() == none, "a cleared tree does not have the root hash of a new one");
            continue;
        }
        let e = &pool[i / 2];
        let p = e.full(&certs);
        if i % 2 == 0 {
            let before = t.root_hash();
            t.insert(&e.real(&certs));
            if all.contains(&p) {
                nd::check(t.root_hash() == before, "inserting a certification twice is not the same as once");
            } else {
                all.push(p);
            }
        } else {
            t.delete(&e.real(&certs));
            all.retain(|x| *x != p);
        }
        if all.is_empty() {
            nd::check(t.root_hash() == none, "an empty tree does not have the root hash of a new one");
            nd::cover("empty");
        }
    }
    for e in pool {
        let w = match t.witness(&e.real(&certs), &e.p.url()) {
            Ok(w) => w,
            Err(_) => return nd::check(false, "no witness for the URL of an entry"),
        };
        nd::check(w.digest() == t.root_hash(), "the witness has another root hash than the tree");
        let p = e.full(&certs);
        let v = view(w.as_ref());
        if all.contains(&p) {
            nd::check(matches!(v.walk(&p), R::Found(Leaf(_))), "a certification is gone that was not deleted");
        } else {
            nd::check(matches!(v.walk(&p), R::Absent), "a certification is there that was deleted or never inserted");
        }
    }
}
fn e(p: &[&str], dir: bool, wild: bool, cert: usize) -> E {
    E { p: P { seg: p.iter().map(|x| x.to_string()).collect(), dir }, wild, cert }
}
/// entries that share paths
fn shared() -> Vec<E> {
    vec![e(&["a"], false, false, 0), e(&["a"], false, false, 2), e(&["a"], false, true, 1), e(&["a", "b"], false, false, 0)]
}
fn c29_history() {
    history(4, &shared(), true)
}
fn c29_history_t() {
    history(5, &shared(), true)
}
/// paths of any characters
fn c29_any() {
    let a = E { p: P::any(2, &any_seg), wild: nd::choice(2) == 1, cert: 0 };
    history(3, &[a, any_entry(1, 1, &ab)], false)
}
/// many entries, some of which go again
fn c29_many() {
    let n = nd::pick(&[5, 12]);
    let certs = some_certifications();
    let mut pool: Vec<E> = (0..n).map(|i| e(&[["a", "b", "c"][i % 3], ["a", "b", "d", "e"][i % 4]][..1 + i % 2], i % 5 == 0, i % 3 == 0, i % 2)).collect();
    pool.push(any_entry(2, 1, &ab));
    let mut t = HttpCertificationTree::default();
    let mut all: Vec<Vec<Vec<u8>>> = vec![];
    for e in &pool {
        t.insert(&e.real(&certs));
        let p = e.full(&certs);
        if !all.contains(&p) {
            all.push(p);
        }
    }
    for _ in 0..2 {
        let e = &pool[nd::choice(n + 1)];
        t.delete(&e.real(&certs));
        let p = e.full(&certs);
        all.retain(|x| *x != p);
    }
    for e in &pool {
        let w = match t.witness(&e.real(&certs), &e.p.url()) {
            Ok(w) => w,
            Err(_) => return nd::check(false, "no witness for the URL of an entry"),
        };
        nd::check(w.digest() == t.root_hash(), "the witness has another root hash than the tree");
        let p = e.full(&certs);
        let v = view(w.as_ref());
        let there = matches!(v.walk(&p), R::Found(Leaf(_)));
        nd::check(there == all.contains(&p), "a certification is gone that was not deleted, or there that was");
    }
    for e in &pool {
        t.delete(&e.real(&certs));
    }
    nd::check(t.root_hash() == HttpCertificationTree::default().root_hash(), "an empty tree does not have the root hash of a new one");
}
/// arbitrary paths
fn c29_paths() {
    let a = e(&[], true, true, 0);
    history(4, &[any_entry(2, 1, &ab), any_entry(1, 1, &ab), a], false)
}
fn c29_paths_t() {
    history(4, &[any_entry(2, 2, &ab), any_entry(2, 1, &ab), any_entry(1, 1, &ab)], false)
}
