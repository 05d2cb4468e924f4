//! ic-response-verification: which responses are accepted, and what of them is shown
use crate::cbor::{enc_arr, enc_cert, enc_text, enc_tree};
use crate::cv::{der, key, leb, state_root};
use crate::http::*;
use crate::rih::same;
use crate::spec::*;
use ic_response_verification::types::VerificationInfo;
use ic_response_verification::verify_request_response_pair;
use miracl_core_bls12381::bls12381::bls;

harnesses! {
    c16_version c16_any c16_missing
    c17_data c17_place c17_many
    c18_response c18_request c18_headers c18_kind c18_place c18_anyname c18_anyquery c18_many c18_response_t c18_large c18_large_request c18_long c18_request_t
    c19_paths c19_pruned c19_url c19_names c19_any c19_percent c19_deep c19_deep_t c19_far c19_paths_t
    c20_headers c20_kinds c20_anyname c20_headers_t c20_many
    c21_body c21_place c21_encoding c21_gzip c21_packed c21_url c21_long c21_place_t c21_large c21_many
    c22_text c22_base64 c22_twice c22_field c22_text_t c22_large
    c23_parts c23_parts_t c23_text c23_skip c23_only c23_except c23_full_t c23_spaced_t c23_nesting c23_text_t c23_many
    c24_only c24_request c24_long c24_names_t c24_large
    c35_response c35_request c35_path c35_anyname c35_anypath c35_deep c35_both_t c35_large c35_far c35_skip
}
type Hs = Vec<(String, String)>;
type Path = Vec<Vec<u8>>;
const NOW: u128 = 5;

pub fn b64(b: &[u8]) -> String {
    // without forks
    let c = |x: u8| -> u8 {
        let mut r = x.wrapping_add(b'A');
        r = r.wrapping_add((x > 25) as u8 * 6);
        r = r.wrapping_sub((x > 51) as u8 * 75);
        r = r.wrapping_sub((x > 61) as u8 * 15);
        r.wrapping_add((x > 62) as u8 * 3)
    };
    let mut o = vec![];
    for g in b.chunks(3) {
        let (x, y, z) = (g[0], *g.get(1).unwrap_or(&0), *g.get(2).unwrap_or(&0));
        o.push(c(x >> 2));
        o.push(c((x & 3) << 4 | y >> 4));
        o.push(if g.len() > 1 { c((y & 15) << 2 | z >> 6) } else { b'=' });
        o.push(if g.len() > 2 { c(z & 63) } else { b'=' });
    }
    String::from_utf8(o).unwrap()
}
pub fn tagged(t: &T) -> Vec<u8> {
    let mut o = vec![0xd9, 0xd9, 0xf7];
    enc_tree(t, &mut o);
    o
}
pub fn texts(p: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![0xd9, 0xd9, 0xf7];
    enc_arr(p.len(), &mut o);
    for x in p {
        enc_text(std::str::from_utf8(x).unwrap(), &mut o);
    }
    o
}
/// the state tree of a certificate in which a canister has certified data
pub fn state(id: &[u8], data: &[u8]) -> T {
    fork(lab(b"canister", lab(id, lab(b"certified_data", Leaf(data.to_vec())))), lab(b"time", Leaf(leb(NOW as u64))))
}
/// a certificate, signed
pub fn signed(t: &T) -> Vec<u8> {
    let sig = [0x51; 3];
    bls::declare_signed(&sig, &state_root(t), &key(1, 2));
    enc_cert(t, &sig, None)
}
pub fn cert_header(cert: &[u8], tree: &T, version: Option<&str>, expr_path: Option<&[Vec<u8>]>) -> String {
    let mut h = format!("certificate=:{}:, tree=:{}:", b64(cert), b64(&tagged(tree)));
    if let Some(v) = version {
        h += &format!(", version={v}");
    }
    if let Some(p) = expr_path {
        h += &format!(", expr_path=:{}:", b64(&texts(p)));
    }
    h
}
pub fn call(rq: &Rq, url: &str, rs: &Rs, id: &[u8], min: u8) -> Option<VerificationInfo> {
    match verify_request_response_pair(rq.at(url), rs.real(), id, NOW, 0, &der(&key(1, 2)), min) {
        Ok(i) => {
            nd::cover("accepted");
            Some(i)
        }
        Err(_) => {
            nd::cover("rejected");
            None
        }
    }
}
/// presents a version 2 response: all of the certificate is in order, everything else is as given
pub fn show(t: &T, ep: &[Vec<u8>], rq: &Rq, url: &str, rs: &Rs) -> Option<VerificationInfo> {
    let c = signed(&state(&[1], &t.digest()));
    let mut rs = rs.clone();
    rs.headers.push((CERT.into(), cert_header(&c, t, Some("2"), Some(ep))));
    call(rq, url, &rs, &[1], 2)
}
/// a certification expression
#[derive(Clone)]
pub enum Ex {
    Skip,
    Only(Which),
    Full(Vec<String>, Vec<String>, Which),
}
fn quoted(l: &[String]) -> String {
    l.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(",")
}
impl Ex {
    pub fn text(&self) -> String {
        let w = |w: &Which| match w {
            Which::Only(l) => format!("response_certification:ResponseCertification{{certified_response_headers:ResponseHeaderList{{headers:[{}]}}}}", quoted(l)),
            Which::Except(l) => format!("response_certification:ResponseCertification{{response_header_exclusions:ResponseHeaderList{{headers:[{}]}}}}", quoted(l)),
        };
        let i = match self {
            Ex::Skip => "no_certification:Empty{}".to_string(),
            Ex::Only(r) => format!("certification:Certification{{no_request_certification:Empty{{}},{}}}", w(r)),
            Ex::Full(h, p, r) => format!(
                "certification:Certification{{request_certification:RequestCertification{{certified_request_headers:[{}],certified_query_parameters:[{}]}},{}}}",
                quoted(h),
                quoted(p),
                w(r)
            ),
        };
        format!("default_certification(ValidationArgs{{{i}}})")
    }
    /// the path below the expression path under which this expression certifies this response to this request
    pub fn below(&self, text: &str, rq: &Rq, rs: &Rs) -> Path {
        let eh = sha(&[text.as_bytes()]).to_vec();
        let r = |w: &Which| spec_response(rs.status, &chosen(&rs.headers, &|n| w.keeps(n)), sha(&[&rs.body])).to_vec();
        match self {
            Ex::Skip => vec![eh],
            Ex::Only(w) => vec![eh, vec![], r(w)],
            Ex::Full(n, p, w) => vec![eh, spec_request(rq.method, rq.query.as_deref(), &rq.headers, &rq.body, n, p).to_vec(), r(w)],
        }
    }
}
fn absent(t: &T, p: &[Vec<u8>]) -> bool {
    matches!(t.walk(p), R::Absent)
}
/// may this expression path vouch for this URL
pub fn path_ok(t: &T, ep: &[Vec<u8>], u: &P) -> bool {
    let Some(last) = ep.last() else { return false };
    if ep[0] != b"http_expr" || !matches!(t.walk(ep), R::Found(_)) {
        return false;
    }
    let exact = with(&u.tree(), b"<$>");
    if last == b"<$>" {
        return ep == &exact[..];
    }
    if last != b"<*>" || ep.len() < 2 {
        return false;
    }
    let p = &ep[1..ep.len() - 1];
    let w = wildcards(u);
    let Some(i) = w.iter().position(|q| q == p) else { return false };
    absent(t, &exact) && w[..i].iter().all(|q| absent(t, &with(q, b"<*>")))
}
/// is this response certified: the whole of the version 2 rules
pub fn right(t: &T, ep: &[Vec<u8>], u: &P, rq: &Rq, rs: &Rs, ex: &Ex, text: &str) -> bool {
    if !path_ok(t, ep, u) {
        return false;
    }
    let p = [ep, &ex.below(text, rq, rs)[..]].concat();
    match (ex, t.walk(&p)) {
        (Ex::Skip, R::Found(_)) => true,
        (_, R::Found(Leaf(v))) => v.is_empty(),
        _ => false,
    }
}
/// the tree of a set of paths
pub fn build(paths: &[Path]) -> T {
    let mut heads: Vec<Vec<u8>> = vec![];
    for p in paths {
        if p.is_empty() {
            return Leaf(vec![]);
        }
        if !heads.contains(&p[0]) {
            heads.push(p[0].clone());
        }
    }
    heads.sort();
    let mut l: Vec<T> = heads
        .into_iter()
        .map(|h| {
            let sub: Vec<Path> = paths.iter().filter(|p| p[0] == h).map(|p| p[1..].to_vec()).collect();
            lab(&h, build(&sub))
        })
        .collect();
    let Some(mut t) = l.pop() else { return Empty };
    while let Some(x) = l.pop() {
        t = fork(x, t);
    }
    t
}
fn size(t: &T) -> usize {
    1 + match t {
        Fork(a, b) => size(a) + size(b),
        Labeled(_, t) => size(t),
        _ => 0,
    }
}
/// with the i-th node replaced by its digest
fn prune(t: &T, i: usize) -> T {
    if i == 0 {
        return Pruned(t.digest());
    }
    match t {
        Fork(a, b) if i <= size(a) => fork(prune(a, i - 1), (**b).clone()),
        Fork(a, b) => fork((**a).clone(), prune(b, i - 1 - size(a))),
        Labeled(l, s) => lab(l, prune(s, i - 1)),
        t => t.clone(),
    }
}
fn at_p() -> P {
    P { seg: vec!["p".into()], dir: false }
}
pub fn exact_p() -> Path {
    path(&[b"http_expr", b"p", b"<$>"])
}
pub fn get() -> Rq {
    Rq { method: "GET", query: None, headers: vec![], body: vec![] }
}
/// what is shown of an accepted response
fn shown(i: &VerificationInfo, rs: &Rs, ex: &Ex) {
    nd::check(i.verification_version == 2, "a version 2 response is reported as another version");
    let w = match ex {
        Ex::Skip => return nd::check(i.response.is_none(), "a response is shown as certified although certification is skipped"),
        Ex::Only(w) | Ex::Full(_, _, w) => w,
    };
    let Some(r) = &i.response else { return nd::check(false, "a certified response is not shown") };
    nd::check(r.status_code == Some(rs.status), "another status code is shown");
    nd::check(r.body == rs.body, "another body is shown");
    let (mut a, mut c) = (vec![], 0);
    for (n, v) in &r.headers {
        if lower(n) == lower(CERT) {
            c += 1
        } else {
            a.push((lower(n), v.clone()));
        }
    }
    let b = chosen(&rs.headers, &|n| w.keeps(n));
    nd::check(c <= 1, "the certificate is shown more than once");
    nd::check(same(&a, &b), "other headers are shown than those certified");
}

// ---- C16
fn body_tree(path: &str, body: &[u8]) -> T {
    lab(b"http_assets", lab(path.as_bytes(), Leaf(sha(&[body]).to_vec())))
}
/// a tree that certifies a response in both versions
pub fn both(ex: &Ex, rs: &Rs) -> T {
    fork(body_tree("/p", &rs.body), build(&[[exact_p(), ex.below(&ex.text(), &get(), rs)].concat()]))
}
fn c16_version() {
    let text = match nd::choice(3) {
        0 => None,
        1 => Some(nd::ascii(1)),
        _ => Some(nd::chars(nd::range(2, 3), b"0125+")),
    };
    version(text)
}
/// any text for a version, also around the right ones
fn c16_any() {
    let text = match nd::choice(3) {
        0 => nd::ascii(nd::range(2, 3)),
        1 => format!("{}{}{}", nd::ascii(nd::range(0, 1)), nd::pick(&["1", "2"]), nd::ascii(nd::range(0, 2))),
        _ => format!("{}{}{}", nd::pick(&["1", "2"]), nd::chars(1, b".,-+xe;/ "), nd::chars(nd::range(1, 9), b"0")),
    };
    version(Some(text))
}
fn version(text: Option<String>) {
    let ex = Ex::Only(Which::Only(vec![]));
    let rs = Rs { status: 200, headers: vec![(EXPR.into(), ex.text())], body: b"x".to_vec() };
    let t = both(&ex, &rs);
    if let Some(v) = &text {
        let mut plain = true;
        for b in v.as_bytes() {
            plain &= (*b != b',') & (*b != b':') & (*b != b' ') & (*b != b'\t');
        }
        nd::assume(plain);
    }
    let min = nd::u8();
    let c = signed(&state(&[1], &t.digest()));
    let mut r = rs.clone();
    r.headers.push((CERT.into(), cert_header(&c, &t, text.as_deref(), Some(&exact_p()))));
    let info = call(&get(), "/p", &r, &[1], min);
    let v = match text.as_deref() {
        None | Some("1") => 1,
        Some("2") => 2,
        Some(x) => {
            // another way to write a number, or none at all
            if let (Some(i), Ok(n)) = (&info, x.parse::<u16>()) {
                nd::check((n == 1) | (n == 2) && n == i.verification_version && n as u8 >= min, "an unknown version, or one below the minimum, is accepted");
            } else {
                nd::check(info.is_none(), "a version that is not a number is accepted");
            }
            return;
        }
    };
    nd::check(info.is_some() == (v >= min), "a version below the minimum is accepted, or a sufficient one rejected");
    if let Some(i) = info {
        nd::check(i.verification_version == v as u16, "another version is reported");
        if v == 2 {
            shown(&i, &rs, &ex);
        }
    }
}
/// headers and fields that have to be there
fn c16_missing() {
    let ex = if nd::choice(2) == 0 { Ex::Skip } else { Ex::Only(Which::Except(vec![])) };
    let mut rs = Rs { status: 200, headers: vec![], body: b"x".to_vec() };
    let expr = nd::choice(2) == 1;
    if expr {
        rs.headers.push((EXPR.into(), ex.text()));
    }
    let t = both(&ex, &rs);
    let v = nd::pick(&[None, Some("1"), Some("2")]);
    let c = signed(&state(&[1], &t.digest()));
    let (has_path, has_cert, has_tree, has) = (nd::choice(2) == 1, nd::choice(2) == 1, nd::choice(2) == 1, nd::choice(2) == 1);
    let full = cert_header(&c, &t, v, has_path.then(exact_p).as_deref());
    let f: Vec<&str> = full.split(", ").filter(|x| (has_cert || !x.starts_with("certificate")) && (has_tree || !x.starts_with("tree"))).collect();
    let mut r = rs.clone();
    if has {
        r.headers.push((nd::pick(&[CERT, "ic-certificate"]).into(), f.join(", ")));
    }
    let min = nd::u8();
    let info = call(&get(), "/p", &r, &[1], min);
    let n: u8 = if v == Some("2") { 2 } else { 1 };
    nd::check(info.is_some() == (has && has_cert && has_tree && n >= min && (n == 1 || expr && has_path)), "a response without certificate, tree, path or expression is accepted, or a complete one rejected");
}

// ---- C17
fn data_at(s: &T, id: &[u8]) -> Option<Vec<u8>> {
    match s.lookup(&path(&[b"canister", id, b"certified_data"])) {
        ic_certification::LookupResult::Found(v) => Some(v.to_vec()),
        _ => None,
    }
}
/// presents a response that is certified in the tree, under a certificate with this state tree
fn under(s: &T, t: &T, id: &[u8], rs: &Rs, v: u8) {
    let c = signed(s);
    let mut r = rs.clone();
    r.headers.push((CERT.into(), cert_header(&c, t, Some(if v == 1 { "1" } else { "2" }), Some(&exact_p()))));
    let ok = call(&get(), "/p", &r, id, 1).is_some();
    let d = data_at(s, id);
    nd::check(ok == (d.as_deref() == Some(&t.digest()[..])), "a response is accepted though the certificate does not cover its tree, or rejected though it does");
}
fn any_kind() -> Ex {
    match nd::choice(3) {
        0 => Ex::Skip,
        1 => Ex::Only(Which::Only(vec![])),
        _ => Ex::Full(vec![], vec![], Which::Except(vec![])),
    }
}
fn c17_data() {
    let ex = any_kind();
    let rs = Rs { status: 200, headers: vec![(EXPR.into(), ex.text())], body: nd::bytes(nd::range(0, 1)) };
    let t = both(&ex, &rs);
    let mut d = t.digest().to_vec();
    match nd::choice(6) {
        0 => {}
        1 => d[nd::pick(&[0, 15, 31])] ^= nd::u8(),
        2 => d.truncate(nd::pick(&[0, 1, 31])),
        3 => d.push(nd::u8()),
        4 => {
            d[0] ^= nd::u8();
            d[31] ^= nd::u8();
        }
        _ => d = Pruned(t.digest()).real().digest().to_vec(),
    }
    let s = state(&[1], &d);
    under(&s, &t, &[1], &rs, 1 + nd::choice(2) as u8);
}
/// certified data elsewhere in the state tree
fn c17_place() {
    let ex = any_kind();
    let rs = Rs { status: 200, headers: vec![(EXPR.into(), ex.text())], body: vec![] };
    let t = both(&ex, &rs);
    let id = nd::bytes(nd::range(1, 2));
    let other = nd::bytes(nd::range(0, 2));
    let time = lab(b"time", Leaf(leb(NOW as u64)));
    let (d, wrong) = (Leaf(t.digest().to_vec()), Leaf(vec![3; 32]));
    let names = |a: T| match nd::choice(4) {
        0 => lab(b"certified_data", a),
        1 => lab(b"certified_datb", a),
        2 => fork(lab(b"certified_data", Pruned(a.digest())), lab(b"module_hash", a)),
        _ => a,
    };
    let s = match nd::choice(5) {
        0 => lab(b"canister", lab(&other, names(d))),
        1 => lab(b"canister", fork(lab(&id, lab(b"certified_data", wrong)), lab(&other, names(d)))),
        2 => lab(b"canister", fork(lab(&other, names(d)), lab(&id, lab(b"certified_data", wrong)))),
        3 => lab(b"canistes", lab(&id, names(d))),
        _ => lab(&id, names(d)),
    };
    under(&fork(s, time), &t, &id, &rs, 1 + nd::choice(2) as u8);
}

/// a state tree of many canisters
fn c17_many() {
    let rs = Rs { status: 200, headers: vec![(EXPR.into(), Ex::Skip.text())], body: vec![] };
    let t = both(&Ex::Skip, &rs);
    let n = nd::pick(&[5, 60]);
    let j = nd::pick(&[0, 1, n / 2, n - 1]);
    // long ids and short ones
    let ids: Vec<Vec<u8>> = (0..n).map(|i| vec![2 * i as u8 + 1; if i % 3 == 0 { 10 } else { 1 + i % 29 }]).collect();
    let mut id = ids[j].clone();
    match nd::choice(3) {
        0 => {}
        1 => {
            let k = nd::choice(2) * (id.len() - 1);
            id[k] = nd::u8()
        }
        _ => id = ids[nd::choice(n)].clone(),
    }
    let data = |i: usize| if i == j { t.digest().to_vec() } else { vec![i as u8; 32] };
    let mut l: Vec<T> = ids.iter().enumerate().map(|(i, d)| lab(d, fork(lab(b"certified_data", Leaf(data(i))), lab(b"module_hash", Leaf(t.digest().to_vec()))))).collect();
    if nd::choice(2) == 0 {
        // a chain
        let mut c = l.pop().unwrap();
        while let Some(x) = l.pop() {
            c = fork(x, c);
        }
        l = vec![c];
    }
    while l.len() > 1 {
        let mut o = vec![];
        let mut i = l.into_iter();
        while let Some(x) = i.next() {
            o.push(match i.next() {
                Some(y) => fork(x, y),
                None => x,
            });
        }
        l = o;
    }
    let s = fork(lab(b"canister", l.pop().unwrap()), lab(b"time", Leaf(leb(NOW as u64))));
    under(&s, &t, &id, &rs, 1 + nd::choice(2) as u8);
}

// ---- C18
/// a response certified under `cert` as `c`, and another one `r` presented
fn presented(ex: &Ex, c: (&Rq, &Rs), r: (&Rq, &Rs), leaf: Vec<u8>) {
    let text = ex.text();
    let with_expr = |x: &Rs| {
        let mut x = x.clone();
        x.headers.push((EXPR.into(), text.clone()));
        x
    };
    let (a, b) = (with_expr(c.1), with_expr(r.1));
    let mut t = Leaf(leaf);
    for l in [exact_p(), ex.below(&text, c.0, &a)].concat().iter().rev() {
        t = lab(l, t);
    }
    let i = show(&t, &exact_p(), r.0, "/p", &b);
    let want = right(&t, &exact_p(), &at_p(), r.0, &b, ex, &text);
    nd::check(i.is_some() == want, "a response is accepted that is not the certified one, or the certified one rejected");
    if let Some(i) = i {
        shown(&i, &b, ex);
    }
}
fn response(ex: Ex, hs: usize) {
    let r = |n| Rs { status: status(), headers: headers(n, b"aAb"), body: nd::bytes(nd::range(0, 1)) };
    presented(&ex, (&get(), &r(1)), (&get(), &r(hs)), vec![]);
}
fn c18_response() {
    response(Ex::Only(Which::any(1, b"ab")), 1)
}
fn c18_response_t() {
    let ex = Ex::Only(Which::any(1, b"ab"));
    let r = |n| Rs { status: status(), headers: headers(n, b"aB"), body: vec![] };
    presented(&ex, (&get(), &r(1)), (&get(), &r(2)), vec![]);
}
fn request(hs: usize) {
    let ex = Ex::Full(names(1, b"ab"), names(1, b"ab"), Which::Only(vec![]));
    let r = |n| Rq {
        method: nd::pick(&["GET", "POST"]),
        query: if nd::choice(2) == 0 { None } else { Some(nd::chars(1, b"aA=&")) },
        headers: headers(n, b"aA"),
        body: nd::bytes(nd::range(0, 1)),
    };
    let rs = Rs { status: 200, headers: vec![], body: vec![] };
    presented(&ex, (&r(1), &rs), (&r(hs), &rs), vec![]);
}
fn c18_request() {
    request(0)
}
fn c18_request_t() {
    request(1)
}
/// several headers in a full certification
fn c18_headers() {
    let ex = Ex::Full(vec!["a".into()], vec![], Which::any(1, b"ab"));
    let hs = |n: usize| -> Hs { (0..nd::range(0, n)).map(|_| (nd::chars(1, b"aAb"), nd::chars(1, b"xy"))).collect() };
    let r = |h| Rs { status: 200, headers: h, body: vec![] };
    let q = Rq { headers: vec![("A".into(), nd::ascii(1))], ..get() };
    presented(&ex, (&q, &r(hs(2))), (&q, &r(hs(2))), vec![]);
}
/// the entry holds a value, or the response shows another expression than the certified one
fn c18_kind() {
    let (a, b) = (any_kind(), any_kind());
    let r = |e: &Ex| Rs { status: 200, headers: vec![(EXPR.into(), e.text())], body: vec![7] };
    // what the tree certifies: this expression's hash, but another kind of content below it
    let mut below = a.below(&a.text(), &get(), &r(&a));
    below[0] = sha(&[nd::pick(&[&a, &b]).text().as_bytes()]).to_vec();
    match nd::choice(4) {
        0 => {}
        1 => {
            below.pop();
        }
        2 => below.push(vec![]),
        _ => {
            let n = below.len() - 1;
            below[n][nd::pick(&[0, 31])] ^= nd::u8();
        }
    }
    let mut t = match nd::choice(4) {
        0 => Leaf(vec![]),
        1 => Leaf(nd::bytes(1)),
        2 => Pruned(Leaf(vec![]).digest()),
        _ => Empty,
    };
    for l in [exact_p(), below].concat().iter().rev() {
        t = lab(l, t);
    }
    let rs = r(&b);
    let i = show(&t, &exact_p(), &get(), "/p", &rs);
    nd::check(i.is_some() == right(&t, &exact_p(), &at_p(), &get(), &rs, &b, &b.text()), "a response is accepted that is not the certified one, or the certified one rejected");
    if let Some(i) = i {
        shown(&i, &rs, &b);
    }
}
/// entries for several expressions, requests and responses: the hashes may not be mixed
fn c18_place() {
    let e = [Ex::Only(Which::Only(vec![])), Ex::Full(vec![], vec!["a".into()], Which::Only(vec![]))];
    let rs = |x: u8, e: &Ex| Rs { status: 200, headers: vec![(EXPR.into(), e.text())], body: vec![x] };
    let q = |x: &str| Rq { query: Some(format!("a={x}")), ..get() };
    let (b1, b2) = (nd::u8(), nd::u8());
    let (q1, q2) = (nd::chars(1, b"xyz"), nd::chars(1, b"xyz"));
    let entry = |i: usize, p: &[u8], q1: &str, b: u8| [path(&[b"http_expr", p, b"<$>"]), e[i].below(&e[i].text(), &q(q1), &rs(b, &e[i]))].concat();
    let t = build(&[entry(0, b"p", &q1, b1), entry(1, b"p", &q2, b2), entry(nd::choice(2), b"r", &q1, b2)]);
    let (i, qq, b, at) = (nd::choice(2), nd::chars(1, b"xyz"), nd::u8(), nd::pick(&[&b"p"[..], b"r", b"s"]));
    let ep = path(&[b"http_expr", at, b"<$>"]);
    let u = P { seg: vec![nd::pick(&["p", "r", "s"]).into()], dir: false };
    let r = rs(b, &e[i]);
    let ok = show(&t, &ep, &q(&qq), &u.url(), &r).is_some();
    nd::check(ok == right(&t, &ep, &u, &q(&qq), &r, &e[i], &e[i].text()), "a response is accepted that is not the certified one, or the certified one rejected");
}
/// names and values of any characters
fn c18_anyname() {
    let l = vec![nd::token(nd::range(1, 2)), "x-Some-Header".to_string()];
    let w = if nd::choice(2) == 0 { Which::Only(l) } else { Which::Except(l) };
    let one = || (nd::token(nd::range(1, 2)), nd::value(nd::range(0, 1)));
    let some = |n: &str| {
        let mut n = n.as_bytes().to_vec();
        let i = nd::pick(&[0, 1, 12]);
        n[i] = nd::token(1).as_bytes()[0];
        (String::from_utf8(n).unwrap(), "v".to_string())
    };
    let rs = |h| Rs { status: 200, headers: h, body: vec![] };
    let (a, b) = if nd::choice(2) == 0 { (vec![one()], vec![one()]) } else { (vec![some("x-some-header")], vec![some("X-Some-Header")]) };
    presented(&Ex::Only(w), (&get(), &rs(a)), (&get(), &rs(b)), vec![]);
}
/// requests with queries and headers of any characters
fn c18_anyquery() {
    let rs = Rs { status: 200, headers: vec![], body: vec![] };
    let (ex, a, b) = if nd::choice(2) == 0 {
        let q = |n| Rq { query: Some(nd::query(nd::range(0, n))), ..get() };
        (Ex::Full(vec![], vec![nd::param(1), "bc".into()], Which::Only(vec![])), q(2), q(2))
    } else {
        let q = || Rq { headers: vec![(nd::token(1), nd::value(1))], ..get() };
        (Ex::Full(vec![nd::token(1), "bc".into()], vec![], Which::Only(vec![])), q(), q())
    };
    presented(&ex, (&a, &rs), (&b, &rs), vec![]);
}
/// larger requests and responses in which one thing may differ
fn c18_many() {
    let n = nd::pick(&[4, 12]);
    let l: Vec<String> = (0..n).map(|i| format!("x-{}", i / 2)).collect();
    let w = match nd::choice(3) {
        0 => Which::Only(l.clone()),
        1 => Which::Except(l[..2].to_vec()),
        _ => Which::Except(vec![]),
    };
    let ex = Ex::Full(l[..n / 2].to_vec(), vec!["q".into(), "long-parameter".into()], w);
    let hs: Hs = l.iter().enumerate().map(|(i, n)| (n.clone(), format!("value-{i}"))).collect();
    let rq = Rq { method: "POST", query: Some("q=1&r=2&long-parameter=3&q=4".into()), headers: hs.clone(), body: vec![5; 70] };
    let rs = Rs { status: 404, headers: hs, body: vec![6; 200] };
    let (mut q, mut s) = (rq.clone(), rs.clone());
    match nd::choice(9) {
        0 => {}
        1 => q.body[nd::pick(&[0, 63, 64, 69])] = nd::u8(),
        2 => s.body[nd::pick(&[0, 127, 199])] = nd::u8(),
        3 => {
            q.body.truncate(nd::pick(&[0, 64, 69]));
            s.body.truncate(nd::pick(&[1, 199, 200]));
        }
        4 => {
            let i = nd::choice(n);
            s.headers[i].1 = format!("value-{i}{}", nd::value(nd::range(0, 1)))
        }
        5 => {
            let i = nd::choice(n);
            q.headers[i].1 = format!("value-{}", nd::value(1))
        }
        6 => {
            let i = nd::choice(n);
            s.headers.swap(i, nd::choice(n))
        }
        7 => {
            let mut b = q.query.take().unwrap().into_bytes();
            let i = nd::choice(b.len());
            b[i] = nd::query(1).as_bytes()[0];
            q.query = Some(String::from_utf8(b).unwrap());
        }
        _ => {
            let i = nd::choice(n);
            s.headers[i].0 = format!("X-{}", nd::token(1))
        }
    }
    presented(&ex, (&rq, &rs), (&q, &s), vec![]);
}

/// large bodies: every byte of them counts
fn large_body(n: usize) -> (Vec<u8>, Vec<u8>) {
    let a = vec![7; n];
    let mut b = a.clone();
    match nd::choice(3) {
        0 => b[nd::pick(&[0, n / 2, n - 1])] = nd::u8(),
        1 => {
            b.pop();
        }
        _ => b.push(nd::u8()),
    }
    if nd::choice(2) == 0 {
        (a, b)
    } else {
        (b, a)
    }
}
fn c18_large() {
    let rs = |body| Rs { status: 200, headers: vec![], body };
    let (a, b) = large_body(nd::pick(&[65536, 2000001]));
    presented(&Ex::Only(Which::Except(vec![])), (&get(), &rs(a)), (&get(), &rs(b)), vec![]);
}
fn c18_large_request() {
    let rq = |body| Rq { method: "POST", body, ..get() };
    let rs = Rs { status: 200, headers: vec![], body: vec![] };
    let (a, b) = large_body(nd::pick(&[4097, 65536, 2000001]));
    presented(&Ex::Full(vec![], vec![], Which::Except(vec![])), (&rq(a), &rs), (&rq(b), &rs), vec![]);
}
/// many headers and parameters, long names and values
struct Many {
    ex: Ex,
    rq: Rq,
    rs: Rs,
}
fn very_many() -> Many {
    let (long, par) = ("n".repeat(300), "p".repeat(300));
    let mut l: Vec<String> = (0..70).map(|i| format!("x-{i}")).collect();
    l.push(long);
    let w = match nd::choice(3) {
        0 => Which::Only(l.clone()),
        1 => Which::Except(l[..66].to_vec()),
        _ => Which::Except(vec![]),
    };
    let mut ps: Vec<String> = (0..40).map(|i| format!("q{i}")).collect();
    ps.push(par);
    let q: Vec<String> = ps.iter().enumerate().map(|(i, p)| format!("{p}={}", "z".repeat(if i < 39 { 1 } else { 3000 }))).collect();
    let hs: Hs = l.iter().enumerate().map(|(i, n)| (n.clone(), if i < 69 { format!("v{i}") } else { "v".repeat(9000) })).collect();
    Many { ex: Ex::Full(l, ps, w), rq: Rq { query: Some(q.join("&")), headers: hs.clone(), ..get() }, rs: Rs { status: 200, headers: hs, body: vec![] } }
}
/// one character of it
fn one_char(hs: &mut Hs) {
    let i = nd::pick(&[0, 65, 69, 70]);
    let (n, v) = &mut hs[i];
    let s = if nd::choice(2) == 0 { n } else { v };
    let at = nd::choice(2) * (s.len() - 1);
    s.replace_range(at..at + 1, &nd::token(1));
}
fn c18_long() {
    let m = very_many();
    let (mut q, mut s) = (m.rq.clone(), m.rs.clone());
    match nd::choice(4) {
        0 => one_char(&mut q.headers),
        1 => one_char(&mut s.headers),
        2 => {
            let mut b = q.query.take().unwrap();
            let n = b.len();
            let at = nd::pick(&[0, 150, 3400, n - 3002, n - 1]);
            b.replace_range(at..at + 1, &nd::query(1));
            q.query = Some(b)
        }
        _ => {
            q.headers.pop();
            s.headers.remove(nd::pick(&[0, 66, 70]));
        }
    }
    presented(&m.ex, (&m.rq, &m.rs), (&q, &s), vec![]);
}

// ---- C19
/// expression path, URL and the certified paths are arbitrary; everything else is in order
fn paths(t: &T, ep: &[Vec<u8>], u: &P, url: &str) {
    let ex = Ex::Skip;
    let rs = Rs { status: 200, headers: vec![(EXPR.into(), ex.text())], body: vec![] };
    let ok = show(t, ep, &get(), url, &rs).is_some();
    let want = right(t, ep, u, &get(), &rs, &ex, &ex.text());
    nd::check(ok == want, "an expression path is accepted that may not vouch for the URL, or the right one rejected");
}
fn skip_at(p: &P, wild: bool) -> Path {
    [with(&p.tree(), if wild { b"<*>" } else { b"<$>" }), vec![sha(&[Ex::Skip.text().as_bytes()]).to_vec()]].concat()
}
/// a segment of one symbolic letter
fn letter() -> String {
    let b = nd::bytes(1);
    nd::assume((b[0] >= b'a') & (b[0] <= b'z'));
    String::from_utf8(b).unwrap()
}
fn c19(n: usize, m: usize, url: usize, hide: bool) {
    let u = P::any(url, &letter);
    let seg = letter;
    let all: Vec<(P, bool)> = (0..n).map(|_| (P::any(m, &seg), nd::choice(2) == 1)).collect();
    let mut t = build(&all.iter().map(|x| skip_at(&x.0, x.1)).collect::<Vec<_>>());
    let e = if n > 0 { all[0].clone() } else { (P::any(m, &seg), true) };
    let ep = with(&e.0.tree(), if e.1 { b"<*>" } else { b"<$>" });
    if hide {
        let k = size(&t);
        t = prune(&t, nd::choice(k));
    }
    paths(&t, &ep, &u, &u.url());
}
fn c19_paths() {
    c19(2, 2, 2, false)
}
fn c19_pruned() {
    c19(2, 1, 2, true)
}
fn c19_paths_t() {
    c19(3, 1, 2, false)
}
/// decodes a URL path: percent signs, slashes
pub fn parse(url: &str) -> Option<P> {
    let hex = |c: u8| (c as char).to_digit(16).map(|x| x as u8);
    let (b, mut o, mut i) = (url.as_bytes(), vec![], 0);
    while i < b.len() {
        match (b[i], b.get(i + 1).and_then(|x| hex(*x)), b.get(i + 2).and_then(|x| hex(*x))) {
            (b'%', Some(h), Some(l)) => {
                o.push(h << 4 | l);
                i += 3
            }
            (c, _, _) => {
                o.push(c);
                i += 1
            }
        }
    }
    let s = String::from_utf8(o).ok()?;
    Some(P { seg: s.split('/').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(), dir: s.ends_with('/') })
}
/// the spelling of a URL
fn c19_url() {
    let url = format!("/{}", nd::chars(nd::range(0, 4), b"/a%2fF61"));
    let Some(u) = parse(&url) else { return };
    let p = |s: &[&str], dir| P { seg: s.iter().map(|x| x.to_string()).collect(), dir };
    let all = [(p(&["a"], false), false), (p(&["a"], true), true), (p(&[], true), true), (p(&["a", "a"], false), false)];
    let t = build(&all.iter().map(|x| skip_at(&x.0, x.1)).collect::<Vec<_>>());
    let e = &all[nd::choice(4)];
    paths(&t, &with(&e.0.tree(), if e.1 { b"<*>" } else { b"<$>" }), &u, &url);
}
/// segments of any characters
fn c19_any() {
    let u = match nd::choice(3) {
        0 => P::any(1, &|| nd::segment(2)),
        1 => P::any(2, &|| nd::segment(1)),
        _ => P { seg: vec![nd::pick(&[".", "..", "a"]).into(), nd::segment(1), nd::pick(&[".", "..", "b"]).into()], dir: nd::choice(2) == 1 },
    };
    let e = (P::any(1, &|| nd::segment(nd::range(1, 2))), nd::choice(2) == 1);
    let t = build(&[skip_at(&e.0, e.1), skip_at(&P { seg: vec!["a.".into()], dir: true }, true)]);
    paths(&t, &with(&e.0.tree(), if e.1 { b"<*>" } else { b"<$>" }), &u, &u.url());
}
/// any percent-encoded bytes
fn c19_percent() {
    let hex = |n: u8| -> u8 { n.wrapping_add(b'0').wrapping_add((n > 9) as u8 * if nd::choice(2) == 0 { 7 } else { 39 }) };
    let mut b = vec![];
    let mut url = b"/".to_vec();
    for _ in 0..nd::range(1, 2) {
        let c = nd::u8();
        b.push(c);
        url.push(b'%');
        url.push(hex(c >> 4));
        url.push(hex(c & 15));
        if nd::choice(3) == 0 {
            url.extend(b"a");
            b.extend(b"a");
        }
    }
    let url = String::from_utf8(url).unwrap();
    let text = String::from_utf8(b).ok();
    let p = |s: &[&str], dir| P { seg: s.iter().map(|x| x.to_string()).collect(), dir };
    let all = [(p(&["a"], false), false), (p(&["\u{e4}"], false), false), (p(&[], true), true), (p(&["+a"], false), true), (p(&["%"], false), false), (p(&["\u{0}"], true), true)];
    let t = build(&all.iter().map(|x| skip_at(&x.0, x.1)).collect::<Vec<_>>());
    let e = &all[nd::choice(6)];
    let ep = with(&e.0.tree(), if e.1 { b"<*>" } else { b"<$>" });
    match text {
        Some(s) => {
            let u = P { seg: s.split('/').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(), dir: s.ends_with('/') || s.is_empty() };
            paths(&t, &ep, &u, &url)
        }
        None => {
            // not a text: no path is certified for it but by the wildcard of all
            let rs = Rs { status: 200, headers: vec![(EXPR.into(), Ex::Skip.text())], body: vec![] };
            let i = show(&t, &ep, &get(), &url, &rs);
            nd::check(i.is_none() || e.1, "a path is accepted for a URL that is not UTF-8");
        }
    }
}
/// deep URLs, with certified paths at some of the places around them
fn deep19(from: usize, to: usize) {
    let p = |n: usize, dir| P { seg: ["a", "b", "c", "d", "e", "f"][..n].iter().map(|x| x.to_string()).collect(), dir };
    let n = nd::range(from, to);
    let mut u = p(n, nd::choice(2) == 1);
    if nd::choice(2) == 1 {
        let i = nd::choice(n);
        u.seg[i] = nd::segment(1);
    }
    let place = || {
        let k = nd::range(0, n);
        let mut x = p(k, k == 0 || nd::choice(2) == 1);
        if k > 0 && nd::choice(2) == 1 {
            x.seg[k - 1] = nd::segment(1);
        }
        x
    };
    let (e, o) = ((p(nd::range(0, n), true), true), (place(), nd::choice(2) == 1));
    let t = build(&[skip_at(&e.0, e.1), skip_at(&o.0, o.1)]);
    let x = if nd::choice(2) == 0 { &e } else { &o };
    paths(&t, &with(&x.0.tree(), if x.1 { b"<*>" } else { b"<$>" }), &u, &u.url());
}
fn c19_deep() {
    deep19(3, 4)
}
fn c19_deep_t() {
    deep19(3, 6)
}
/// segments that look like the markers used in the tree, and expression paths that are not quite one
fn c19_names() {
    let names = ["http_expr", "<*>", "<$>"];
    let seg = || nd::pick(&names).to_string();
    let u = P::any(2, &seg);
    let url = u.url().replace('<', "%3C").replace('>', "%3e").replace('$', "%24");
    let a = (P::any(1, &seg), true);
    let b = (P::any(2, &seg), nd::choice(2) == 1);
    let t = build(&[skip_at(&a.0, a.1), skip_at(&b.0, b.1)]);
    let mut ep = with(&a.0.tree(), b"<*>");
    match nd::choice(6) {
        0 => {
            ep.pop();
        }
        1 => {
            ep.remove(0);
        }
        2 => ep = vec![],
        3 => {
            let n = ep.len() - 1;
            ep[n] = nd::pick(&[&b""[..], b"<$>", b"<*", b"<*>>"]).to_vec()
        }
        _ => {}
    }
    paths(&t, &ep, &u, &url);
}

/// paths of many and of long segments
fn far() -> (P, (P, bool), (P, bool)) {
    let n = nd::pick(&[9, 24]);
    let p = |k: usize, dir| P { seg: (0..k).map(|i| if i % 8 == 7 { "s".repeat(300) } else { format!("s{i}") }).collect(), dir };
    let mut u = p(n, nd::choice(2) == 1);
    match nd::choice(4) {
        0 => {}
        1 => u.seg[7].replace_range(299.., &nd::segment(1)),
        2 => u.seg[7].push_str(&nd::segment(1)),
        _ => u.seg[n - 1] = nd::segment(1),
    }
    let at = |k: usize| p(nd::pick(&[0, k, n - 1, n]), true);
    let mut o = (at(8), nd::choice(2) == 1);
    if !o.1 {
        o.0.dir = o.0.seg.is_empty() || nd::choice(2) == 1;
    }
    (u, (at(7), true), o)
}
fn c19_far() {
    let (u, e, o) = far();
    let t = build(&[skip_at(&e.0, e.1), skip_at(&o.0, o.1)]);
    let x = if nd::choice(2) == 0 { &e } else { &o };
    paths(&t, &with(&x.0.tree(), if x.1 { b"<*>" } else { b"<$>" }), &u, &u.url());
}

// ---- C20
fn c20(n: usize, k: usize) {
    let ex = match nd::choice(2) {
        0 => Ex::Only(Which::any(k, b"aAB")),
        _ => Ex::Full(vec![], vec![], Which::any(k, b"aAB")),
    };
    let mut rs = Rs { status: status(), headers: (0..nd::range(0, n)).map(|_| (nd::chars(1, b"aAbB"), nd::chars(1, b"xy"))).collect(), body: nd::bytes(nd::range(0, 1)) };
    let at = nd::choice(rs.headers.len() + 1);
    rs.headers.insert(at, (nd::pick(&[EXPR, "ic-certificateexpression"]).into(), ex.text()));
    let t = build(&[[exact_p(), ex.below(&ex.text(), &get(), &rs)].concat()]);
    let c = signed(&state(&[1], &t.digest()));
    let h = cert_header(&c, &t, Some("2"), Some(&exact_p()));
    let mut r = rs.clone();
    let at = nd::choice(2) * r.headers.len();
    r.headers.insert(at, (nd::pick(&[CERT, "IC-CERTIFICATE"]).into(), h.clone()));
    match call(&get(), "/p", &r, &[1], 2) {
        Some(i) => {
            shown(&i, &rs, &ex);
            let Some(v) = i.response else { return };
            nd::check(v.headers.iter().all(|x| lower(&x.0) != lower(CERT) || x.1 == h), "another certificate is shown");
        }
        None => nd::check(false, "a certified response is rejected"),
    }
}
fn c20_headers() {
    c20(2, 1)
}
fn c20_headers_t() {
    c20(3, 2)
}
/// names of any characters
fn c20_anyname() {
    let l = vec![nd::token(nd::range(1, 2)), nd::pick(&["iC-certificatE", "IC-Certificat", EXPR]).to_string()];
    let w = if nd::choice(2) == 0 { Which::Only(l) } else { Which::Except(l) };
    let ex = if nd::choice(2) == 0 { Ex::Only(w) } else { Ex::Full(vec![], vec![], w) };
    let mut h = vec![(nd::token(nd::range(1, 2)), nd::value(nd::range(0, 2))), ("ic-certificat".into(), "x".into())];
    h.insert(nd::choice(3), (EXPR.into(), ex.text()));
    let rs = Rs { status: 200, headers: h, body: vec![] };
    let t = build(&[[exact_p(), ex.below(&ex.text(), &get(), &rs)].concat()]);
    match show(&t, &exact_p(), &get(), "/p", &rs) {
        Some(i) => shown(&i, &rs, &ex),
        None => nd::check(false, "a certified response is rejected"),
    }
}
/// many headers, long names and values
fn c20_many() {
    let m = very_many();
    let mut rs = m.rs.clone();
    one_char(&mut rs.headers);
    let at = nd::choice(2) * rs.headers.len();
    rs.headers.insert(at, (EXPR.into(), m.ex.text()));
    let t = build(&[[exact_p(), m.ex.below(&m.ex.text(), &m.rq, &rs)].concat()]);
    match show(&t, &exact_p(), &m.rq, "/p", &rs) {
        Some(i) => shown(&i, &rs, &m.ex),
        None => nd::check(false, "a certified response is rejected"),
    }
}
/// version 1, and skipped certification
fn c20_kinds() {
    let ex = any_kind();
    let rs = Rs { status: status(), headers: vec![(nd::chars(1, b"ab"), nd::ascii(1)), (EXPR.into(), ex.text())], body: nd::bytes(1) };
    let t = both(&ex, &rs);
    let c = signed(&state(&[1], &t.digest()));
    let v = nd::pick(&["1", "2"]);
    let mut r = rs.clone();
    r.headers.push((CERT.into(), cert_header(&c, &t, Some(v), Some(&exact_p()))));
    match call(&get(), "/p", &r, &[1], 1) {
        Some(i) if v == "2" => shown(&i, &rs, &ex),
        Some(i) => {
            nd::check(i.verification_version == 1, "a version 1 response is reported as another version");
            let Some(x) = i.response else { return nd::check(false, "a certified response is not shown") };
            nd::check(x.status_code.is_none() && x.headers.is_empty(), "version 1 shows a status code or headers, which it does not certify");
            nd::check(x.body == rs.body, "another body is shown");
        }
        None => nd::check(false, "a certified response is rejected"),
    }
}

// ---- C21
/// is this body certified for this path, by the version 1 rules
fn right1(t: &T, p: &str, bodies: &[Vec<u8>]) -> bool {
    use ic_certification::LookupResult as L;
    let v = match t.lookup(&path(&[b"http_assets", p.as_bytes()])) {
        L::Found(v) => v,
        L::Absent => match t.lookup(&path(&[b"http_assets", b"/index.html"])) {
            L::Found(v) => v,
            _ => return false,
        },
        _ => return false,
    };
    bodies.iter().any(|b| sha(&[b]).as_slice() == v)
}
pub fn show1(t: &T, url: &str, rs: &Rs) -> bool {
    let c = signed(&state(&[1], &t.digest()));
    let mut r = rs.clone();
    r.headers.push((CERT.into(), cert_header(&c, t, None, None)));
    match call(&get(), url, &r, &[1], 1) {
        Some(i) => {
            nd::check(i.response.is_some_and(|x| x.body == rs.body), "another body is shown");
            true
        }
        None => false,
    }
}
fn c21_body() {
    let body = nd::bytes(nd::range(0, 2));
    let mut v = sha(&[&nd::bytes(nd::range(0, 2))]).to_vec();
    match nd::choice(4) {
        0 => {}
        1 => v[nd::pick(&[0, 31])] ^= nd::u8(),
        2 => v.truncate(nd::pick(&[0, 31])),
        _ => v.push(nd::u8()),
    }
    let p = nd::pick(&["/p", "/index.html", "/q"]);
    let t = lab(b"http_assets", lab(p.as_bytes(), Leaf(v)));
    let ok = show1(&t, "/p", &Rs { status: 200, headers: vec![], body: body.clone() });
    nd::check(ok == right1(&t, "/p", &[body]), "a version 1 response is accepted with another body, or the right one rejected");
}
/// large bodies
fn c21_large() {
    let (a, b) = large_body(nd::pick(&[65536, 2000001]));
    let t = lab(b"http_assets", lab(b"/p", Leaf(sha(&[&a]).to_vec())));
    let ok = show1(&t, "/p", &Rs { status: 200, headers: vec![], body: b.clone() });
    nd::check(ok == right1(&t, "/p", &[b]), "a version 1 response is accepted with another body, or the right one rejected");
}
/// large trees of certified paths, long paths
fn c21_many() {
    let n = nd::pick(&[20, 100]);
    let mut l: Vec<Vec<u8>> = (0..n).map(|i| format!("/{i:03}{}", "x".repeat(if i % 7 == 6 { 400 } else { i % 4 })).into_bytes()).collect();
    let index = nd::choice(2) == 1;
    if index {
        l.push(b"/index.html".to_vec());
    }
    let j = nd::pick(&[0, 6, n / 2, n - 1]);
    let mut url = String::from_utf8(l[j].clone()).unwrap();
    match nd::choice(3) {
        0 => {}
        1 => {
            let k = url.len() - 1;
            url.replace_range(k.., &nd::segment(1))
        }
        _ => url.push_str(&nd::segment(1)),
    }
    let leaf = |i: usize| Leaf(sha(&[&[i as u8]]).to_vec());
    let mut it = l.iter().enumerate().rev().map(|(i, p)| lab(p, leaf(i)));
    let mut t = it.next().unwrap();
    for x in it {
        t = fork(x, t);
    }
    let t = lab(b"http_assets", t);
    let body = vec![nd::pick(&[j, n]) as u8];
    // percent signs: see c21_url
    nd::assume(!url.contains(&['%', '.'][..]));
    let ok = show1(&t, &url, &Rs { status: 200, headers: vec![], body: body.clone() });
    nd::check(ok == right1(&t, &url, &[body]), "a version 1 response is accepted for a path that is not certified, or a certified one rejected");
}
/// several paths, hidden parts
fn place(n: usize) {
    let ps: Vec<String> = (0..n).map(|_| format!("/{}", letter())).collect();
    let mut all: Vec<(Vec<u8>, u8)> = ps.iter().enumerate().map(|(i, p)| (p.clone().into_bytes(), i as u8)).collect();
    if nd::choice(2) == 1 {
        all.push((b"/index.html".to_vec(), 9));
    }
    all.sort();
    let mut l: Vec<T> = all
        .iter()
        .map(|(p, b)| {
            let h = sha(&[&[*b]]);
            lab(p, if nd::choice(2) == 0 { Leaf(h.to_vec()) } else { Pruned(Leaf(h.to_vec()).digest()) })
        })
        .collect();
    let mut t = l.pop().unwrap();
    while let Some(x) = l.pop() {
        t = fork(x, t);
    }
    let k = size(&t);
    let i = nd::choice(k + 1);
    if i < k {
        t = prune(&t, i);
    }
    let t = lab(nd::pick(&[&b"http_assets"[..], b"http_expr"]), t);
    let url = format!("/{}", letter());
    let body = vec![nd::pick(&[0, 1, 9])];
    let ok = show1(&t, &url, &Rs { status: 200, headers: vec![], body: body.clone() });
    nd::check(ok == right1(&t, &url, &[body]), "a version 1 response is accepted for a path that is not certified, or a certified one rejected");
}
fn c21_place() {
    place(1)
}
fn c21_place_t() {
    place(2)
}
/// URLs of any characters: what is looked up is the decoded path
fn c21_url() {
    let (url, p) = match nd::choice(4) {
        0 => {
            let s = nd::segment(nd::range(0, 2));
            (format!("/{s}"), Some(format!("/{s}")))
        }
        1 => {
            let s = nd::segment(1);
            (format!("/a/{s}/?{}", nd::query(1)), Some(format!("/a/{s}/")))
        }
        2 => {
            let c = nd::u8();
            let hex = |n: u8| -> u8 { n.wrapping_add(b'0').wrapping_add((n > 9) as u8 * 7) };
            let u = [&b"/a%"[..], &[hex(c >> 4), hex(c & 15)], b"b"].concat();
            (String::from_utf8(u).unwrap(), String::from_utf8(vec![b'/', b'a', c, b'b']).ok())
        }
        _ => (format!("//{}//", nd::segment(1)), None),
    };
    let names: [&[u8]; 5] = [b"/", b"/a b", b"/a/./", b"/index.html", b"/~"];
    let mut t = Empty;
    let k = nd::choice(2);
    for (i, n) in names.iter().enumerate().rev() {
        if i == 3 && k == 1 {
            continue;
        }
        let x = lab(n, Leaf(sha(&[&[i as u8]]).to_vec()));
        t = if matches!(t, Empty) { x } else { fork(x, t) };
    }
    let t = lab(b"http_assets", t);
    let body = vec![nd::pick(&[0u8, 1, 2, 3, 4])];
    let ok = show1(&t, &url, &Rs { status: 200, headers: vec![], body: body.clone() });
    match p {
        Some(p) => nd::check(ok == right1(&t, &p, &[body]), "a version 1 response is accepted for a path that is not certified, or a certified one rejected"),
        None => nd::check(!ok || k == 0 && body[0] == 3, "a version 1 response is accepted for a path that is not certified"),
    }
}
/// longer bodies
fn c21_long() {
    let mut body = vec![3; nd::pick(&[64, 1000, 5000])];
    let h = sha(&[&body]);
    let n = body.len();
    match nd::choice(4) {
        0 => body[nd::pick(&[0, 63, n - 1])] = nd::u8(),
        1 => body.truncate(nd::pick(&[0, 63, n - 1])),
        2 => body.push(nd::u8()),
        _ => {}
    }
    let t = lab(b"http_assets", fork(lab(b"/index.html", Leaf(vec![4; 32])), lab(b"/p", Leaf(h.to_vec()))));
    let ok = show1(&t, "/p", &Rs { status: status(), headers: vec![("a".into(), nd::value(1))], body: body.clone() });
    nd::check(ok == right1(&t, "/p", &[body]), "a version 1 response is accepted with another body, or the right one rejected");
}
pub fn crc(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = c >> 1 ^ (0xedb88320 & 0u32.wrapping_sub(c & 1));
        }
    }
    !c
}
/// bodies sent with a content encoding
fn c21_encoding() {
    let x = vec![nd::u8()];
    let stored = [&[1, 1, 0, 0xfe, 0xff], &x[..]].concat();
    let y = vec![nd::pick(&[b'x', b'y'])];
    let mut gz = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3, 1, 1, 0, 0xfe, 0xff];
    gz.extend(&y);
    gz.extend(crc(&y).to_le_bytes());
    gz.extend(1u32.to_le_bytes());
    let (body, plain, kind) = match nd::choice(3) {
        0 => (stored, x, "deflate"),
        1 => (gz, y, "gzip"),
        _ => (x.clone(), x, ""),
    };
    let enc = nd::pick(&["deflate", "gzip", "identity", "br", "", "br, gzip", "gzip,deflate"]);
    let mut h: Hs = vec![];
    if nd::choice(2) == 1 {
        h.push((nd::pick(&["Content-Encoding", "content-encoding"]).into(), enc.into()));
    }
    let said = if h.is_empty() { "" } else { enc };
    let c = match nd::choice(3) {
        0 => sha(&[&body]),
        1 => sha(&[&plain]),
        _ => sha(&[&[nd::u8()]]),
    };
    let t = lab(b"http_assets", lab(b"/p", Leaf(c.to_vec())));
    let ok = show1(&t, "/p", &Rs { status: 200, headers: h, body: body.clone() });
    let mut bodies = vec![body.clone()];
    let known = said == "deflate" || said == "gzip";
    if known && said == kind {
        bodies.push(plain);
    }
    let want = right1(&t, "/p", &bodies);
    // a body that cannot be decoded as stated may be rejected in any case
    if known && said != kind {
        nd::check(!ok || want, "a version 1 response is accepted with another body");
    } else {
        nd::check(ok == want, "a version 1 response is accepted with another body, or the right one rejected");
    }
}
pub fn gzip(z: &[u8], plain: &[u8]) -> Vec<u8> {
    [&[0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3], z, &crc(plain).to_le_bytes(), &(plain.len() as u32).to_le_bytes()].concat()
}
/// streams of several sizes in which a byte is changed or missing
fn c21_gzip() {
    let n = nd::pick(&[1, 5, 1023, 1024, 1025, 2500]);
    let plain: Vec<u8> = (0..n).map(|i| i as u8 % 251).collect();
    let len = (n as u16).to_le_bytes();
    let stored = [&[1, len[0], len[1], !len[0], !len[1]], &plain[..]].concat();
    let deflate = nd::choice(2) == 1;
    let mut z = if deflate { stored } else { gzip(&stored, &plain) };
    let (at, full) = (if deflate { 0 } else { 10 }, z.len());
    let mut good = true;
    match nd::choice(5) {
        0 => {}
        1 => {
            // the block's header: its upper bits are padding
            let x = nd::u8();
            z[at] = x;
            good = x & 7 == 1;
        }
        2 => {
            let mut i = vec![at + 1, at + 4, at + 5, full - 1];
            if !deflate {
                i.extend([0, 1, 2, at + 5 + n, at + 6 + n, at + 8 + n, at + 9 + n]);
            }
            let i = nd::pick(&i);
            let (x, o) = (nd::u8(), z[i]);
            z[i] = x;
            good = x == o;
        }
        3 if !deflate => z[nd::pick(&[4, 7, 8, 9])] = nd::u8(),
        _ => {
            z.truncate(nd::pick(&[0, at, at + 4, full - 1]));
            good = false;
        }
    }
    let mut v = sha(&[&plain]).to_vec();
    if nd::choice(4) == 0 {
        let x = nd::u8();
        v[31] ^= x;
        good &= x == 0;
    }
    let t = lab(b"http_assets", lab(b"/p", Leaf(v)));
    let ok = show1(&t, "/p", &Rs { status: 200, headers: vec![("content-encoding".into(), if deflate { "deflate" } else { "gzip" }.into())], body: z });
    nd::check(ok == good, "a version 1 response is accepted with a body that does not decode to the certified one, or the right one rejected");
}
/// a compressed stream
const PACKED: [u8; 24] = [203, 72, 205, 201, 201, 87, 200, 64, 144, 58, 80, 78, 121, 126, 81, 78, 138, 30, 178, 204, 176, 148, 7, 0];
fn c21_packed() {
    let plain = "hello hello hello, hello world. ".repeat(8).into_bytes();
    let deflate = nd::choice(2) == 1;
    let mut z = if deflate { PACKED.to_vec() } else { gzip(&PACKED, &plain) };
    let said = nd::pick(&["gzip", "deflate", "GZIP", "identity", "br"]);
    let raw = sha(&[&z]);
    let mut good = said == if deflate { "deflate" } else { "gzip" };
    let whole = nd::choice(2) == 1;
    if whole {
        let n = nd::choice(z.len());
        z.truncate(n);
        // the last bit of the stream is the end of the block
        good = false;
    }
    let mut v = if nd::choice(4) == 0 { raw } else { sha(&[&plain]) }.to_vec();
    let by_raw = v == raw;
    let x = nd::u8();
    v[0] ^= x;
    let t = lab(b"http_assets", lab(b"/p", Leaf(v)));
    let rs = Rs { status: 200, headers: vec![("Content-Encoding".into(), said.into())], body: z };
    let ok = show1(&t, "/p", &rs);
    if by_raw && !whole {
        // as it was sent; a body that cannot be decoded as stated may be rejected in any case
        nd::check(!ok || x == 0, "a version 1 response is accepted with another body");
        nd::check(ok || x != 0 || said == "gzip" || said == "deflate", "a version 1 response is rejected whose body is certified as sent");
    } else {
        let odd = said == "GZIP";
        nd::check(if odd { !ok || x == 0 } else { ok == (good && x == 0) }, "a version 1 response is accepted with a body that does not decode to the certified one, or the right one rejected");
    }
}

// ---- C22
/// the fields of a certificate header: name and value
fn fields(h: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    for f in h.split(',') {
        let f = f.trim();
        let Some(i) = f.find('=') else { continue };
        let (n, mut v) = (&f[..i], &f[i + 1..]);
        if v.starts_with(':') {
            v = &v[1..];
        }
        let j = v.find(':').unwrap_or(v.len());
        if v.len() > j + 1 || n.is_empty() || j == 0 {
            continue;
        }
        out.push((n.to_string(), v[..j].to_string()));
    }
    out
}
fn first<'a>(f: &'a [(String, String)], n: &str) -> Option<&'a str> {
    f.iter().find(|x| x.0 == n).map(|x| x.1.as_str())
}
/// a certificate header of these parts is read as stated
struct Good {
    t: T,
    rs: Rs,
    cert: String,
    tree: String,
    expr: String,
    path2: String,
}
fn good() -> Good {
    let ex = Ex::Only(Which::Only(vec![]));
    let rs = Rs { status: 200, headers: vec![(EXPR.into(), ex.text())], body: b"x".to_vec() };
    let t = both(&ex, &rs);
    let cert = b64(&signed(&state(&[1], &t.digest())));
    let tree = b64(&tagged(&t));
    Good { t, rs, cert, tree, expr: b64(&texts(&exact_p())), path2: b64(&texts(&path(&[b"http_expr", b"q", b"<$>"]))) }
}
impl Good {
    fn show(&self, header: &str) -> Option<u16> {
        let mut r = self.rs.clone();
        r.headers.push((CERT.into(), header.into()));
        call(&get(), "/p", &r, &[1], 1).map(|i| i.verification_version)
    }
    /// the version under which a header with these fields has to be accepted
    fn want(&self, f: &[(String, String)]) -> Option<u16> {
        let _ = &self.t;
        if first(f, "certificate") != Some(&self.cert) || first(f, "tree") != Some(&self.tree) {
            return None;
        }
        match first(f, "version").map(|v| v.parse::<u8>()) {
            None | Some(Ok(1)) => match first(f, "expr_path") {
                None => Some(1),
                Some(x) if x == self.expr || x == self.path2 || x == "gA==" => Some(1),
                _ => None,
            },
            Some(Ok(2)) => (first(f, "expr_path") == Some(&self.expr)).then_some(2),
            _ => None,
        }
    }
}
fn text(n: usize) {
    let g = good();
    let b = nd::bytes(nd::range(0, n));
    let Ok(s) = String::from_utf8(b) else { return };
    nd::check(g.show(&s).is_none(), "a text is accepted as a certificate header");
    // after a complete header it may add nothing but fields of its own
    let whole = format!("certificate=:{}:,tree=:{}:,x{s}", g.cert, g.tree);
    nd::check(g.show(&whole) == g.want(&fields(&whole)), "a certificate header is not read as it is written");
}
fn c22_text() {
    text(3)
}
fn c22_text_t() {
    text(4)
}
/// long fields, and many
fn c22_large() {
    let ex = Ex::Only(Which::Only(vec![]));
    let rs = Rs { status: 200, headers: vec![(EXPR.into(), ex.text())], body: b"x".to_vec() };
    let t = fork(both(&ex, &rs), lab(b"zz", Leaf(vec![1; nd::pick(&[1, 9001, 70000])])));
    let s = fork(state(&[1], &t.digest()), lab(b"zz", Leaf(vec![2; nd::pick(&[1, 9001, 70000])])));
    let (c, tree) = (b64(&signed(&s)), b64(&tagged(&t)));
    let mut f = vec![format!("certificate=:{c}:"), format!("tree=:{tree}:"), "version=2".into(), format!("expr_path=:{}:", b64(&texts(&exact_p())))];
    let more = (0..nd::pick(&[0, 1, 40])).map(|i| format!("x{i}={}", "y".repeat(100)));
    let at = nd::choice(f.len() + 1);
    f.splice(at..at, more);
    // one field at one of its ends
    let which = nd::choice(2);
    let bad = nd::choice(3);
    let i = f.iter().position(|x| x.starts_with(if which == 0 { "certificate" } else { "tree" })).unwrap();
    let n = f[i].len();
    let mut ok = true;
    if bad > 0 {
        // a character no such text has
        let at = if bad == 1 { n - 9 } else { n / 2 };
        f[i].replace_range(at..at + 1, nd::pick(&["!", " ", "="]));
        ok = false;
    }
    let g = Good { t, rs, cert: c, tree, expr: String::new(), path2: String::new() };
    nd::check(g.show(&f.join(", ")) == ok.then_some(2), "a certificate header with long fields is not read as it is written");
}
/// short texts in the place of a certificate, a tree or a path
fn c22_base64() {
    let g = good();
    let s = nd::ascii(nd::range(1, 3));
    let s = match nd::choice(4) {
        0 => format!("certificate=:{s}:, tree=:{}:", g.tree),
        1 => format!("tree=:{}:, certificate=:{}{s}:", g.tree, &g.cert[..g.cert.len() - 4]),
        2 => format!("certificate=:{}:, tree=:{s}:", g.cert),
        _ => format!("certificate=:{}:, tree=:{}:, version=2, expr_path=:{s}:", g.cert, g.tree),
    };
    let w = g.want(&fields(&s));
    let r = g.show(&s);
    // the same bytes can be written in more than one way, without padding or with other unused bits
    if s.contains(&format!("{}:", &g.cert[g.cert.len() - 4..])) || w.is_some() {
        nd::check(r == w, "a certificate header is not read as it is written");
    } else {
        let same = fields(&s).iter().any(|f| f.0 == "certificate" && same_bytes(&f.1, &g.cert));
        nd::check(r.is_none() || same, "a text is accepted as a field it is not");
    }
}
fn unb64(s: &str) -> Option<Vec<u8>> {
    let mut o = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for c in s.trim_end_matches('=').bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return None,
        };
        acc = acc << 6 | v as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            o.push((acc >> n) as u8);
        }
    }
    Some(o)
}
fn same_bytes(a: &str, b: &str) -> bool {
    unb64(a).is_some_and(|x| Some(x) == unb64(b))
}
/// fields that occur twice: right and wrong ones, in any order
fn c22_twice() {
    let g = good();
    let other = b64(&tagged(&lab(b"a", Leaf(vec![1]))));
    let cert2 = b64(&enc_cert(&state(&[1], &[7; 32]), &[1], None));
    let path2 = &g.path2;
    let mut parts: Vec<(&str, String)> = vec![("certificate", g.cert.clone()), ("tree", g.tree.clone()), ("version", "2".into()), ("expr_path", g.expr.clone())];
    for _ in 0..nd::range(1, 2) {
        let (n, v) = match nd::choice(7) {
            0 => ("certificate", cert2.clone()),
            1 => ("tree", other.clone()),
            2 => ("version", nd::pick(&["1", "3", "2", "x"]).into()),
            3 => ("expr_path", path2.clone()),
            4 => (nd::pick(&["certificate", "tree", "expr_path"]), nd::pick(&["AA", "!!", "gA=="]).to_string()),
            5 => (nd::pick(&["Tree", "certificates", "x"]), other.clone()),
            _ => (nd::pick(&["certificate", "tree"]), String::new()),
        };
        let at = nd::choice(parts.len() + 1);
        parts.insert(at, (n, v));
    }
    let h = parts.iter().map(|x| if x.0 == "version" { format!("{}={}", x.0, x.1) } else { format!("{}=:{}:", x.0, x.1) }).collect::<Vec<_>>().join(", ");
    let f = fields(&h);
    let want = g.want(&f);
    // a first field that cannot be read rejects the header, even if version 1 would not need it
    nd::check(g.show(&h) == want, "of a field that occurs twice it is not the first value that counts");
}
/// one character added, removed or changed around the delimiters
fn c22_field() {
    let g = good();
    let parts = [format!("certificate=:{}:", g.cert), format!("tree=:{}:", g.tree), "version=2".to_string(), format!("expr_path=:{}:", g.expr)];
    let h = parts.join(nd::pick(&[", ", ","]));
    // the places of delimiters
    let mut at = vec![];
    for (i, c) in h.bytes().enumerate() {
        if b",:".contains(&c) || c == b'=' && h.as_bytes()[i + 1] == b':' || c == b'=' && h.as_bytes()[i + 1] == b'2' {
            at.push(i);
            at.push(i + 1);
        }
    }
    at.push(0);
    at.push(h.len());
    let i = nd::pick(&at);
    let mut b = h.into_bytes();
    let c = nd::u8();
    nd::assume(c < 128);
    match nd::choice(3) {
        0 => b.insert(i, c),
        1 => {
            nd::assume(i < b.len());
            b[i] = c
        }
        _ => {
            nd::assume(i < b.len());
            b.remove(i);
        }
    }
    let h = String::from_utf8(b).unwrap();
    let f = fields(&h);
    // what other bytes, or other ways of writing the same bytes, stand for is not settled here
    nd::assume(f.iter().all(|x| x.0 == "version" || [&g.cert, &g.tree, &g.expr].contains(&&x.1) || unb64(&x.1).is_none()));
    nd::log(&h);
    nd::check(g.show(&h) == g.want(&f), "a certificate header is not read as it is written");
}

// ---- C23
enum V {
    Str(Vec<u8>),
    Arr(Vec<V>),
    Obj(Vec<u8>, Vec<(Vec<u8>, V)>),
    Fun(Vec<u8>, Vec<V>),
}
struct Cel<'a> {
    b: &'a [u8],
    i: usize,
    /// something whose meaning is not settled
    odd: bool,
}
impl Cel<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && b" \t\r\n".contains(&self.b[self.i]) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        let r = self.i < self.b.len() && self.b[self.i] == c;
        self.i += r as usize;
        r
    }
    fn ident(&mut self) -> Vec<u8> {
        self.ws();
        let s = self.i;
        while self.i < self.b.len() {
            let c = self.b[self.i];
            if !((c >= b'0') & (c <= b'9') | (c >= b'a') & (c <= b'z') | (c >= b'A') & (c <= b'Z') | (c == b'_') | (c >= 128)) {
                break;
            }
            self.i += 1;
        }
        self.b[s..self.i].to_vec()
    }
    fn list<X>(&mut self, end: u8, item: &dyn Fn(&mut Self) -> Option<X>) -> Option<Vec<X>> {
        let mut o = vec![];
        if self.eat(end) {
            return Some(o);
        }
        loop {
            o.push(item(self)?);
            if self.eat(end) {
                return Some(o);
            }
            if !self.eat(b',') {
                return None;
            }
        }
    }
    fn value(&mut self) -> Option<V> {
        if self.eat(b'"') {
            let s = self.i;
            while self.i < self.b.len() && self.b[self.i] != b'"' {
                if self.b[self.i] == b'\\' {
                    self.odd = true;
                    self.i += 1;
                }
                self.i += 1;
            }
            if self.i >= self.b.len() {
                return None;
            }
            self.i += 1;
            return Some(V::Str(self.b[s..self.i - 1].to_vec()));
        }
        if self.eat(b'[') {
            return self.list(b']', &|c| c.value()).map(V::Arr);
        }
        let n = self.ident();
        if self.eat(b'{') {
            let l = self.list(b'}', &|c| {
                let k = c.ident();
                if !c.eat(b':') {
                    return None;
                }
                Some((k, c.value()?))
            })?;
            for (i, x) in l.iter().enumerate() {
                if l[..i].iter().any(|y| y.0 == x.0) {
                    self.odd = true;
                }
            }
            return Some(V::Obj(n, l));
        }
        if self.eat(b'(') {
            return self.list(b')', &|c| c.value()).map(|l| V::Fun(n, l));
        }
        None
    }
    fn obj<'v>(&mut self, v: &'v V, name: &str, known: &[&str]) -> Option<&'v [(Vec<u8>, V)]> {
        let V::Obj(n, l) = v else { return None };
        if n != name.as_bytes() {
            return None;
        }
        if l.iter().any(|x| !known.iter().any(|k| k.as_bytes() == x.0)) {
            self.odd = true;
        }
        Some(l)
    }
    fn strings(&self, v: &V) -> Option<Vec<String>> {
        let V::Arr(l) = v else { return None };
        l.iter()
            .map(|x| match x {
                V::Str(s) => String::from_utf8(s.clone()).ok(),
                _ => None,
            })
            .collect()
    }
    fn which(&mut self, v: &V) -> Option<Which> {
        let l = self.obj(v, "ResponseCertification", &["certified_response_headers", "response_header_exclusions"])?;
        let mut r = None;
        for (k, v) in l {
            if !(k == b"certified_response_headers" || k == b"response_header_exclusions") {
                continue;
            }
            let h = self.obj(v, "ResponseHeaderList", &["headers"])?;
            let Some(h) = get_key(h, "headers") else {
                self.odd = true;
                continue;
            };
            let h = self.strings(h)?;
            if r.is_some() {
                return None;
            }
            r = Some(if k == b"certified_response_headers" { Which::Only(h) } else { Which::Except(h) });
        }
        r
    }
    fn empty(&mut self, v: &V) {
        if !matches!(v, V::Obj(n, l) if n == b"Empty" && l.is_empty()) {
            self.odd = true;
        }
    }
    /// what a text says, if it is a certification expression
    fn read(&mut self) -> Option<Ex> {
        let v = self.value()?;
        self.ws();
        if self.i < self.b.len() {
            return None;
        }
        let V::Fun(n, a) = v else { return None };
        if n != b"default_certification" || a.is_empty() {
            return None;
        }
        if a.len() > 1 {
            self.odd = true;
        }
        let l = self.obj(&a[0], "ValidationArgs", &["no_certification", "certification"])?;
        match (get_key(l, "no_certification"), get_key(l, "certification")) {
            (Some(e), None) => {
                self.empty(e);
                Some(Ex::Skip)
            }
            (None, Some(c)) => {
                let c = self.obj(c, "Certification", &["no_request_certification", "request_certification", "response_certification"])?;
                let w = self.which(get_key(c, "response_certification")?)?;
                match (get_key(c, "no_request_certification"), get_key(c, "request_certification")) {
                    (Some(e), None) => {
                        self.empty(e);
                        Some(Ex::Only(w))
                    }
                    (None, Some(r)) => {
                        let r = self.obj(r, "RequestCertification", &["certified_request_headers", "certified_query_parameters"])?;
                        let h = self.strings(get_key(r, "certified_request_headers")?)?;
                        let p = self.strings(get_key(r, "certified_query_parameters")?)?;
                        Some(Ex::Full(h, p, w))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
}
fn get_key<'v>(l: &'v [(Vec<u8>, V)], k: &str) -> Option<&'v V> {
    l.iter().rev().find(|x| x.0 == k.as_bytes()).map(|x| &x.1)
}
fn same_meaning(a: &Ex, b: &Ex) -> bool {
    let w = |a: &Which, b: &Which| match (a, b) {
        (Which::Only(a), Which::Only(b)) | (Which::Except(a), Which::Except(b)) => a == b,
        _ => false,
    };
    match (a, b) {
        (Ex::Skip, Ex::Skip) => true,
        (Ex::Only(a), Ex::Only(b)) => w(a, b),
        (Ex::Full(a, c, e), Ex::Full(b, d, f)) => a == b && c == d && w(e, f),
        _ => false,
    }
}
/// a text in the place of the expression: it is accepted with the meaning it has, and with no other
fn cel(text: &str, original: &Ex, names: &[String]) {
    cel_of(text, original, names, false)
}
fn cel_of(text: &str, original: &Ex, names: &[String], parts: bool) {
    let mut rd = Cel { b: text.as_bytes(), i: 0, odd: false };
    let says = rd.read();
    // nor is other white space at the end
    rd.odd |= says.is_none() && text.ends_with(&['\x0b', '\x0c']);
    if rd.odd {
        nd::cover("not settled");
    }
    let mut rs = Rs { status: 200, headers: vec![(EXPR.into(), text.into())], body: vec![] };
    for (i, n) in names.iter().enumerate() {
        rs.headers.push((n.clone(), format!("{i}")));
    }
    let q = names.iter().map(|n| format!("{n}=1")).collect::<Vec<_>>().join("&");
    let rq = Rq { query: Some(q), headers: rs.headers[1..].to_vec(), ..get() };
    let below = |e: &Ex| [exact_p(), e.below(text, &rq, &rs)].concat();
    // what it is not
    let all: Vec<String> = names.to_vec();
    let mut others = vec![Ex::Skip, original.clone()];
    for l in [vec![], all.clone()] {
        for w in [Which::Only(l.clone()), Which::Except(l.clone())] {
            others.push(Ex::Only(w.clone()));
            others.push(Ex::Full(l.clone(), vec![], w.clone()));
            others.push(Ex::Full(vec![], l.clone(), w));
        }
    }
    // what it was, in part
    let (hs, qs, w) = match original {
        Ex::Full(h, q, w) => (h.clone(), q.clone(), Some(w)),
        Ex::Only(w) => (vec![], vec![], Some(w)),
        Ex::Skip => (vec![], vec![], None),
    };
    if let Some(w) = w.filter(|_| parts) {
        let l = match w {
            Which::Only(l) | Which::Except(l) => l,
        };
        for w in [Which::Only(vec![]), Which::Except(vec![]), Which::Only(l.clone()), Which::Except(l.clone())] {
            others.push(Ex::Only(w.clone()));
            for (h, q) in [(vec![], vec![]), (hs.clone(), vec![]), (vec![], qs.clone()), (hs.clone(), qs.clone())] {
                others.push(Ex::Full(h, q, w.clone()));
            }
        }
    }
    let (paths, want): (Vec<Path>, Option<bool>) = match (&says, nd::choice(2)) {
        (Some(e), 0) => (vec![below(e)], if rd.odd { None } else { Some(true) }),
        (Some(e), _) => {
            let mine = below(e);
            // skipping is accepted wherever the expression's hash is
            if matches!(e, Ex::Skip) {
                return;
            }
            let p: Vec<Path> = others.iter().filter(|o| !matches!(o, Ex::Skip) && !same_meaning(o, e)).map(below).filter(|p| p[..] != mine[..]).collect();
            (p, if rd.odd { None } else { Some(false) })
        }
        (None, _) => (others.iter().filter(|o| !matches!(o, Ex::Skip)).map(below).collect(), if rd.odd { None } else { Some(false) }),
    };
    let t = build(&paths);
    let i = show(&t, &exact_p(), &rq, "/p", &rs);
    if let Some(w) = want {
        nd::check(i.is_some() == w, if w { "an expression is not read as what it says" } else { "a text is read as an expression that it is not" });
        if let (Some(i), Some(e)) = (i, &says) {
            shown(&i, &rs, e);
        }
    }
}
fn cel_text(n: usize) {
    let b = nd::bytes(nd::range(0, n));
    let Ok(s) = String::from_utf8(b) else { return };
    cel(&s, &Ex::Skip, &[]);
}
fn c23_text() {
    cel_text(3)
}
fn c23_text_t() {
    cel_text(4)
}
/// one character of an expression changed, added or removed
fn changed(e: &Ex, text: &str) {
    let mut b = text.as_bytes().to_vec();
    let i = nd::choice(b.len() + 1);
    let c = nd::u8();
    nd::assume(c < 128);
    match nd::choice(3) {
        0 => b.insert(i, c),
        1 => {
            nd::assume(i < b.len());
            b[i] = c
        }
        _ => {
            nd::assume(i < b.len());
            b.remove(i);
        }
    }
    let s = String::from_utf8(b).unwrap();
    let mut names: Vec<String> = vec!["a".into(), "b-".into()];
    let token = (c >= b'a') & (c <= b'z') | (c >= b'0') & (c <= b'9') | (c == b'_') | (c == b'-') | (c == b'.');
    if token {
        names.push((c as char).to_string());
        names.push(format!("a{}", c as char));
    }
    cel(&s, e, &names);
}
/// many long names
fn c23_many() {
    let mut l: Vec<String> = (0..70).map(|i| format!("x-{i}")).collect();
    l.push("n".repeat(300));
    let e = if nd::choice(2) == 0 { Ex::Only(Which::Only(l)) } else { Ex::Full(l[..66].to_vec(), l, Which::Except(vec![])) };
    let text = e.text();
    let mut b = text.as_bytes().to_vec();
    // at the end, and in the last name
    let i = b.len() - nd::pick(&[1, 5, 7, 10, 12, 50, 120, 350]);
    b[i] = nd::ascii(1).as_bytes()[0];
    cel(&String::from_utf8(b).unwrap(), &e, &["x-0".into(), "n".repeat(300)]);
}
fn c23_skip() {
    changed(&Ex::Skip, &Ex::Skip.text())
}
fn c23_only() {
    let e = Ex::Only(Which::Only(vec!["a".into()]));
    changed(&e, &e.text())
}
fn c23_except() {
    let e = Ex::Only(Which::Except(vec!["a".into(), "b-".into()]));
    changed(&e, &e.text())
}
fn c23_full_t() {
    let e = Ex::Full(vec!["a".into()], vec!["b-".into(), "a".into()], Which::Only(vec!["b-".into()]));
    changed(&e, &e.text())
}
fn c23_spaced_t() {
    let e = Ex::Full(vec!["a".into()], vec![], Which::Except(vec!["b-".into()]));
    let s = e.text().replace('(', " (\n").replace('{', " {\t").replace('}', " }").replace(',', " ,\r\n").replace(':', " : ").replace('[', "[ ").replace(']', " ]").replace(')', "\n)");
    changed(&e, &s)
}
/// the parts of an expression, so that they can be left out, doubled, renamed and exchanged
fn parsed(e: &Ex) -> V {
    let t = e.text();
    Cel { b: t.as_bytes(), i: 0, odd: false }.value().unwrap()
}
fn printed(v: &V) -> String {
    let utf = |b: &[u8]| String::from_utf8(b.to_vec()).unwrap();
    match v {
        V::Str(s) => format!("\"{}\"", utf(s)),
        V::Arr(l) => format!("[{}]", l.iter().map(printed).collect::<Vec<_>>().join(",")),
        V::Obj(n, l) => format!("{}{{{}}}", utf(n), l.iter().map(|(k, v)| format!("{}:{}", utf(k), printed(v))).collect::<Vec<_>>().join(",")),
        V::Fun(n, l) => format!("{}({})", utf(n), l.iter().map(printed).collect::<Vec<_>>().join(",")),
    }
}
const NAMES: &[&str] = &[
    "",
    "headers",
    "no_certification",
    "certification",
    "no_request_certification",
    "request_certification",
    "response_certification",
    "certified_request_headers",
    "certified_query_parameters",
    "certified_response_headers",
    "response_header_exclusions",
    "Empty",
    "ResponseHeaderList",
    "ResponseCertification",
    "RequestCertification",
    "Certification",
    "ValidationArgs",
    "default_certification",
];
/// the n-th part is changed; what is left of n if it has fewer
fn change_part(v: &mut V, n: &mut usize, less: bool) -> bool {
    if *n == 0 {
        let name = |b: &mut Vec<u8>| *b = nd::pick(NAMES).as_bytes().to_vec();
        match (if less { 2 } else { nd::choice(6) }, &mut *v) {
            (0, V::Obj(n, _) | V::Fun(n, _)) => name(n),
            (1, V::Obj(_, l)) => {
                let i = nd::choice(l.len());
                name(&mut l[i].0)
            }
            (2, V::Obj(_, l)) => {
                let i = nd::choice(l.len());
                match if less { nd::choice(2) * 2 } else { nd::choice(3) } {
                    0 => drop(l.remove(i)),
                    1 => {
                        let k = (nd::pick(NAMES).as_bytes().to_vec(), V::Obj(b"Empty".to_vec(), vec![]));
                        l.insert(i, k)
                    }
                    _ => l.reverse(),
                }
            }
            (2, V::Arr(l) | V::Fun(_, l)) => {
                let i = nd::choice(l.len() + 1);
                match if less { 0 } else { nd::choice(3) } {
                    0 if i < l.len() => drop(l.remove(i)),
                    1 => l.insert(i, V::Str(b"a".to_vec())),
                    2 => l.insert(i, V::Arr(vec![])),
                    _ => return true,
                }
            }
            (3, _) => *v = V::Str(b"a".to_vec()),
            (4, _) => *v = V::Arr(vec![]),
            (5, v) => {
                let name = nd::pick(NAMES).as_bytes().to_vec();
                *v = if nd::choice(2) == 0 { V::Obj(name, vec![]) } else { V::Fun(name, vec![]) }
            }
            _ => nd::assume(false),
        }
        return true;
    }
    *n -= 1;
    match v {
        V::Str(_) => false,
        V::Arr(l) | V::Fun(_, l) => l.iter_mut().any(|x| change_part(x, n, less)),
        V::Obj(_, l) => l.iter_mut().any(|x| change_part(&mut x.1, n, less)),
    }
}
fn parts(e: &[Ex], changes: usize) {
    let e = &e[nd::choice(e.len())];
    let mut v = parsed(e);
    for k in 0..changes {
        let mut n = nd::choice(16);
        nd::assume(change_part(&mut v, &mut n, k > 0));
    }
    cel_of(&printed(&v), e, &["a".into(), "b-".into()], true)
}
fn an(l: &[&str]) -> Vec<String> {
    l.iter().map(|x| x.to_string()).collect()
}
fn c23_parts() {
    let e = [Ex::Skip, Ex::Only(Which::Except(an(&["a"]))), Ex::Full(an(&["a"]), an(&["b-"]), Which::Only(an(&["b-"])))];
    parts(&e, 1)
}
fn c23_parts_t() {
    parts(&[Ex::Only(Which::Only(an(&["a"]))), Ex::Full(vec![], an(&["b-", "a"]), Which::Except(vec![]))], 2)
}
/// nested beyond any sense
fn c23_nesting() {
    let n = nd::pick(&[5, 70, 1000, 30000]);
    let open = nd::pick(&["[", "f(", "a{b:", "{a:", "default_certification("]);
    let close = match open.as_bytes()[open.len() - 1] {
        b'[' => "]",
        b'(' => ")",
        _ => "}",
    };
    let mut s = open.repeat(n);
    if nd::choice(2) == 1 {
        s += "\"\"";
        s += &close.repeat(n);
    }
    if nd::choice(2) == 1 {
        s = format!("default_certification(ValidationArgs{{no_certification:Empty{{}},x:{s}}})");
    }
    let rs = Rs { status: 200, headers: vec![(EXPR.into(), s)], body: vec![] };
    // no crash; the meaning of unknown properties is not settled
    let t = build(&[exact_p()]);
    nd::check(show(&t, &exact_p(), &get(), "/p", &rs).is_none(), "a response is accepted that is not certified");
}

// ---- C24
fn token(n: usize) -> String {
    let b = nd::bytes(n);
    for c in &b {
        let mut ok = (*c >= b'a') & (*c <= b'z') | (*c >= b'A') & (*c <= b'Z') | (*c >= b'0') & (*c <= b'9');
        for s in b"!#$%&'*+-.^_`|~" {
            ok |= c == s;
        }
        nd::assume(ok);
    }
    String::from_utf8(b).unwrap()
}
fn param(n: usize) -> String {
    let b = nd::bytes(n);
    for c in &b {
        let mut ok = (*c >= b'a') & (*c <= b'z') | (*c >= b'A') & (*c <= b'Z') | (*c >= b'0') & (*c <= b'9');
        for s in b"-._~!$'()*+,;:@/?%" {
            ok |= c == s;
        }
        nd::assume(ok);
    }
    String::from_utf8(b).unwrap()
}
fn real_text(e: &Ex) -> String {
    use ic_http_certification::DefaultCelBuilder as B;
    match e {
        Ex::Skip => B::skip_certification().to_string(),
        Ex::Only(w) => B::response_only_certification().with_response_certification(w.real()).build().to_string(),
        Ex::Full(h, p, w) => {
            let (h, p) = (refs(h), refs(p));
            B::full_certification().with_request_headers(h).with_request_query_parameters(p).with_response_certification(w.real()).build().to_string()
        }
    }
}
/// the expression the server writes is read by the verifier as the definition it was made from
fn read_back(e: &Ex, rq: &Rq, hs: Hs) {
    let text = real_text(e);
    let mut rs = Rs { status: 200, headers: hs, body: vec![] };
    rs.headers.push((EXPR.into(), text.clone()));
    let t = build(&[[exact_p(), e.below(&text, rq, &rs)].concat()]);
    match show(&t, &exact_p(), rq, "/p", &rs) {
        Some(i) => shown(&i, &rs, e),
        None => nd::check(false, "the verifier does not read an expression as the server wrote it"),
    }
}
fn some(n: usize, one: &dyn Fn() -> String) -> Vec<String> {
    (0..nd::range(0, n)).map(|_| one()).collect()
}
fn c24_only() {
    let l = some(2, &|| token(1));
    let w = if nd::choice(2) == 0 { Which::Only(l.clone()) } else { Which::Except(l.clone()) };
    let mut hs: Hs = l.iter().map(|n| (n.clone(), "1".into())).collect();
    hs.push(("a".into(), "2".into()));
    read_back(&Ex::Only(w), &get(), hs)
}
fn c24_request() {
    let (h, p) = (some(1, &|| token(1)), some(2, &|| param(1)));
    let mut rq = Rq { query: Some(p.iter().map(|n| format!("{n}=1")).chain(["a=2".to_string()]).collect::<Vec<_>>().join("&")), ..get() };
    rq.headers = h.iter().map(|n| (n.clone(), "1".into())).collect();
    rq.headers.push(("a".into(), "2".into()));
    if nd::choice(8) == 0 {
        return read_back(&Ex::Skip, &rq, vec![]);
    }
    read_back(&Ex::Full(h, p, Which::Only(vec![])), &rq, vec![])
}
/// very many and very long names
fn c24_large() {
    let m = very_many();
    let e = match &m.ex {
        Ex::Full(_, _, w) if nd::choice(2) == 0 => Ex::Only(w.clone()),
        e => e.clone(),
    };
    read_back(&e, &m.rq, m.rs.headers)
}
/// many and long names, one character of which is arbitrary
fn c24_long() {
    let n = nd::pick(&[1, 3, 12]);
    let mut l: Vec<String> = (0..n).map(|i| format!("X-Some-Longer-Header-Name-{i}")).collect();
    let i = nd::choice(n);
    l[i] = format!("x-{}-y", token(1));
    let hs: Hs = l.iter().map(|n| (n.clone(), "1".into())).chain([("x-y".to_string(), "1".to_string())]).collect();
    let w = if nd::choice(2) == 0 { Which::Only(l.clone()) } else { Which::Except(l.clone()) };
    let e = match nd::choice(2) {
        0 => Ex::Only(w),
        _ => Ex::Full(l[..n - 1].to_vec(), vec![format!("par-{}", param(1)), "q".into()], w),
    };
    let rq = Rq { query: Some("par-a=1&par-~=2&q=3&r=4".into()), headers: hs.clone(), ..get() };
    read_back(&e, &rq, hs)
}
fn c24_names_t() {
    let l = some(2, &|| token(2));
    let hs = l.iter().map(|n| (n.clone(), "1".into())).collect();
    let w = if nd::choice(2) == 0 { Which::Only(l) } else { Which::Except(l) };
    read_back(&Ex::Full(vec![token(1)], vec![param(1)], w), &get(), hs)
}

// ---- C35
/// a server certifies a response with this repository's tools; a client verifies it
fn honest(e: &Ex, entry: &P, wild: bool, u: &P, rq: &Rq, rs: &Rs, more: Option<&(P, bool)>) {
    use ic_http_certification::utils::add_v2_certificate_header;
    use ic_http_certification::*;
    let text = real_text(e);
    let mut rs = rs.clone();
    let at = nd::choice(2) * rs.headers.len();
    rs.headers.insert(at, (EXPR.into(), text.clone()));
    let (request, mut response) = (rq.at(&u.url()), rs.real());
    let c = match e {
        Ex::Skip => Ok(HttpCertification::skip()),
        Ex::Only(w) => HttpCertification::response_only(&DefaultCelBuilder::response_only_certification().with_response_certification(w.real()).build(), &response, None),
        Ex::Full(h, p, w) => HttpCertification::full(
            &DefaultCelBuilder::full_certification().with_request_headers(refs(h)).with_request_query_parameters(refs(p)).with_response_certification(w.real()).build(),
            &request,
            &response,
            None,
        ),
    };
    let Ok(c) = c else { return nd::check(false, "an honest server cannot certify its response") };
    let at = |p: &P, wild: bool| {
        if wild {
            HttpCertificationPath::wildcard(p.url())
        } else {
            HttpCertificationPath::exact(p.url())
        }
    };
    let path = at(entry, wild);
    let me = HttpCertificationTreeEntry::new(path.clone(), c);
    let mut t = HttpCertificationTree::default();
    if let Some((p, w)) = more {
        t.insert(&HttpCertificationTreeEntry::new(at(p, *w), HttpCertification::skip()));
    }
    t.insert(&me);
    let Ok(w) = t.witness(&me, &u.url()) else { return nd::check(false, "no witness for a certified path that covers the URL") };
    let cert = signed(&state(&[1], &t.root_hash()));
    add_v2_certificate_header(&cert, &mut response, &w, &path.to_expr_path());
    nd::check(response.headers().len() == rs.headers.len() + 1, "adding the certificate header changes the other headers");
    let r = Rs { headers: response.headers().to_vec(), ..rs.clone() };
    // another entry may be more specific
    let hidden = more.is_some_and(|(p, w)| {
        if !wild {
            return false;
        }
        if !*w {
            return p.tree() == u.tree();
        }
        let l = wildcards(u);
        let pos = |x: &P| l.iter().position(|q| *q == x.tree());
        pos(p).is_some_and(|i| Some(i) < pos(entry))
    });
    match call(rq, &u.url(), &r, &[1], 2) {
        Some(i) => {
            nd::check(!hidden, "a response is accepted though a more specific path is certified");
            shown(&i, &rs, e)
        }
        None => nd::check(hidden, "an honest response is rejected"),
    }
}
fn c35_response() {
    let e = match nd::choice(3) {
        0 => Ex::Skip,
        1 => Ex::Only(Which::any(1, b"aB")),
        _ => Ex::Full(vec![], vec![], Which::any(1, b"aB")),
    };
    let rs = Rs { status: status(), headers: headers(2, b"aAb"), body: nd::bytes(nd::range(0, 2)) };
    honest(&e, &at_p(), false, &at_p(), &get(), &rs, None);
}
fn c35_request() {
    let e = Ex::Full(names(1, b"aB"), names(2, b"aq"), Which::Except(vec![]));
    let rq = Rq {
        method: nd::pick(&["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH"]),
        query: if nd::choice(2) == 0 { None } else { Some(nd::chars(nd::range(0, 2), b"aq=&%+")) },
        headers: headers(1, b"aAb"),
        body: nd::bytes(nd::range(0, 1)),
    };
    honest(&e, &at_p(), false, &at_p(), &rq, &Rs { status: 200, headers: vec![], body: vec![] }, None);
}
fn on_path(n: usize, m: usize) {
    let e = any_kind();
    let wild = nd::choice(2) == 1;
    let p = P::any(n, &letter);
    let u = if wild { P::any(m, &letter) } else { p.clone() };
    nd::assume(!wild || p.covers(&u));
    let other = (P::any(n, &letter), nd::choice(2) == 1);
    honest(&e, &p, wild, &u, &get(), &Rs { status: 200, headers: vec![], body: vec![] }, Some(&other));
}
fn c35_path() {
    on_path(1, 2)
}
fn c35_both_t() {
    on_path(2, 3)
}
/// names and values of any characters
fn c35_anyname() {
    let l = vec![nd::token(nd::range(1, 2))];
    let e = match nd::choice(3) {
        0 => Ex::Only(Which::Only(l)),
        1 => Ex::Only(Which::Except(l)),
        _ => Ex::Full(l, vec![nd::param(1), "some-param".into()], Which::Except(vec![])),
    };
    let h = vec![(nd::token(nd::range(1, 2)), nd::value(nd::range(0, 2)))];
    // the caller's own certificate header is none of this
    nd::assume(lower(&h[0].0) != lower(CERT));
    let rq = Rq { query: Some(format!("{}=x&Some-param={}", nd::param(1), nd::query(1))), headers: h.clone(), ..get() };
    honest(&e, &at_p(), false, &at_p(), &rq, &Rs { status: 200, headers: h, body: vec![] }, None);
}
fn c35_anypath() {
    let wild = nd::choice(2) == 1;
    let k = nd::range(1, 2);
    let seg = || nd::segment(3 - k);
    let p = P::any(k, &seg);
    let mut u = p.clone();
    if wild {
        if u.dir {
            u.dir = false
        } else {
            u.seg.push(seg())
        }
        if u.seg.is_empty() {
            u.seg.push(seg())
        }
    }
    nd::assume(!wild || p.covers(&u));
    honest(&Ex::Skip, &p, wild, &u, &get(), &Rs { status: 200, headers: vec![], body: vec![] }, None);
}
/// deep URLs with other entries around them
fn c35_deep() {
    let p = |n: usize, dir| P { seg: ["a", "b", "c", "d", "e"][..n].iter().map(|x| x.to_string()).collect(), dir };
    let n = nd::range(3, 5);
    let u = p(n, nd::choice(2) == 1);
    let k = nd::range(0, n);
    let e = p(k, k == 0 || nd::choice(2) == 1);
    nd::assume(e.covers(&u));
    let k = nd::range(0, n);
    let mut o = (p(k, k == 0 || nd::choice(2) == 1), nd::choice(2) == 1);
    if k > 0 && nd::choice(2) == 1 {
        o.0.seg[k - 1] = nd::segment(1);
    }
    honest(&Ex::Skip, &e, true, &u, &get(), &Rs { status: 200, headers: vec![], body: vec![] }, Some(&o));
}
/// large responses and requests
fn c35_large() {
    let m = very_many();
    let mut rs = m.rs.clone();
    let mut rq = m.rq.clone();
    match nd::choice(3) {
        0 => one_char(&mut rs.headers),
        1 => {
            rs.body = vec![5; nd::pick(&[65537, 2000001])];
            rq.headers.truncate(2);
            rs.headers.truncate(2);
        }
        _ => {
            rq.method = "POST";
            rq.body = vec![6; nd::pick(&[65537, 2000001])];
        }
    }
    honest(&m.ex, &at_p(), false, &at_p(), &rq, &rs, None);
}
/// paths of many and of long segments
/// a server that certifies nothing says so once, for every URL
fn c35_skip() {
    use ic_http_certification::utils::*;
    let mut data = skip_certification_certified_data();
    let k = nd::choice(33);
    if k < 32 {
        data[k] ^= nd::u8();
    }
    let honest = data == skip_certification_certified_data();
    let rs = Rs { status: status(), headers: headers(1, b"aAb"), body: nd::bytes(nd::range(0, 2)) };
    let mut r = rs.real();
    add_skip_certification_header(signed(&state(&[1], &data)), &mut r);
    nd::check(r.headers().len() == rs.headers.len() + 2 && r.headers()[..rs.headers.len()] == rs.headers && r.body() == rs.body && r.status_code().as_u16() == rs.status, "declaring that nothing is certified changes the response");
    let rq = Rq { method: nd::pick(&["GET", "POST"]), query: if nd::choice(2) == 0 { None } else { Some("a=b".into()) }, headers: vec![], body: vec![] };
    let u = match nd::choice(4) {
        0 => "/".to_string(),
        1 => format!("/{}", nd::segment(1)),
        2 => format!("/a/{}/", nd::segment(1)),
        _ => format!("https://x.icp0.io/{}/{}", nd::segment(1), "b".repeat(300)),
    };
    match call(&rq, &u, &Rs { headers: r.headers().to_vec(), ..rs.clone() }, &[1], nd::pick(&[1, 2])) {
        Some(i) => {
            nd::check(honest, "certification is skipped though the canister certifies other data");
            shown(&i, &rs, &Ex::Skip)
        }
        None => nd::check(!honest, "an honest response is rejected"),
    }
}
fn c35_far() {
    let (u, e, o) = far();
    nd::assume(e.0.covers(&u));
    honest(&Ex::Skip, &e.0, true, &u, &get(), &Rs { status: 200, headers: vec![], body: vec![] }, Some(&o));
}
