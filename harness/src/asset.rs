//! C31 to C34: the asset router.
use crate::http::*;
use crate::rv::{self, parse, state};
use crate::rih::same;
use ic_asset_certification::*;
use ic_http_certification::*;

harnesses! {
    c31_paths c31_config c31_status c31_names c31_url c31_patterns c31_paths_t c31_query c31_any c31_many
    c32_accept c32_text c32_fallback c32_accept_t c32_name c32_weight
    c33_range c33_outside c33_text c33_small c33_encoded c33_text_t c33_name c33_fallback
    c34_history c34_large c34_config c34_history_t c34_any c34_replace
}
type Hs = Vec<(String, String)>;
const CHUNK: usize = 2_000_000;
const ENC: [(&str, AssetEncoding); 5] = [
    ("br", AssetEncoding::Brotli),
    ("zstd", AssetEncoding::Zstd),
    ("gzip", AssetEncoding::Gzip),
    ("deflate", AssetEncoding::Deflate),
    ("identity", AssetEncoding::Identity),
];

/// an asset and how it is configured
#[derive(Clone, Default)]
struct F {
    path: String,
    body: Vec<u8>,
    /// the pattern it is configured by, or its own path
    pattern: Option<String>,
    content_type: Option<String>,
    headers: Hs,
    fallback: Vec<(String, Option<u16>)>,
    alias: Vec<String>,
    /// encoded versions: index into ENC, file extension, content
    enc: Vec<(usize, String, Vec<u8>)>,
    configured: bool,
}
impl F {
    fn new(path: &str, body: &[u8]) -> F {
        F { path: path.into(), body: body.into(), configured: true, ..F::default() }
    }
    fn assets(&self) -> Vec<Asset<'static, 'static>> {
        let mut v = vec![Asset::new(self.path.clone(), self.body.clone())];
        for (_, ext, b) in &self.enc {
            v.push(Asset::new(format!("{}{ext}", self.path), b.clone()));
        }
        v
    }
    fn config(&self) -> Option<AssetConfig> {
        let encodings = self.enc.iter().map(|e| ENC[e.0].1.custom_config(e.1.clone())).collect();
        if !self.configured {
            return None;
        }
        Some(match &self.pattern {
            Some(p) => AssetConfig::Pattern { pattern: p.clone(), content_type: self.content_type.clone(), headers: self.headers.clone(), encodings },
            None => AssetConfig::File {
                path: self.path.clone(),
                content_type: self.content_type.clone(),
                headers: self.headers.clone(),
                fallback_for: self.fallback.iter().map(|f| AssetFallbackConfig { scope: f.0.clone(), status_code: f.1.map(|s| StatusCode::from_u16(s).unwrap()) }).collect(),
                aliased_by: self.alias.clone(),
                encodings,
            },
        })
    }
    fn url(&self) -> String {
        if self.path.starts_with('/') {
            self.path.clone()
        } else {
            format!("/{}", self.path)
        }
    }
}
#[derive(Clone)]
struct Redirect {
    from: String,
    to: String,
    permanent: bool,
}
#[derive(Clone, Default)]
struct Site {
    files: Vec<F>,
    redirects: Vec<Redirect>,
}
/// what stands at a place: the encoding's index (5 for none) and the response without the headers of certification
struct Entry {
    at: String,
    enc: usize,
    rs: Rs,
}
impl Site {
    fn assets(&self) -> Vec<Asset<'static, 'static>> {
        self.files.iter().flat_map(|f| f.assets()).collect()
    }
    fn configs(&self) -> Vec<AssetConfig> {
        let mut v: Vec<AssetConfig> = self.files.iter().filter_map(|f| f.config()).collect();
        for r in &self.redirects {
            let kind = if r.permanent { AssetRedirectKind::Permanent } else { AssetRedirectKind::Temporary };
            v.push(AssetConfig::Redirect { from: r.from.clone(), to: r.to.clone(), kind });
        }
        v
    }
    fn router(&self) -> Option<AssetRouter<'static>> {
        let mut r = AssetRouter::default();
        r.certify_assets(self.assets(), self.configs()).ok()?;
        Some(r)
    }
    /// what is certified: exactly at a URL, and as a fallback for a scope
    fn entries(&self) -> (Vec<Entry>, Vec<Entry>) {
        let (mut exact, mut fall) = (vec![], vec![]);
        for f in &self.files {
            let mut versions: Vec<(usize, &Vec<u8>)> = vec![(5, &f.body)];
            versions.extend(f.enc.iter().map(|e| (e.0, &e.2)));
            for (enc, body) in versions {
                let mut h = f.headers.clone();
                h.push(("content-length".into(), body.len().to_string()));
                if let Some(t) = &f.content_type {
                    h.push(("content-type".into(), t.clone()));
                }
                if enc < 5 {
                    h.push(("content-encoding".into(), ENC[enc].0.into()));
                }
                let rs = |status| Rs { status, headers: h.clone(), body: body.clone() };
                exact.push(Entry { at: f.url(), enc, rs: rs(200) });
                for a in &f.alias {
                    exact.push(Entry { at: a.clone(), enc, rs: rs(200) });
                }
                for (s, c) in &f.fallback {
                    fall.push(Entry { at: s.clone(), enc, rs: rs(c.unwrap_or(200)) });
                }
            }
            // an encoded version is an asset of its own, too
            for (_, ext, body) in &f.enc {
                if !ext.is_empty() {
                    let p = self.files.iter().find(|g| g.path == format!("{}{ext}", f.path));
                    if p.is_none() {
                        let mut h: Hs = vec![("content-length".into(), body.len().to_string())];
                        if f.pattern.as_deref() == Some("**/*") {
                            h.extend(f.headers.clone());
                            if let Some(t) = &f.content_type {
                                h.push(("content-type".into(), t.clone()));
                            }
                        }
                        exact.push(Entry { at: format!("{}{ext}", f.url()), enc: 5, rs: Rs { status: 200, headers: h, body: body.clone() } });
                    }
                }
            }
        }
        for r in &self.redirects {
            let h = vec![("content-length".into(), "0".into()), ("location".into(), r.to.clone())];
            exact.push(Entry { at: r.from.clone(), enc: 5, rs: Rs { status: if r.permanent { 301 } else { 307 }, headers: h, body: vec![] } });
        }
        (exact, fall)
    }
    /// no two things are certified at the same place
    fn clear(&self) -> bool {
        let (a, b) = self.entries();
        let once = |l: &[Entry]| l.iter().enumerate().all(|(i, x)| l[..i].iter().all(|y| x.enc != y.enc || x.at != y.at));
        once(&a) && once(&b)
    }
    /// everything that may be served for a path, by encoding
    fn at(&self, path: &str) -> Vec<(usize, Rs)> {
        let (exact, fall) = self.entries();
        let of = |l: &[Entry], p: &str| l.iter().filter(|e| e.at == p).map(|e| (e.enc, e.rs.clone())).collect::<Vec<_>>();
        let o = of(&exact, path);
        if !o.is_empty() {
            return o;
        }
        // empty segments have no meaning
        let mut short = String::new();
        for c in path.chars() {
            if c != '/' || !short.ends_with('/') {
                short.push(c)
            }
        }
        let path = short.as_str();
        let o = of(&exact, path);
        if !o.is_empty() {
            return o;
        }
        // the scopes of the path, the most specific one first
        let o = of(&fall, path);
        if !o.is_empty() {
            return o;
        }
        let mut p = path;
        while let Some(i) = p.rfind('/') {
            for s in [&p[..i + 1], &p[..i]] {
                let o = of(&fall, s);
                if !o.is_empty() {
                    return o;
                }
            }
            p = &p[..i];
        }
        vec![]
    }
}
/// the response to a request is one of these; it verifies, and it shows the headers and the body it should
fn fits(router: &AssetRouter<'static>, url: &str, rq: &Rq, want: &[Rs]) -> Option<Rs> {
    let cert = rv::signed(&state(&[1], &router.root_hash()));
    let q = rq.at(url);
    let r = match router.serve_asset(&cert, &q) {
        Ok(r) => r,
        Err(_) => {
            nd::cover("nothing");
            nd::check(want.is_empty(), "an asset is not served");
            return None;
        }
    };
    nd::check(!want.is_empty(), "something is served where nothing is certified");
    nd::cover("served");
    let all = r.headers().to_vec();
    let count = |n: &str| all.iter().filter(|h| lower(&h.0) == lower(n)).count();
    nd::check(count(CERT) == 1 && count(EXPR) == 1, "a served response does not carry its certificate and its expression once");
    let shown: Hs = all.iter().filter(|h| lower(&h.0) != lower(CERT) && lower(&h.0) != lower(EXPR)).map(|h| (lower(&h.0), h.1.clone())).collect();
    let rs = Rs { status: r.status_code().as_u16(), headers: all.clone(), body: r.body().to_vec() };
    let fit = want.iter().find(|w| {
        let h: Hs = w.headers.iter().map(|h| (lower(&h.0), h.1.clone())).collect();
        w.status == rs.status && w.body == rs.body && same(&h, &shown)
    });
    nd::check(fit.is_some(), "another response is served than the one configured");
    let query = rq.query.is_some();
    match rv::call(rq, url, &rs, &[1], 2) {
        Some(i) => {
            let Some(v) = i.response else { nd::check(false, "a served response is not certified"); return None };
            let n = v.headers.iter().filter(|h| lower(&h.0) != lower(CERT)).count();
            nd::check(n + 1 == all.len() && v.body == rs.body, "a part of a served response is not certified");
        }
        None if query => nd::cover("FINDING c31-query"),
        None => nd::check(false, "a served response does not verify"),
    }
    Some(rs)
}
fn ask(router: &AssetRouter<'static>, url: &str, headers: Hs, want: &[Rs]) -> Option<Rs> {
    fits(router, url, &Rq { method: "GET", query: None, headers, body: vec![] }, want)
}
/// only unencoded assets are asked for
fn plain(site: &Site, path: &str) -> Vec<Rs> {
    site.at(path).into_iter().filter(|x| x.0 == 5).map(|x| x.1).collect()
}
fn ab() -> String {
    nd::chars(1, b"ab")
}

// ---- C31
fn paths(n: usize, url: usize) {
    let a = P::any(n, &ab).url();
    let b = P::any(n, &ab).url();
    let mut f = F::new(&a, b"A");
    let mut g = F::new(if nd::choice(2) == 0 { &b } else { &b[1..] }, b"B");
    let which = nd::choice(5);
    // the empty scope is the root's
    let extra = if (1..4).contains(&which) && nd::choice(4) == 0 { String::new() } else { P::any(n, &ab).url() };
    match which {
        0 => f.alias.push(extra),
        1 => f.fallback.push((extra, Some(404))),
        2 => {
            f.fallback.push((extra, None));
            g.fallback.push(("/".into(), Some(404)));
        }
        3 => {
            f.configured = false;
            g.fallback.push((extra, Some(200)));
        }
        _ => {
            let site = Site { files: vec![f], redirects: vec![Redirect { from: b, to: extra, permanent: nd::choice(2) == 1 }] };
            nd::assume(site.clear());
            return look(&site, &P::any(url, &ab));
        }
    }
    let site = Site { files: vec![f, g], redirects: vec![] };
    nd::assume(site.clear());
    look(&site, &P::any(url, &ab));
}
fn look(site: &Site, u: &P) {
    match site.router() {
        Some(r) => {
            ask(&r, &u.url(), vec![], &plain(site, &u.url()));
        }
        None => nd::check(false, "assets cannot be certified"),
    }
}
fn c31_paths() {
    paths(1, 2)
}
fn c31_paths_t() {
    paths(2, 2)
}
/// headers, content types, status codes, contents
fn c31_config() {
    let url = nd::pick(&["/a", "/c", "/d/", "/d", "/r", "/x/y", "/"]);
    let mut f = F::new("a", &[1]);
    f.alias = vec!["/c".into(), "/d/".into()];
    let mut red = Redirect { from: "/r".into(), to: "/x".into(), permanent: true };
    if url == "/r" {
        red = Redirect { from: "/r".into(), to: nd::ascii(nd::range(0, 2)), permanent: nd::choice(2) == 1 };
    } else {
        f.body = nd::bytes(nd::range(0, 2));
        f.headers = headers(1, b"aAb");
        f.content_type = if nd::choice(2) == 0 { None } else { Some(nd::ascii(1)) };
        f.fallback.push(("/".into(), nd::pick(&[None, Some(404)])));
    }
    let site = Site { files: vec![f], redirects: vec![red] };
    let Some(r) = site.router() else { return nd::check(false, "assets cannot be certified") };
    ask(&r, url, vec![], &plain(&site, url));
}
/// every status code of fallbacks
fn c31_status() {
    let mut f = F::new("a", b"A");
    let s = status();
    f.fallback.push(("/".into(), if nd::choice(2) == 0 { None } else { Some(s) }));
    let site = Site { files: vec![f], redirects: vec![] };
    let Some(r) = site.router() else { return nd::check(false, "assets cannot be certified") };
    let u = nd::pick(&["/a", "/b/c"]);
    ask(&r, u, vec![], &plain(&site, u));
}
/// unusual characters in the names of assets, requested in percent encoding
fn c31_names() {
    let c = nd::u8();
    nd::assume(c >= 0x20 && c < 0x7f);
    let name = format!("a{}b", c as char);
    let mut f = F::new(&name, b"A");
    if nd::choice(2) == 1 {
        f = F::new("x", b"A");
        f.alias.push(format!("/{name}"));
    }
    if nd::choice(2) == 1 {
        f.fallback.push(("/".into(), None));
    }
    let site = Site { files: vec![f], redirects: vec![] };
    // names that no URL can hold may be refused
    let Some(r) = site.router() else { return nd::cover("refused") };
    let hex = |d: u8| (if d < 10 { b'0' + d } else { b'a' + d - 10 }) as char;
    let url = format!("/a%{}{}b", hex(c >> 4), hex(c & 15));
    ask(&r, &url, vec![], &plain(&site, &format!("/{name}")));
}
/// the spelling of the requested URL
fn c31_url() {
    let mut f = F::new("a", b"A");
    f.fallback.push(("/a/".into(), None));
    f.alias.push("/".into());
    let site = Site { files: vec![f, F::new("a/a", b"B")], redirects: vec![] };
    let url = format!("/{}", nd::chars(nd::range(0, 4), b"/a%2fF61"));
    let Some(_) = parse(&url) else { return };
    let Some(r) = site.router() else { return nd::check(false, "assets cannot be certified") };
    let q = HttpRequest::get(url.clone()).build();
    let Ok(p) = q.get_path() else { return nd::check(false, "a URL is not understood") };
    ask(&r, &url, vec![], &plain(&site, &p));
}
/// the first configuration that matches counts
fn c31_patterns() {
    let pats = ["*.js", "**/*.js", "a/*", "a/**", "**", "b.{js,css}", "[ab].js", "?.js", "/a/b.js"];
    let i = nd::choice(pats.len());
    let j = nd::choice(pats.len());
    let p = nd::pick(&["b.js", "a/b.js", "a/c/b.js", "/a/b.js", "b.css", "a.js"]);
    // by hand: which names does a pattern match (a star also matches a slash)
    let hit = |k: usize| match k {
        0 => p.ends_with(".js"),
        1 => p.ends_with(".js"),
        2 | 3 => p.starts_with("a/"),
        4 => true,
        5 => p == "b.js" || p == "b.css",
        6 => p == "b.js" || p == "a.js",
        7 => p == "b.js" || p == "a.js",
        _ => p == "/a/b.js",
    };
    let conf = |k: usize, t: &str| AssetConfig::Pattern { pattern: pats[k].into(), content_type: Some(t.into()), headers: vec![("x".into(), t.into())], encodings: vec![] };
    let mut r = AssetRouter::default();
    nd::check(r.certify_assets(vec![Asset::new(p, b"A".to_vec())], vec![conf(i, "1"), conf(j, "2")]).is_ok(), "assets cannot be certified");
    let mut h: Hs = vec![("content-length".into(), "1".into())];
    if let Some(t) = if hit(i) { Some("1") } else if hit(j) { Some("2") } else { None } {
        h.push(("content-type".into(), t.into()));
        h.push(("x".into(), t.into()));
    }
    let f = F::new(p, b"A");
    ask(&r, &f.url(), vec![], &[Rs { status: 200, headers: h, body: b"A".to_vec() }]);
}
/// a request with a query
fn c31_query() {
    let site = Site { files: vec![F::new("a", b"A")], redirects: vec![] };
    let Some(r) = site.router() else { return nd::check(false, "assets cannot be certified") };
    let q = nd::chars(nd::range(0, 2), b"aq=&");
    fits(&r, "/a", &Rq { method: "GET", query: Some(q), headers: vec![], body: vec![] }, &plain(&site, "/a"));
}

/// any characters in names, aliases, scopes and URLs
fn c31_any() {
    let mut f = F::new("x", b"A");
    let mut url = format!("/{}", nd::segment(nd::range(1, 2)));
    match nd::choice(4) {
        0 => f = F::new(&nd::segment(nd::range(1, 2)), b"A"),
        1 => f.alias.push(format!("/{}", nd::segment(nd::range(1, 2)))),
        2 => {
            f.fallback.push((format!("/{}/", nd::segment(1)), Some(404)));
            url = format!("/{}{}{}", nd::segment(1), nd::pick(&["/", ""]), nd::segment(1));
        }
        _ => {
            f.fallback.push((format!("/{}", nd::segment(1)), None));
            url = format!("/{}{}{}", nd::segment(1), nd::pick(&["/", ""]), nd::segment(1));
        }
    }
    if nd::choice(2) == 0 {
        f.fallback.push(("/".into(), Some(404)));
    }
    let site = Site { files: vec![f], redirects: vec![] };
    nd::assume(site.clear());
    let Some(r) = site.router() else { return nd::check(false, "assets cannot be certified") };
    ask(&r, &url.replace('%', "%25"), vec![], &plain(&site, &url));
}
/// many assets, with scopes within scopes
fn many() -> Site {
    let file = |p: &str, scopes: &[(&str, Option<u16>)], alias: &[&str]| {
        let mut f = F::new(p, p.as_bytes());
        f.fallback = scopes.iter().map(|s| (s.0.to_string(), s.1)).collect();
        f.alias = an(alias);
        f
    };
    let mut files = vec![
        file("index.html", &[("/", None), ("/a/b/c", None)], &["/index", "/"]),
        file("404.html", &[("/a/b/", Some(404)), ("/b", Some(404))], &["/404"]),
        file("a/index.html", &[("/a", Some(200))], &["/a/", "/a/b/c/"]),
        file("/a/b", &[], &["/c"]),
        file("a/b/c.js", &[("/c/", Some(410))], &[]),
        file("a", &[], &["/b/a/"]),
        file("b", &[("/b/a/b", None)], &["/a/b/c"]),
    ];
    for i in 0..6 {
        files.push(F::new(&format!("d/{i}.css"), format!("body{{{i}}}").as_bytes()));
    }
    let red = |f: &str, t: &str, permanent| Redirect { from: f.into(), to: t.into(), permanent };
    Site { files, redirects: vec![red("/old", "/index", true), red("/a/old", "/", false)] }
}
fn c31_many() {
    let site = many();
    let mut url = String::new();
    for _ in 0..nd::range(1, 4) {
        url += "/";
        url += nd::pick(&["a", "b", "c"]);
    }
    url = match nd::choice(3) {
        0 => url + "/",
        1 => url,
        _ => nd::pick(&["/", "/old", "/a/old", "/d/5.css", "/d/6.css", "/d/", "/index", "/index.html", "/404", "/a/index.html", "/a/b/c.js", "/a/old/a", "/index/a"]).into(),
    };
    let Some(r) = site.router() else { return nd::check(false, "assets cannot be certified") };
    ask(&r, &url, vec![], &plain(&site, &url));
}
fn an(l: &[&str]) -> Vec<String> {
    l.iter().map(|x| x.to_string()).collect()
}
/// a name, each letter large or small
fn spelled(name: &str) -> String {
    let b = nd::bytes(name.len());
    for (c, n) in b.iter().zip(name.bytes()) {
        nd::assume((*c == n) | (*c == n.to_ascii_uppercase()));
    }
    String::from_utf8(b).unwrap()
}

// ---- C32
fn encoded(set: usize) -> F {
    let mut f = F::new("a.txt", b"plain");
    let ext = [".br", ".zst", ".gz", ".zz", ""];
    for i in 0..5 {
        if set >> i & 1 == 1 {
            f.enc.push((i, ext[i].into(), if i == 4 { b"plain".to_vec() } else { vec![b'0' + i as u8] }));
        }
    }
    f
}
/// what an Accept-Encoding header allows: the encodings with a weight other than 0
fn allowed(text: &str) -> Vec<String> {
    text.split(',')
        .filter_map(|t| {
            let mut p = t.split(';');
            let name = p.next().unwrap().trim().to_ascii_lowercase();
            let zero = p.any(|x| {
                let x = x.trim().to_ascii_lowercase();
                x.strip_prefix("q=").is_some_and(|q| q == "0" || q.strip_prefix("0.").is_some_and(|d| d.bytes().all(|c| c == b'0')))
            });
            (!zero).then_some(name)
        })
        .collect()
}
fn negotiated(site: &Site, path: &str, url: &str, text: &str) {
    let Some(r) = site.router() else { return nd::check(false, "assets cannot be certified") };
    let all = site.at(path);
    let ok = allowed(text);
    let name = nd::pick(&["accept-encoding", "Accept-Encoding"]);
    let mut may: Vec<&(usize, Rs)> = all.iter().filter(|x| x.0 == 5 || ok.iter().any(|o| o == ENC[x.0].0)).collect();
    may.sort_by_key(|x| x.0);
    // names in lower case have to be understood; then it is the first of them in the configured order
    let lower_case = !text.bytes().any(|c| c.is_ascii_uppercase());
    let want: Vec<Rs> = if lower_case { may[..1.min(may.len())].iter().map(|x| x.1.clone()).collect() } else { may.iter().map(|x| x.1.clone()).collect() };
    ask(&r, url, vec![(name.into(), text.into())], &want);
}
fn accept(n: usize, set: usize) {
    let mut text = String::new();
    for i in 0..nd::range(0, n) {
        if i > 0 {
            text += nd::pick(&[",", ", "]);
        }
        text += nd::pick(&["br", "zstd", "gzip", "deflate", "identity", "x", "*", "GZip", ""]);
        text += nd::pick(&["", ";q=0", ";q=0.5", "; q=0.0"]);
    }
    let site = Site { files: vec![encoded(set)], redirects: vec![] };
    negotiated(&site, "/a.txt", "/a.txt", &text);
}
fn c32_accept() {
    accept(2, nd::pick(&[0, 0b00001, 0b00101, 0b01110, 0b11111]))
}
fn c32_accept_t() {
    accept(3, nd::pick(&[0b00101, 0b11111]))
}
/// the header's name in any spelling, among other headers
fn c32_name() {
    let site = Site { files: vec![encoded(0b00101)], redirects: vec![] };
    let Some(r) = site.router() else { return nd::check(false, "assets cannot be certified") };
    let mut h: Hs = vec![("accept".into(), "br".into()), (spelled("accept-encoding"), nd::pick(&["gzip", "br"]).into())];
    if nd::choice(2) == 1 {
        h.reverse();
    }
    if nd::choice(2) == 1 {
        h.push(("x".into(), "y".into()));
    }
    let want = site.at("/a.txt").into_iter().find(|x| h.iter().any(|h| h.0.len() == 15 && x.0 < 5 && h.1 == ENC[x.0].0)).map(|x| x.1);
    ask(&r, "/a.txt", h, &want.into_iter().collect::<Vec<_>>());
}
/// any weight, in a longer list
fn c32_weight() {
    let site = Site { files: vec![encoded(nd::pick(&[0b00101, 0b11111]))], redirects: vec![] };
    let one = nd::choice(2) == 1;
    let mut w = String::from(if one { "1" } else { "0" });
    if nd::choice(2) == 1 {
        w += ".";
        w += &nd::chars(nd::range(0, 3), if one { b"0" } else { b"0159" });
    }
    let name = nd::pick(&["br", "gzip", "deflate"]);
    let text = match nd::choice(3) {
        0 => format!("{name};q={w}"),
        1 => format!("x;q=0, yy;q=1.0,gzip;q={w} ,identity; q=0.5, *;q=0"),
        _ => format!("zstd;q=0.001, {name} ; q={w}, br-x, xgzip"),
    };
    negotiated(&site, "/a.txt", "/a.txt", &text);
}
/// one character added or changed
fn c32_text() {
    let base = nd::pick(&["gzip", "br;q=0", "br,gzip", "gzip;q=0.5, br"]);
    let mut b = base.as_bytes().to_vec();
    let i = nd::choice(b.len() + 1);
    let c = nd::u8();
    nd::assume(c < 128);
    if nd::choice(2) == 0 {
        b.insert(i, c)
    } else {
        nd::assume(i < b.len());
        b[i] = c
    }
    let text = String::from_utf8(b).unwrap();
    let site = Site { files: vec![encoded(0b00101)], redirects: vec![] };
    let Some(r) = site.router() else { return nd::check(false, "assets cannot be certified") };
    let ok = allowed(&text);
    let want: Vec<Rs> = site.at("/a.txt").into_iter().filter(|x| x.0 == 5 || ok.iter().any(|o| o == ENC[x.0].0)).map(|x| x.1).collect();
    ask(&r, "/a.txt", vec![("accept-encoding".into(), text)], &want);
}
/// encoded fallbacks and aliases
fn c32_fallback() {
    let mut f = encoded(nd::pick(&[0b00001, 0b00110]));
    f.fallback.push((nd::pick(&["/", "/b", "/b/"]).into(), Some(404)));
    f.alias.push("/c".into());
    let mut g = F::new("x", b"X");
    g.fallback.push(("/b/d".into(), None));
    let site = Site { files: vec![f, g], redirects: vec![] };
    let url = nd::pick(&["/c", "/b/x", "/b/d/x", "/b/d/", "/q", "/b"]);
    let text = nd::pick(&["br", "gzip, zstd", "gzip", "identity", "br;q=0"]);
    negotiated(&site, url, url, text);
}

// ---- C33
/// the parts of an asset, as they are served
fn part(f: &F, enc: usize, body: &[u8], from: usize) -> Rs {
    let end = (from + CHUNK).min(body.len());
    let mut h = f.headers.clone();
    h.push(("content-length".into(), (end - from).to_string()));
    h.push(("content-range".into(), format!("bytes {from}-{}/{}", end - 1, body.len())));
    if let Some(t) = &f.content_type {
        h.push(("content-type".into(), t.clone()));
    }
    if enc < 5 {
        h.push(("content-encoding".into(), ENC[enc].0.into()));
    }
    Rs { status: 206, headers: h, body: body[from..end].to_vec() }
}
/// a large body: all zeros but around the borders of its parts
fn large(n: usize) -> Vec<u8> {
    let mut b = vec![0; n];
    for i in [0, CHUNK - 1, CHUNK, n - 1] {
        if i < n {
            b[i] = nd::u8();
        }
    }
    b
}
/// all of an asset, by following its ranges
fn follow(r: &AssetRouter<'static>, f: &F, url: &str, accept: Option<usize>) {
    let body = match accept {
        Some(i) => &f.enc.iter().find(|e| e.0 == i).unwrap().2,
        None => &f.body,
    };
    let h: Hs = accept.iter().map(|i| ("accept-encoding".to_string(), ENC[*i].0.to_string())).collect();
    if body.len() <= CHUNK {
        return;
    }
    let (mut at, mut first) = (0, true);
    while at < body.len() {
        let mut h = h.clone();
        if !first {
            h.push((nd::pick(&["range", "Range"]).into(), format!("bytes={at}-")));
        }
        let Some(rs) = ask(r, url, h, &[part(f, accept.unwrap_or(5), body, at)]) else { return };
        at += rs.body.len();
        first = false;
    }
    nd::check(at == body.len(), "the parts do not make up the asset");
    nd::cover("whole");
}
fn big() -> F {
    let n = nd::pick(&[CHUNK + 1, 2 * CHUNK, 2 * CHUNK + 1]);
    let mut f = F::new("a", &large(n));
    f.content_type = Some("text/html".into());
    f.headers = vec![("x".into(), "y".into())];
    f
}
fn c33_range() {
    let mut f = big();
    f.alias.push("/b".into());
    let site = Site { files: vec![f.clone()], redirects: vec![] };
    let Some(r) = site.router() else { return nd::check(false, "assets cannot be certified") };
    follow(&r, &f, nd::pick(&["/a", "/b"]), None);
}
fn c33_encoded() {
    let mut f = F::new("a", &large(CHUNK + 2));
    f.enc.push((2, ".gz".into(), vec![7; nd::pick(&[CHUNK, CHUNK + 1])]));
    let site = Site { files: vec![f.clone()], redirects: vec![] };
    let Some(r) = site.router() else { return nd::check(false, "assets cannot be certified") };
    follow(&r, &f, "/a", Some(2));
    follow(&r, &f, "/a", None);
}
/// ranges that begin around the borders of parts, in the asset and beyond
fn c33_outside() {
    let n = nd::pick(&[CHUNK + 1, 2 * CHUNK, 2 * CHUNK + 1, 3 * CHUNK]);
    let mut f = F::new("a", &vec![1; n]);
    let mut enc = 5;
    if nd::choice(2) == 1 {
        f = F::new("a", b"x");
        f.enc.push((2, ".gz".into(), vec![1; n]));
        enc = 2;
    }
    let body = vec![1; n];
    let site = Site { files: vec![f.clone()], redirects: vec![] };
    let Some(r) = site.router() else { return nd::check(false, "assets cannot be certified") };
    let from = (nd::range(0, 4) * CHUNK + nd::choice(3)).saturating_sub(1);
    let mut h: Hs = vec![("Range".into(), format!("bytes={from}-"))];
    if enc < 5 {
        h.push(("accept-encoding".into(), "gzip".into()));
    }
    let cert = rv::signed(&state(&[1], &r.root_hash()));
    let q = Rq { method: "GET", query: None, headers: h, body: vec![] };
    match r.serve_asset(&cert, &q.at("/a")) {
        Ok(x) => {
            nd::cover("served");
            nd::check(from < n || x.body() == b"x", "something is served for a range outside the asset");
            let rs = Rs { status: x.status_code().as_u16(), headers: x.headers().to_vec(), body: x.body().to_vec() };
            if from < n && rs.status == 206 {
                nd::check(rs.body == part(&f, enc, &body, from).body, "another part is served than the one asked for");
            } else {
                nd::check(enc < 5 && rs.body == b"x", "something else is served for a range");
            }
            nd::check(from % CHUNK != 0 || from == 0 || rv::call(&q, "/a", &rs, &[1], 2).is_some(), "a part of an asset does not verify");
        }
        Err(_) => {
            nd::cover("refused");
            nd::check(from >= n || from % CHUNK != 0, "a part of an asset is refused");
        }
    }
}
/// the header's name in any spelling
fn c33_name() {
    let mut f = F::new("a", &vec![1; CHUNK + 3]);
    f.enc.push((2, ".gz".into(), vec![7; CHUNK + 1]));
    let site = Site { files: vec![f.clone()], redirects: vec![] };
    let Some(r) = site.router() else { return nd::check(false, "assets cannot be certified") };
    let e = if nd::choice(2) == 1 { 2 } else { 5 };
    let body = if e == 2 { &f.enc[0].2 } else { &f.body };
    let mut h: Hs = vec![(spelled("range"), format!("bytes={CHUNK}-"))];
    if e == 2 {
        h.insert(nd::choice(2), ("accept-encoding".into(), "gzip".into()));
    }
    ask(&r, "/a", h, &[part(&f, e, body, CHUNK)]);
}
/// a large asset as a fallback, too
fn c33_fallback() {
    let mut f = F::new("a", &large(CHUNK + 2));
    f.fallback.push((nd::pick(&["/", "", "/b", "/b/"]).into(), Some(404)));
    f.alias = an(&["/b/c", "/b/d/"]);
    let g = F::new("b/x", b"X");
    let site = Site { files: vec![f.clone(), g], redirects: vec![Redirect { from: "/b/y".into(), to: "/".into(), permanent: false }] };
    let Some(r) = site.router() else { return nd::check(false, "assets cannot be certified") };
    match nd::choice(3) {
        0 => follow(&r, &f, nd::pick(&["/a", "/b/c", "/b/d/"]), None),
        1 => {
            let u = nd::pick(&["/b/x", "/b/y"]);
            ask(&r, u, vec![], &plain(&site, u));
        }
        _ => {
            // all of it where it is a fallback
            let mut h: Hs = vec![];
            if nd::choice(2) == 1 {
                h.push(("range".into(), nd::pick(&["bytes=0-", "bytes=2000000-"]).into()));
            }
            ask(&r, "/b/z", h, &plain(&site, "/b/z"));
        }
    }
}
/// an asset that fits into one part is served whole, whatever range is asked for
fn c33_small() {
    let n = nd::pick(&[0, 1, 3, CHUNK]);
    let mut f = F::new("a", &vec![b'x'; n]);
    let mut want = f.entry_without_fallback();
    if nd::choice(2) == 1 {
        f.fallback.push(("/".into(), Some(404)));
        want = f.entry_without_fallback();
    }
    let site = Site { files: vec![f], redirects: vec![] };
    let Some(r) = site.router() else { return nd::check(false, "assets cannot be certified") };
    let text = nd::pick(&["bytes=0-", "bytes=0-1", "bytes=1-", "bytes=2000000-", "bytes=0-1999999"]);
    ask(&r, "/a", vec![("range".into(), text.into())], &[want]);
}
impl F {
    fn entry_without_fallback(&self) -> Rs {
        Rs { status: 200, headers: vec![("content-length".into(), self.body.len().to_string())], body: self.body.clone() }
    }
}
/// texts in the place of a range: what is served is the part that is asked for, or nothing
fn range_text(n: usize) {
    let body = vec![1; CHUNK + 1];
    let f = F::new("a", &body);
    let mut site = Site { files: vec![f.clone()], redirects: vec![] };
    if nd::choice(2) == 1 {
        site.files[0].fallback.push(("/".into(), Some(404)));
    }
    let Some(r) = site.router() else { return nd::check(false, "assets cannot be certified") };
    let text = match nd::choice(5) {
        0 => format!("bytes={}", nd::ascii(nd::range(0, n))),
        1 => format!("bytes=2000000{}", nd::ascii(nd::range(0, n))),
        2 => format!("{}bytes=0-", nd::ascii(nd::range(0, n))),
        3 => format!("bytes=bytes={}", nd::pick(&["0-", "2000000-"])),
        _ => format!("bytes={}{}-", nd::pick(&["", "42949672", "20000", "1844674407370955161"]), nd::ascii(nd::range(0, n))),
    };
    let cert = rv::signed(&state(&[1], &r.root_hash()));
    let q = Rq { method: "GET", query: None, headers: vec![("Range".into(), text.clone())], body: vec![] };
    // the beginning that is asked for
    let says = (|| {
        let t = text.trim().strip_prefix("bytes=")?;
        let (a, b) = t.split_once('-')?;
        let num = |x: &str| x.parse::<usize>().ok();
        let a = num(a)?;
        (b.is_empty() || num(b)? >= a).then_some(a)
    })();
    match r.serve_asset(&cert, &q.at("/a")) {
        Ok(x) => {
            nd::cover("served");
            let Some(a) = says else { return nd::check(false, "something is served for a malformed range") };
            nd::check(a < body.len(), "something is served for a range outside the asset");
            nd::check(x.status_code().as_u16() == 206 && x.body() == part(&f, 5, &body, a).body, "another part is served than the one asked for");
            let rs = Rs { status: 206, headers: x.headers().to_vec(), body: x.body().to_vec() };
            if rv::call(&q, "/a", &rs, &[1], 2).is_none() {
                // the parts are certified for one spelling of their range only, and the first one for none
                nd::check(a == 0 || text != format!("bytes={a}-"), "a part of an asset does not verify");
                nd::cover("FINDING c33-range-spelling");
            }
        }
        Err(_) => {
            nd::cover("refused");
            nd::check(says != Some(0) && says != Some(CHUNK), "a part of an asset is refused");
        }
    }
}
fn c33_text() {
    range_text(2)
}
fn c33_text_t() {
    range_text(4)
}

// ---- C34
fn pool() -> Vec<Site> {
    let mut a = encoded(0b00101);
    a.fallback = vec![("/".into(), Some(404)), ("/b/".into(), None)];
    a.alias = vec!["/".into(), "/c".into()];
    let mut b = F::new("/b/x", b"B");
    b.fallback = vec![("/b".into(), None)];
    b.headers = vec![("h".into(), "1".into())];
    let mut c = F::new("b", b"C");
    c.configured = false;
    let one = |f| Site { files: vec![f], redirects: vec![] };
    let mut d = one(c);
    d.redirects.push(Redirect { from: "/d".into(), to: "/b".into(), permanent: true });
    vec![one(a), one(b), d]
}
fn history(n: usize, pool: &[Site]) {
    let none = AssetRouter::default().root_hash();
    let mut r = AssetRouter::default();
    let mut all: Vec<usize> = vec![];
    for _ in 0..n {
        let i = nd::choice(2 * pool.len() + 1);
        if i == 2 * pool.len() {
            r.delete_all_assets();
            all.clear();
        } else {
            let s = &pool[i / 2];
            if i % 2 == 0 {
                nd::check(r.certify_assets(s.assets(), s.configs()).is_ok(), "assets cannot be certified");
                if !all.contains(&(i / 2)) {
                    all.push(i / 2);
                }
            } else {
                let (before, there) = (r.root_hash(), all.contains(&(i / 2)));
                nd::check(r.delete_assets(s.assets(), s.configs()).is_ok(), "assets cannot be deleted");
                nd::check(there || r.root_hash() == before, "deleting what is not there changes the root hash");
                all.retain(|x| *x != i / 2);
            }
        }
        if all.is_empty() {
            nd::check(r.root_hash() == none, "a router without assets does not have the root hash of a new one");
            nd::check(r.get_assets().is_empty() && r.get_fallback_assets().is_empty(), "a router keeps deleted assets");
            nd::cover("empty");
        }
    }
    left(&r, pool, &all);
}
/// what is left is served and verifies, and nothing else
fn left(r: &AssetRouter<'static>, pool: &[Site], all: &[usize]) {
    let site = Site { files: all.iter().flat_map(|i| pool[*i].files.clone()).collect(), redirects: all.iter().flat_map(|i| pool[*i].redirects.clone()).collect() };
    let (e, f) = site.entries();
    nd::check(r.get_assets().len() == e.len() && r.get_fallback_assets().len() == f.len(), "the router holds other responses than those certified and not deleted");
    let u = nd::pick(&["/a.txt", "/", "/c", "/b/x", "/b", "/b/y", "/d", "/q", "/a.txt.br"]);
    let acc = nd::pick(&["", "br"]);
    let may = site.at(u);
    let best = may.iter().filter(|x| x.0 == 5 || acc == "br" && x.0 == 0).min_by_key(|x| x.0).map(|x| x.1.clone());
    ask(r, u, vec![("accept-encoding".into(), acc.into())], &best.into_iter().collect::<Vec<_>>());
}
fn c34_history() {
    history(3, &pool())
}
fn c34_history_t() {
    history(4, &pool())
}
/// large assets
fn c34_large() {
    let mut f = F::new("a", &vec![1; nd::pick(&[CHUNK + 1, 2 * CHUNK + 1])]);
    if nd::choice(2) == 1 {
        f.alias.push("/b".into());
    }
    if nd::choice(2) == 1 {
        f.enc.push((0, ".br".into(), vec![2; CHUNK + 1]));
    }
    let site = Site { files: vec![f], redirects: vec![] };
    let Some(mut r) = site.router() else { return nd::check(false, "assets cannot be certified") };
    nd::check(r.delete_assets(site.assets(), site.configs()).is_ok(), "assets cannot be deleted");
    nd::check(r.get_assets().is_empty(), "a router keeps deleted assets");
    nd::check(r.root_hash() == AssetRouter::default().root_hash(), "a router without assets does not have the root hash of a new one");
}
/// arbitrary paths, aliases, scopes and redirects
fn c34_config() {
    let mut f = F::new(&P::any(1, &ab).url(), b"A");
    let x = P::any(1, &ab).url();
    match nd::choice(3) {
        0 => f.alias.push(x),
        1 => f.fallback.push((x, if nd::choice(2) == 0 { None } else { Some(404) })),
        _ => {}
    }
    let g = F::new(&P::any(1, &ab).url(), b"B");
    let s = [Site { files: vec![f], redirects: vec![] }, Site { files: vec![g], redirects: vec![Redirect { from: P::any(2, &ab).url(), to: "/x".into(), permanent: false }] }];
    let both = Site { files: s.iter().flat_map(|x| x.files.clone()).collect(), redirects: s[1].redirects.clone() };
    nd::assume(both.clear());
    let mut r = AssetRouter::default();
    for x in &s {
        nd::check(r.certify_assets(x.assets(), x.configs()).is_ok(), "assets cannot be certified");
    }
    let i = nd::choice(2);
    nd::check(r.delete_assets(s[i].assets(), s[i].configs()).is_ok(), "assets cannot be deleted");
    let rest = &s[1 - i];
    let u = P::any(2, &ab).url();
    ask(&r, &u, vec![], &plain(rest, &u));
    nd::check(r.delete_assets(rest.assets(), rest.configs()).is_ok(), "assets cannot be deleted");
    nd::check(r.root_hash() == AssetRouter::default().root_hash(), "a router without assets does not have the root hash of a new one");
}
/// any characters in names, scopes and aliases
fn c34_any() {
    let mut f = F::new(&nd::segment(nd::range(1, 2)), b"A");
    match nd::choice(3) {
        0 => f.alias.push(format!("/{}/", nd::segment(1))),
        1 => f.fallback.push((format!("/{}{}", nd::segment(1), nd::pick(&["/", ""])), Some(404))),
        _ => f.headers.push((nd::token(1), nd::value(1))),
    }
    let (one, other) = (Site { files: vec![f], redirects: vec![] }, Site { files: vec![F::new("a/b", b"B")], redirects: vec![] });
    let mut r = AssetRouter::default();
    nd::check(r.certify_assets(other.assets(), other.configs()).is_ok(), "assets cannot be certified");
    let before = r.root_hash();
    nd::check(r.certify_assets(one.assets(), one.configs()).is_ok(), "assets cannot be certified");
    nd::check(r.delete_assets(one.assets(), one.configs()).is_ok(), "assets cannot be deleted");
    nd::check(r.get_assets().len() == 1 && r.get_fallback_assets().is_empty(), "the router holds other responses than those certified and not deleted");
    ask(&r, "/a/b", vec![], &plain(&other, "/a/b"));
    nd::check(r.delete_assets(other.assets(), other.configs()).is_ok(), "assets cannot be deleted");
    nd::check(r.root_hash() == AssetRouter::default().root_hash(), "a router without assets does not have the root hash of a new one");
    nd::check(before != r.root_hash(), "an asset does not change the root hash");
}
/// another version of an asset in the place of a deleted one, among many others
fn c34_replace() {
    let site = many();
    let mut r = AssetRouter::default();
    nd::check(r.certify_assets(site.assets(), site.configs()).is_ok(), "assets cannot be certified");
    let i = nd::choice(8);
    let old = Site { files: vec![site.files[i].clone()], redirects: vec![] };
    let mut new = old.clone();
    new.files[0].body = nd::bytes(nd::range(0, 2));
    match nd::choice(4) {
        0 => new.files[0].alias.clear(),
        1 => new.files[0].fallback = vec![("/n/".into(), None)],
        2 => new.files[0].content_type = Some("t".into()),
        _ => {}
    }
    nd::check(r.delete_assets(old.assets(), old.configs()).is_ok(), "assets cannot be deleted");
    let again = nd::choice(2) == 1;
    let mut rest = site.clone();
    if again {
        nd::check(r.certify_assets(new.assets(), new.configs()).is_ok(), "assets cannot be certified");
        rest.files[i] = new.files[0].clone();
    } else {
        rest.files.remove(i);
    }
    let (e, f) = rest.entries();
    nd::check(r.get_assets().len() == e.len() && r.get_fallback_assets().len() == f.len(), "the router holds other responses than those certified and not deleted");
    let own = old.files[0].url();
    let u = nd::pick(&[own.as_str(), "/", "/a/b/c", "/b/x", "/a/", "/n/a", "/old", "/a/b/x", "/d/1.css"]);
    ask(&r, u, vec![], &plain(&rest, u));
    let last = if nd::choice(2) == 0 { r.delete_assets(rest.assets(), rest.configs()).is_ok() } else { r.delete_all_assets(); true };
    nd::check(last && r.root_hash() == AssetRouter::default().root_hash(), "a router without assets does not have the root hash of a new one");
}
