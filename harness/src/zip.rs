//! How version 1 verification decodes compressed bodies, against RFC 1951 and 1952
use crate::http::Rs;
use crate::rv::{crc, gzip, show1};
use crate::spec::*;

harnesses! {
    c37_literals c37_match c37_blocks c37_changed c37_prefix c37_other c37_members c37_padding c37_big c37_changed_t c37_big_t
}

// ---- writing
struct W {
    out: Vec<u8>,
    acc: u32,
    n: u32,
}
impl W {
    fn new() -> W {
        W { out: vec![], acc: 0, n: 0 }
    }
    /// the lowest k bits of v, lowest first
    fn bits(&mut self, v: u32, k: u32) {
        self.acc |= v << self.n;
        self.n += k;
        while self.n >= 8 {
            self.out.push(self.acc as u8);
            self.acc >>= 8;
            self.n -= 8;
        }
    }
    /// a Huffman code of k bits, highest first
    fn code(&mut self, v: u32, k: u32) {
        for i in (0..k).rev() {
            self.bits(v >> i & 1, 1)
        }
    }
    /// a literal or length symbol of the fixed code
    fn sym(&mut self, s: u32) {
        if s < 144 {
            self.code(0x30 + s, 8)
        } else if s < 256 {
            self.code(0x190 + s - 144, 9)
        } else if s < 280 {
            self.code(s - 256, 7)
        } else {
            self.code(0xc0 + s - 280, 8)
        }
    }
    fn copy(&mut self, len: usize, dist: usize) {
        let i = (0..29).rev().find(|&i| LEN[i] as usize <= len && (len < 258 || i == 28)).unwrap();
        self.sym(257 + i as u32);
        self.bits((len - LEN[i] as usize) as u32, LX[i] as u32);
        let i = (0..30).rev().find(|&i| DIST[i] as usize <= dist).unwrap();
        self.code(i as u32, 5);
        self.bits((dist - DIST[i] as usize) as u32, DX[i] as u32);
    }
    fn stored(&mut self, last: bool, d: &[u8]) {
        self.bits(last as u32, 3);
        if self.n > 0 {
            self.bits(0, 8 - self.n);
        }
        self.stored_at(d);
    }
    fn stored_at(&mut self, d: &[u8]) {
        let n = (d.len() as u16).to_le_bytes();
        self.out.extend([n[0], n[1], !n[0], !n[1]]);
        self.out.extend(d);
    }
    fn done(mut self) -> Vec<u8> {
        if self.n > 0 {
            self.bits(0, 8 - self.n);
        }
        self.out
    }
}
const LEN: [u16; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
const LX: [u8; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
const DIST: [u16; 30] = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577];
const DX: [u8; 30] = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];

// ---- reading: a plain decoder, bit by bit; None if the stream is broken off or no stream
struct R<'a> {
    z: &'a [u8],
    i: usize,
}
impl R<'_> {
    fn bit(&mut self) -> Option<u32> {
        let b = *self.z.get(self.i / 8)?;
        let x = b >> (self.i % 8) & 1;
        self.i += 1;
        Some(if x == 1 { 1 } else { 0 })
    }
    fn bits(&mut self, k: u32) -> Option<u32> {
        let mut v = 0;
        for j in 0..k {
            v |= self.bit()? << j;
        }
        Some(v)
    }
    fn sym(&mut self, h: &[(u32, u32, u32)]) -> Option<u32> {
        let (mut c, mut n) = (0, 0);
        loop {
            c = c << 1 | self.bit()?;
            n += 1;
            if n > 15 {
                return None;
            }
            if let Some(x) = h.iter().find(|x| x.0 == n && x.1 == c) {
                return Some(x.2);
            }
        }
    }
}
/// (length, code, symbol); None if the lengths are no code
fn huffman(l: &[u8], may_be_incomplete: bool) -> Option<Vec<(u32, u32, u32)>> {
    let (mut out, mut c, mut room) = (vec![], 0u32, 1i32);
    for n in 1..=15 {
        room *= 2;
        c <<= 1;
        for (s, k) in l.iter().enumerate() {
            if *k == n {
                out.push((n as u32, c, s as u32));
                c += 1;
                room -= 1;
                if room < 0 {
                    return None;
                }
            }
        }
    }
    let one = out.len() < 2 && may_be_incomplete;
    (room == 0 || one).then_some(out)
}
/// what a deflate stream decodes to, and its length
fn inflate(z: &[u8]) -> Option<(Vec<u8>, usize)> {
    let (mut r, mut o) = (R { z, i: 0 }, vec![]);
    loop {
        let last = r.bit()? == 1;
        let (l, d) = match r.bits(2)? {
            0 => {
                r.i = (r.i + 7) / 8 * 8;
                let n = r.bits(16)?;
                if r.bits(16)? != !n & 0xffff {
                    return None;
                }
                let at = r.i / 8;
                o.extend_from_slice(z.get(at..at + n as usize)?);
                r.i += 8 * n as usize;
                if last {
                    return Some((o, r.i / 8));
                }
                continue;
            }
            1 => ((0..288).map(|i| if i < 144 { 8 } else if i < 256 { 9 } else if i < 280 { 7 } else { 8 }).collect::<Vec<u8>>(), vec![5; 32]),
            2 => {
                let (a, b, c) = (r.bits(5)? as usize + 257, r.bits(5)? as usize + 1, r.bits(4)? as usize + 4);
                if a > 286 || b > 30 {
                    return None;
                }
                let mut k = [0u8; 19];
                for i in [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15].into_iter().take(c) {
                    k[i] = r.bits(3)? as u8;
                }
                let h = huffman(&k, false)?;
                let mut v: Vec<u8> = vec![];
                while v.len() < a + b {
                    match r.sym(&h)? {
                        16 => {
                            let x = *v.last()?;
                            let n = 3 + r.bits(2)?;
                            (0..n).for_each(|_| v.push(x));
                        }
                        17 => (0..3 + r.bits(3)?).for_each(|_| v.push(0)),
                        18 => (0..11 + r.bits(7)?).for_each(|_| v.push(0)),
                        x => v.push(x as u8),
                    }
                }
                if v.len() != a + b || v[256] == 0 {
                    return None;
                }
                (v[..a].to_vec(), v[a..].to_vec())
            }
            _ => return None,
        };
        let (l, d) = (huffman(&l, true)?, huffman(&d, true).or_else(|| d.iter().all(|x| *x == 0).then(Vec::new))?);
        loop {
            let s = r.sym(&l)? as usize;
            if s < 256 {
                o.push(s as u8);
            } else if s == 256 {
                break;
            } else {
                let i = s - 257;
                if i > 28 {
                    return None;
                }
                let n = LEN[i] as usize + r.bits(LX[i] as u32)? as usize;
                let i = r.sym(&d)? as usize;
                if i > 29 {
                    return None;
                }
                let k = DIST[i] as usize + r.bits(DX[i] as u32)? as usize;
                if k > o.len() {
                    return None;
                }
                (0..n).for_each(|_| o.push(o[o.len() - k]));
            }
        }
        if last {
            return Some((o, (r.i + 7) / 8));
        }
    }
}

// ---- checks
/// is the body accepted, sent under this encoding, when this digest is certified
fn accepted(z: &[u8], enc: &str, digest: &[u8]) -> bool {
    let t = lab(b"http_assets", lab(b"/p", Leaf(digest.to_vec())));
    show1(&t, "/p", &Rs { status: 200, headers: vec![("content-encoding".into(), enc.into())], body: z.to_vec() })
}
const SAY: &str = "a compressed body is accepted that does not decode to the certified one, or the right one rejected";
/// the body decodes to exactly this: its digest is accepted, that of something a little different is not
fn exactly(z: Vec<u8>, plain: &[u8], gz: bool) {
    let z = if gz { gzip(&z, plain) } else { z };
    let mut p = plain.to_vec();
    let good = match nd::choice(3) {
        0 => true,
        1 => {
            p.pop();
            plain.is_empty()
        }
        _ => {
            p.push(nd::u8());
            false
        }
    };
    let ok = accepted(&z, if gz { "gzip" } else { "deflate" }, &sha(&[&p]));
    nd::check(ok == good, SAY);
    nd::cover(if ok { "accepted" } else { "rejected" });
}
/// texts of literals
fn c37_literals() {
    let mut w = W::new();
    w.bits(3, 3);
    let n = nd::pick(&[0, 1, 1022, 1023, 1024]);
    let mut plain: Vec<u8> = (0..n).map(|i| i as u8).collect();
    plain.push(nd::u8());
    if nd::choice(2) == 1 {
        plain.push(nd::pick(&[0, 143, 144, 255]));
    }
    for b in &plain {
        w.sym(*b as u32);
    }
    w.sym(256);
    exactly(w.done(), &plain, nd::choice(2) == 1);
}
/// copies of every length and from many distances, over the ends of the read buffer and of the window
fn c37_match() {
    let mut w = W::new();
    let n = nd::pick(&[1usize, 4, 1000, 1024, 33000]);
    let mut plain: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
    let len = if n == 4 { nd::range(3, 258) } else { nd::pick(&[3usize, 24, 130, 131, 257, 258]) };
    let d: Vec<usize> = [1, 2, 3, 4, 5, 97, 1000, 1024, 4096, 24577, 32767, 32768].into_iter().filter(|d| *d <= n).collect();
    let dist = nd::pick(&d);
    // (checksums of arbitrary bytes take a path for each value)
    let gz = nd::choice(2) == 1;
    if !gz {
        plain[n - dist] = nd::u8();
    }
    w.stored(false, &plain);
    w.bits(3, 3);
    w.copy(len, dist);
    w.sym(b'e' as u32);
    w.sym(256);
    (0..len).for_each(|_| plain.push(plain[plain.len() - dist]));
    plain.push(b'e');
    exactly(w.done(), &plain, gz);
}
/// several blocks of several kinds and sizes
fn c37_blocks() {
    let mut w = W::new();
    let mut plain = vec![];
    let (k, gz) = (nd::range(1, 3), nd::choice(2) == 1);
    for i in 1..=k {
        let last = i == k;
        match nd::choice(3) {
            0 => {
                let n = if i == 1 { nd::pick(&[0, 1, 1023, 1024, 1025, 2048, 65535]) } else { nd::pick(&[0, 1, 1024]) };
                let mut d = vec![b'0' + i as u8; n];
                if n > 0 && !gz {
                    d[n - 1] = nd::u8();
                }
                w.stored(last, &d);
                plain.extend(d);
            }
            1 => {
                w.bits(2 + last as u32, 3);
                w.sym(b'l' as u32);
                plain.push(b'l');
                w.copy(258, 1);
                plain.extend([b'l'; 258]);
                w.sym(256);
            }
            _ => {
                // nothing
                w.bits(2 + last as u32, 3);
                w.sym(256);
            }
        }
    }
    exactly(w.done(), &plain, gz);
}
/// stored blocks after any padding, of sizes for which they begin as a zlib stream does, too
fn c37_padding() {
    let mut w = W::new();
    let n = nd::pick(&[0usize, 1, 94, 156, 218]);
    let mut plain = vec![b'p'; n];
    w.bits(0, 3);
    w.bits(nd::u8() as u32 & 31, 5);
    w.stored_at(&plain);
    if nd::choice(2) == 0 {
        w.bits(1, 3);
        w.bits(nd::u8() as u32 & 31, 5);
        plain.push(b'q');
        w.stored_at(b"q");
    } else {
        w.bits(3, 3);
        w.sym(256);
    }
    exactly(w.done(), &plain, nd::choice(2) == 1);
}
/// large bodies: more compressed or decoded data than any buffer on the way may hold
fn big(stored: &[usize], copied: &[usize]) {
    let mut w = W::new();
    let gz = nd::choice(2) == 1;
    let mut plain: Vec<u8>;
    if nd::choice(2) == 0 {
        let n = nd::pick(stored);
        let mut x = 1u32;
        plain = (0..n)
            .map(|_| {
                x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                (x >> 24) as u8
            })
            .collect();
        if !gz {
            plain[n - 1] = nd::u8();
        }
        let k = (n - 1) / 65535;
        for (i, d) in plain.chunks(65535).enumerate() {
            w.stored(i == k, d);
        }
    } else {
        let n = nd::pick(copied);
        plain = vec![b'l'; n];
        w.bits(3, 3);
        w.sym(b'l' as u32);
        for _ in 0..(n - 2) / 258 {
            w.copy(258, 1);
        }
        for _ in 0..(n - 2) % 258 {
            w.sym(b'l' as u32);
        }
        plain[n - 1] = if gz { b'z' } else { nd::u8() };
        w.sym(plain[n - 1] as u32);
        w.sym(256);
    }
    exactly(w.done(), &plain, gz);
}
fn c37_big() {
    big(&[32769, 70001, 140000], &[65536, 131073, 1048577, 2100001])
}
fn c37_big_t() {
    big(&[16385, 32769, 65537, 70001, 140000, 300000, 2100001], &[65536, 131073, 262145, 1048577, 2100001, 3000001])
}
/// a stream with dynamic codes, and one with fixed codes
const DYNAMIC: [u8; 47] = [45, 140, 129, 13, 0, 48, 8, 194, 110, 5, 250, 255, 13, 131, 109, 49, 209, 2, 42, 88, 34, 182, 145, 59, 199, 24, 66, 66, 51, 190, 25, 181, 50, 247, 201, 75, 235, 205, 119, 93, 186, 187, 81, 63, 85, 139, 3];
const LITERAL: [u8; 39] = [5, 193, 1, 1, 0, 0, 0, 130, 160, 173, 169, 255, 55, 4, 197, 150, 64, 35, 89, 18, 101, 90, 44, 146, 165, 115, 106, 42, 75, 77, 213, 36, 5, 204, 69, 58, 8, 88, 7];
fn changed(z: &[u8], at: &[usize]) {
    let plain = inflate(z).unwrap().0;
    let mut z = z.to_vec();
    let i = nd::pick(at);
    z[i] = nd::u8();
    // whatever it is now
    let now = inflate(&z);
    if let Some(x) = &now {
        // what follows the stream is not judged
        z.truncate(x.1);
    }
    let now = now.map(|x| x.0);
    let gz = nd::choice(2) == 1;
    let sum = now.clone().unwrap_or(plain.clone());
    let full = if gz { gzip(&z, &sum) } else { z };
    let ok = accepted(&full, if gz { "gzip" } else { "deflate" }, &sha(&[&sum]));
    nd::check(ok == now.is_some(), SAY);
    nd::cover(if now.is_none() { "broken" } else if now.unwrap() == plain { "same" } else { "other" });
}
fn c37_changed() {
    match nd::choice(2) {
        0 => changed(&DYNAMIC, &[0, 1, 20, 46]),
        _ => changed(&LITERAL, &[0, 2, 38]),
    }
}
fn c37_changed_t() {
    match nd::choice(2) {
        0 => changed(&DYNAMIC, &(0..47).collect::<Vec<_>>()),
        _ => changed(&LITERAL, &(0..39).collect::<Vec<_>>()),
    }
}
/// any short stream
fn prefix(n: usize) {
    let z = nd::bytes(n);
    let now = inflate(&z).map(|x| x.0);
    let d = sha(&[&now.clone().unwrap_or_default()]);
    nd::check(accepted(&z, "deflate", &d) == now.is_some(), SAY);
    nd::cover(match &now {
        None => "broken",
        Some(x) if x.is_empty() => "empty",
        _ => "text",
    });
}
fn c37_prefix() {
    prefix(2)
}
/// the sizes and checksums of a gzip stream, its optional fields, and where it ends
fn c37_members() {
    let plain = vec![b'p'; nd::pick(&[1, 1024, 3000])];
    let mut w = W::new();
    w.stored(true, &plain);
    let z = w.done();
    let flags = nd::range(0, 15) as u8 * 2;
    let any = |f: u8| if flags & 2 == 0 { nd::u8() } else { f };
    let mut g = vec![0x1f, 0x8b, 8, flags, any(1), 0, 0, any(2), any(0), any(3)];
    if flags & 4 != 0 {
        let e = nd::pick(&[0, 1, 300]);
        g.extend((e as u16).to_le_bytes());
        g.extend(vec![7; e]);
    }
    if flags & 8 != 0 {
        g.extend(b"name\0");
    }
    if flags & 16 != 0 {
        g.extend(b"\0");
    }
    if flags & 2 != 0 {
        let c = crc(&g) as u16;
        g.extend(c.to_le_bytes());
    }
    g.extend(&z);
    let mut end = crc(&plain).to_le_bytes().to_vec();
    end.extend((plain.len() as u32).to_le_bytes());
    let i = nd::choice(8);
    let o = end[i];
    let short = nd::choice(10);
    let x = if short == 0 { nd::u8() } else { o };
    end[i] = x;
    g.extend(end);
    g.truncate(g.len() - short);
    let ok = accepted(&g, "gzip", &sha(&[&plain]));
    // a missing byte or a changed one
    nd::check(ok == (x == o && short == 0), SAY);
    nd::cover(if ok { "accepted" } else { "rejected" });
}
/// every other encoding leaves the body alone
fn c37_other() {
    let enc = match nd::choice(8) {
        0 => nd::value(nd::range(0, 3)),
        1 => {
            let mut e = nd::pick(&[&b"gzip"[..], b"deflate"]).to_vec();
            let (i, x) = (nd::choice(e.len()), nd::value(1).into_bytes()[0]);
            nd::assume(x.to_ascii_lowercase() != e[i] && x != b' ' && x != b'\t');
            e[i] = x;
            String::from_utf8(e).unwrap()
        }
        2 => "identity".into(),
        3 => nd::pick(&["br", "zstd", "compress", "zlib", "gzi", "defl"]).into(),
        4 => format!("gzip{}", nd::ascii(1)),
        5 => format!("{}{}{}", nd::pick(&["br", "identity", "gzip", "deflate", ""]), nd::pick(&[",", ", ", " , ", ";", " "]), nd::pick(&["gzip", "deflate", "br", "q=1"])),
        6 => format!("{}{}", nd::value(1), nd::pick(&["gzip", "deflate"])),
        _ => format!("x-{}", nd::value(2)),
    };
    let e = enc.trim().to_ascii_lowercase();
    nd::assume(e != "gzip" && e != "deflate" && e != "x-gzip");
    let mut w = W::new();
    w.stored(true, b"text");
    let z = w.done();
    let body = match nd::choice(3) {
        0 => z,
        1 => gzip(&z, b"text"),
        _ => nd::bytes(3),
    };
    let plain = nd::choice(2) == 1;
    let d = if plain { sha(&[b"text"]) } else { sha(&[&body]) };
    nd::check(accepted(&body, &enc, &d) != plain, "a body under another encoding is not judged as it was sent");
    nd::cover(if plain { "decoded" } else { "sent" });
}
