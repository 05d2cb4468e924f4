//! The JavaScript binding. Its values are JavaScript objects behind imported functions (wasm-bindgen, js-sys);
//! the executor links these imports to the model below, and the replay under V8 to JavaScript itself.
use crate::http::*;
use crate::rih::same;
use crate::rv::*;
use crate::spec::*;
use ic_response_verification::types::VerificationInfo;
use ic_response_verification::{ResponseVerificationError as E, ResponseVerificationJsErrorCode as C};
use js_sys::{Array, Object, Reflect, Uint8Array};
use wasm_bindgen::{JsCast, JsValue};

harnesses! {
    c38_request c38_response c38_shown c38_repeated c38_versions c38_errors c38_codes c38_anytext c38_shown_t
}

// ---- the model
mod model {
    use std::cell::RefCell;
    use std::rc::Rc;
    #[derive(Clone)]
    enum V {
        Undefined,
        Null,
        Bool(bool),
        Num(f64),
        Str(Rc<Vec<u8>>),
        Arr(Rc<RefCell<Vec<V>>>),
        Bytes(Rc<RefCell<Vec<u8>>>),
        Obj(Rc<RefCell<Vec<(Rc<Vec<u8>>, V)>>>),
        Memory,
    }
    use V::*;
    static mut HEAP: Vec<Option<V>> = Vec::new();
    const FIRST: u32 = 132;
    #[allow(static_mut_refs)]
    fn heap() -> &'static mut Vec<Option<V>> {
        unsafe { &mut HEAP }
    }
    fn put(v: V) -> u32 {
        heap().push(Some(v));
        heap().len() as u32 - 1 + FIRST
    }
    fn at(i: u32) -> V {
        match i {
            128 => Undefined,
            129 => Null,
            130 => Bool(true),
            131 => Bool(false),
            _ => match heap().get((i - FIRST) as usize) {
                Some(Some(v)) => v.clone(),
                _ => panic!("use of a dropped JavaScript value"),
            },
        }
    }
    fn array(l: Vec<V>) -> u32 {
        put(Arr(Rc::new(RefCell::new(l))))
    }
    fn bytes(l: Vec<u8>) -> u32 {
        put(Bytes(Rc::new(RefCell::new(l))))
    }
    /// a key, as text
    fn key(v: V) -> Rc<Vec<u8>> {
        match v {
            Str(s) => s,
            Num(x) => Rc::new(format!("{}", x as i64).into_bytes()),
            _ => panic!("unmodelled key"),
        }
    }
    fn eq(a: &V, b: &V) -> bool {
        match (a, b) {
            (Undefined, Undefined) | (Null, Null) | (Memory, Memory) => true,
            (Bool(x), Bool(y)) => x == y,
            (Num(x), Num(y)) => x == y,
            (Str(x), Str(y)) => x == y,
            (Arr(x), Arr(y)) => Rc::ptr_eq(x, y),
            (Bytes(x), Bytes(y)) => Rc::ptr_eq(x, y),
            (Obj(x), Obj(y)) => Rc::ptr_eq(x, y),
            _ => false,
        }
    }
    fn get(v: &V, k: &[u8]) -> V {
        let n = std::str::from_utf8(k).ok().and_then(|x| x.parse::<usize>().ok());
        match v {
            Obj(o) => o.borrow().iter().find(|x| *x.0 == k).map_or(Undefined, |x| x.1.clone()),
            Arr(l) if k == b"length" => Num(l.borrow().len() as f64),
            Bytes(l) if k == b"length" => Num(l.borrow().len() as f64),
            Arr(l) => n.and_then(|i| l.borrow().get(i).cloned()).unwrap_or(Undefined),
            Bytes(l) => n.and_then(|i| l.borrow().get(i).map(|x| Num(*x as f64))).unwrap_or(Undefined),
            Undefined | Null => panic!("a property of nothing"),
            _ => Undefined,
        }
    }
    fn put_in(o: &V, k: Rc<Vec<u8>>, v: V) {
        let Obj(o) = o else { panic!("unmodelled assignment") };
        let mut o = o.borrow_mut();
        match o.iter_mut().find(|x| x.0 == k) {
            Some(x) => x.1 = v,
            None => o.push((k, v)),
        }
    }
    fn list(v: &V) -> Vec<V> {
        match v {
            Arr(l) => l.borrow().clone(),
            Bytes(l) => l.borrow().iter().map(|x| Num(*x as f64)).collect(),
            _ => panic!("unmodelled list"),
        }
    }
    fn octets(v: &V) -> Vec<u8> {
        match v {
            Bytes(l) => l.borrow().clone(),
            Arr(l) => l
                .borrow()
                .iter()
                .map(|x| match x {
                    Num(n) => *n as i64 as u8,
                    _ => 0,
                })
                .collect(),
            Num(n) => vec![0; *n as usize],
            _ => vec![],
        }
    }
    fn len(v: &V) -> u32 {
        match v {
            Arr(l) => l.borrow().len() as u32,
            Bytes(l) => l.borrow().len() as u32,
            Str(s) => s.len() as u32,
            _ => 0,
        }
    }
    fn clamp(i: u32, n: usize) -> usize {
        let i = i as i32 as i64;
        (if i < 0 { i + n as i64 } else { i }).clamp(0, n as i64) as usize
    }
    macro_rules! js {
        ($($name:ident($($a:ident: $t:ty),*) $(-> $r:ty)? $b:block)*) => { $(#[no_mangle] pub unsafe extern "C" fn $name($($a: $t),*) $(-> $r)? $b)* };
    }
    js! {
        js_object_clone_ref_1(i: u32) -> u32 { put(at(i)) }
        js_object_drop_ref_1(i: u32) {
            at(i);
            if i >= FIRST { heap()[(i - FIRST) as usize] = None }
        }
        js_string_new_2(p: *const u8, n: usize) -> u32 { put(Str(Rc::new(std::slice::from_raw_parts(p, n).to_vec()))) }
        js_number_new_1(f: f64) -> u32 { put(Num(f)) }
        js_is_null_1(i: u32) -> u32 { matches!(at(i), Null) as u32 }
        js_is_undefined_1(i: u32) -> u32 { matches!(at(i), Undefined) as u32 }
        js_is_object_1(i: u32) -> u32 { matches!(at(i), Obj(_) | Arr(_) | Bytes(_)) as u32 }
        js_is_array_1(i: u32) -> u32 { matches!(at(i), Arr(_)) as u32 }
        js_is_string_1(i: u32) -> u32 { matches!(at(i), Str(_)) as u32 }
        js_is_function_1(_i: u32) -> u32 { 0 }
        js_is_symbol_1(_i: u32) -> u32 { 0 }
        js_is_bigint_1(_i: u32) -> u32 { 0 }
        js_is_falsy_1(i: u32) -> u32 { match at(i) { Undefined | Null => 1, Bool(b) => !b as u32, Num(x) => (x == 0.0) as u32, Str(s) => s.is_empty() as u32, _ => 0 } }
        js_typeof_1(i: u32) -> u32 {
            let t = match at(i) { Undefined => "undefined", Bool(_) => "boolean", Num(_) => "number", Str(_) => "string", _ => "object" };
            put(Str(Rc::new(t.into())))
        }
        js_number_get_2(r: *mut u8, i: u32) {
            let v = at(i);
            *(r as *mut u32) = matches!(v, Num(_)) as u32;
            if let Num(x) = v { *(r.add(8) as *mut f64) = x }
        }
        js_as_number_1(i: u32) -> f64 { match at(i) { Num(x) => x, _ => f64::NAN } }
        js_boolean_get_1(i: u32) -> u32 { match at(i) { Bool(b) => b as u32, _ => 2 } }
        js_string_get_2(r: *mut u32, i: u32) {
            if let Str(s) = at(i) {
                let b = Vec::clone(&s).into_boxed_slice();
                let n = b.len();
                *r = Box::into_raw(b) as *mut u8 as u32;
                *r.add(1) = n as u32;
            } else {
                *r = 0;
                *r.add(1) = 0;
            }
        }
        js_jsval_eq_2(a: u32, b: u32) -> u32 { eq(&at(a), &at(b)) as u32 }
        js_is_2(a: u32, b: u32) -> u32 { eq(&at(a), &at(b)) as u32 }
        js_in_2(k: u32, o: u32) -> u32 { !matches!(get(&at(o), &key(at(k))), Undefined) as u32 }
        js_throw_2(_p: *const u8, _n: usize) { panic!("a JavaScript exception") }
        js_error_new_2(p: *const u8, n: usize) -> u32 { put(Str(Rc::new(std::slice::from_raw_parts(p, n).to_vec()))) }
        js_memory_0() -> u32 { put(Memory) }
        js_buffer_1(_i: u32) -> u32 { put(Memory) }
        // Array
        js_get_3baa728f9d58d3f6(a: u32, i: u32) -> u32 { let l = list(&at(a)); put(l.get(i as usize).cloned().unwrap_or(Undefined)) }
        js_at_2(a: u32, i: u32) -> u32 {
            let l = list(&at(a));
            let i = i as i32;
            let i = if i < 0 { i + l.len() as i32 } else { i };
            put(l.get(i as usize).cloned().unwrap_or(Undefined))
        }
        js_set_673dda6c73d19609(a: u32, i: u32, v: u32) {
            let Arr(l) = at(a) else { panic!("no array") };
            let mut l = l.borrow_mut();
            while l.len() <= i as usize { l.push(Undefined) }
            l[i as usize] = at(v);
        }
        js_length_1(a: u32) -> u32 { len(&at(a)) }
        js_new_a220cf903aa02ca2() -> u32 { array(vec![]) }
        js_newwithlength_b5660ad84eb3e8a9(n: u32) -> u32 { array(vec![Undefined; n as usize]) }
        js_from_0791d740a9d37830(v: u32) -> u32 { array(list(&at(v))) }
        js_isArray_1(v: u32) -> u32 { matches!(at(v), Arr(_)) as u32 }
        js_of_1(a: u32) -> u32 { array(vec![at(a)]) }
        js_of_2(a: u32, b: u32) -> u32 { array(vec![at(a), at(b)]) }
        js_of_3(a: u32, b: u32, c: u32) -> u32 { array(vec![at(a), at(b), at(c)]) }
        js_of_4(a: u32, b: u32, c: u32, d: u32) -> u32 { array(vec![at(a), at(b), at(c), at(d)]) }
        js_push_2(a: u32, v: u32) -> u32 {
            let Arr(l) = at(a) else { panic!("no array") };
            l.borrow_mut().push(at(v));
            let n = l.borrow().len();
            n as u32
        }
        js_instanceof_Array_1(v: u32) -> u32 { matches!(at(v), Arr(_)) as u32 }
        js_instanceof_Uint8Array_1(v: u32) -> u32 { matches!(at(v), Bytes(_)) as u32 }
        js_instanceof_Object_1(v: u32) -> u32 { matches!(at(v), Arr(_) | Bytes(_) | Obj(_)) as u32 }
        // Object, Reflect
        js_new_525245e2b9901204() -> u32 { put(Obj(Rc::new(RefCell::new(vec![])))) }
        js_entries_1(o: u32) -> u32 {
            match at(o) {
                Obj(o) => array(o.borrow().iter().map(|(k, v)| Arr(Rc::new(RefCell::new(vec![Str(k.clone()), v.clone()])))).collect()),
                _ => array(vec![]),
            }
        }
        js_keys_1(o: u32) -> u32 {
            match at(o) {
                Obj(o) => array(o.borrow().iter().map(|(k, _)| Str(k.clone())).collect()),
                _ => array(vec![]),
            }
        }
        js_ownKeys_1(o: u32) -> u32 { js_keys_1(o) }
        js_values_1(o: u32) -> u32 {
            match at(o) {
                Obj(o) => array(o.borrow().iter().map(|(_, v)| v.clone()).collect()),
                _ => array(vec![]),
            }
        }
        js_fromEntries_1(l: u32) -> u32 {
            let o = Obj(Rc::new(RefCell::new(vec![])));
            for e in list(&at(l)) {
                put_in(&o, key(get(&e, b"0")), get(&e, b"1"));
            }
            put(o)
        }
        js_assign_2(a: u32, b: u32) -> u32 {
            let o = at(a);
            if let Obj(x) = at(b) {
                let x = x.borrow().clone();
                for (k, v) in x { put_in(&o, k, v) }
            }
            put(o)
        }
        js_hasOwnProperty_2(o: u32, k: u32) -> u32 { let k = key(at(k)); match at(o) { Obj(o) => o.borrow().iter().any(|x| x.0 == k) as u32, _ => 0 } }
        js_get_224d16597dbbfd96(o: u32, k: u32) -> u32 { put(get(&at(o), &key(at(k)))) }
        js_get_851b0d426e9c3b1d(o: u32, k: u32) -> u32 { put(get(&at(o), k.to_string().as_bytes())) }
        js_set_eacc7d73fefaafdf(o: u32, k: u32, v: u32) -> u32 { put_in(&at(o), key(at(k)), at(v)); 1 }
        js_has_2(o: u32, k: u32) -> u32 { js_hasOwnProperty_2(o, k) }
        // Uint8Array
        js_new_ea1883e1e5e86686(v: u32) -> u32 { match at(v) { Memory => put(Memory), v => bytes(octets(&v)) } }
        js_newwithlength_ec548f448387c968(n: u32) -> u32 { bytes(vec![0; n as usize]) }
        js_newwithbyteoffsetandlength_3(b: u32, p: *const u8, n: usize) -> u32 {
            let Memory = at(b) else { panic!("unmodelled buffer") };
            bytes(std::slice::from_raw_parts(p, n).to_vec())
        }
        js_set_d1e79e2388520f18(a: u32, b: u32, o: u32) {
            let x = octets(&at(b));
            match at(a) {
                Memory => std::ptr::copy_nonoverlapping(x.as_ptr(), o as *mut u8, x.len()),
                Bytes(l) => l.borrow_mut()[o as usize..][..x.len()].copy_from_slice(&x),
                _ => panic!("no Uint8Array"),
            }
        }
        js_getindex_2(a: u32, i: u32) -> u32 { match at(a) { Bytes(l) => l.borrow()[i as usize] as u32, _ => panic!("no Uint8Array") } }
        js_setindex_3(a: u32, i: u32, x: u32) { match at(a) { Bytes(l) => l.borrow_mut()[i as usize] = x as u8, _ => panic!("no Uint8Array") } }
        js_slice_3(a: u32, b: u32, e: u32) -> u32 {
            let l = octets(&at(a));
            let (b, e) = (clamp(b, l.len()), clamp(e, l.len()));
            bytes(l[b.min(e)..e].to_vec())
        }
        js_subarray_3(a: u32, b: u32, e: u32) -> u32 { js_slice_3(a, b, e) }
    }
}

// ---- JavaScript values
fn js_list(l: impl IntoIterator<Item = JsValue>) -> JsValue {
    let a = Array::new();
    for x in l {
        a.push(&x);
    }
    a.into()
}
fn js_headers(h: &[(String, String)]) -> JsValue {
    js_list(h.iter().map(|(n, v)| Array::of2(&n.into(), &v.into()).into()))
}
/// a body is a Uint8Array or an array of numbers
fn js_body(b: &[u8], plain: bool) -> JsValue {
    match plain {
        false => Uint8Array::from(b).into(),
        true => js_list(b.iter().map(|x| JsValue::from(*x))),
    }
}
/// an object with these properties, in one of several orders
fn js_object(mut l: Vec<(&str, JsValue)>, order: usize) -> JsValue {
    match order {
        0 => {}
        1 => l.reverse(),
        n => l.rotate_left(n - 1),
    }
    Object::from_entries(&js_list(l.into_iter().map(|(k, v)| Array::of2(&k.into(), &v).into())).into()).unwrap().into()
}
fn field(o: &JsValue, k: &str) -> JsValue {
    Reflect::get(o, &k.into()).unwrap_or(JsValue::UNDEFINED)
}
fn pairs(v: &JsValue) -> Option<Vec<(String, String)>> {
    if !Array::is_array(v) {
        return None;
    }
    Array::from(v)
        .iter()
        .map(|x| {
            let x = Array::from(&x);
            Some((x.get(0).as_string()?, x.get(1).as_string()?))
        })
        .collect()
}
struct How {
    order: usize,
    plain: bool,
    extra: bool,
}
fn how() -> How {
    let order = nd::choice(5);
    How { order, plain: order % 2 == 1, extra: order > 2 }
}
const PLAIN: How = How { order: 0, plain: false, extra: false };
struct Call {
    id: Vec<u8>,
    now: u64,
    offset: u64,
    key: Vec<u8>,
    min: u8,
}
fn usual() -> Call {
    Call { id: vec![1], now: 5, offset: 0, key: crate::cv::der(&crate::cv::key(1, 2)), min: 1 }
}
fn code(e: &E) -> C {
    match e {
        E::IoError(_) => C::IoError,
        E::UnsupportedVerificationVersion { .. } => C::UnsupportedVerificationVersion,
        E::RequestedVerificationVersionMismatch { .. } => C::RequestedVerificationVersionMismatch,
        E::CelError(_) => C::CelError,
        E::Base64DecodingError(_) => C::Base64DecodingError,
        E::ParseIntError(_) => C::ParseIntError,
        E::InvalidTree => C::InvalidTree,
        E::InvalidExpressionPath => C::InvalidExpressionPath,
        E::UnexpectedExpressionPathPrefix { .. } => C::UnexpectedExpressionPathPrefix,
        E::UnexpectedExpressionPathSuffix { .. } => C::UnexpectedExpressionPathSuffix,
        E::ExactExpressionPathNotFoundInTree { .. } => C::ExactExpressionPathNotFoundInTree,
        E::ExactExpressionPathMismatch { .. } => C::ExactExpressionPathMismatch,
        E::ExactExpressionPathMightExistInTree { .. } => C::ExactExpressionPathMightExistInTree,
        E::WildcardExpressionPathNotFoundInTree { .. } => C::WildcardExpressionPathNotFoundInTree,
        E::WildcardExpressionPathMismatch { .. } => C::WildcardExpressionPathMismatch,
        E::MoreSpecificWildcardExpressionMightExistInTree { .. } => C::MoreSpecificWildcardExpressionMightExistInTree,
        E::InvalidResponseBody => C::InvalidResponseBody,
        E::InvalidResponseHashes => C::InvalidResponseHashes,
        E::MissingCertificate => C::MissingCertificate,
        E::MissingTree => C::MissingTree,
        E::MissingCertificateExpressionPath => C::MissingCertificateExpressionPath,
        E::MissingCertificateExpression => C::MissingCertificateExpression,
        E::MissingCertification => C::MissingCertification,
        E::CborDecodingFailed(_) => C::CborDecodingFailed,
        E::CertificateVerificationFailed(_) => C::CertificateVerificationFailed,
        E::HttpCertificationError(_) => C::HttpCertificationError,
    }
}
/// calls the library and its JavaScript binding, and compares
fn alike(rq: &Rq, url: &str, rs: &Rs, c: &Call, w: &How) -> Option<VerificationInfo> {
    let real = rq.at(url);
    let mut q = vec![
        ("url", JsValue::from(real.url())),
        ("method", rq.method.into()),
        ("body", js_body(&rq.body, w.plain)),
        ("headers", js_headers(&rq.headers)),
    ];
    let mut s = vec![("status_code", JsValue::from(rs.status)), ("headers", js_headers(&rs.headers)), ("body", js_body(&rs.body, w.plain))];
    if w.extra {
        q.push(("certificate_version", Array::of1(&2.into()).into()));
        s.push(("upgrade", Array::new().into()));
        s.push(("statusCode", 299.into()));
    }
    let a = ic_response_verification::verify_request_response_pair(real, rs.real(), &c.id, c.now as u128, c.offset as u128, &c.key, c.min);
    let b = ic_response_verification_wasm::verify_request_response_pair(
        js_object(q, w.order).unchecked_into(),
        js_object(s, w.order).unchecked_into(),
        &c.id,
        c.now,
        c.offset,
        &c.key,
        c.min,
    );
    match (a, b) {
        (Ok(a), Ok(b)) => {
            nd::cover("accepted");
            let b: JsValue = b.into();
            nd::check(field(&b, "verificationVersion").as_f64() == Some(a.verification_version as f64), "JavaScript is told another version");
            let r = field(&b, "response");
            match &a.response {
                None => nd::check(r.is_undefined(), "JavaScript is shown a response where there is none"),
                Some(x) => {
                    let st = field(&r, "statusCode");
                    match x.status_code {
                        None => nd::check(st.is_undefined(), "JavaScript is shown a status code that is not certified"),
                        Some(n) => nd::check(st.as_f64() == Some(n as f64), "JavaScript is shown another status code"),
                    }
                    let body = field(&r, "body");
                    nd::check(body.is_instance_of::<Uint8Array>() && Uint8Array::new(&body).to_vec() == x.body, "JavaScript is shown another body");
                    match pairs(&field(&r, "headers")) {
                        None => nd::check(false, "JavaScript is shown headers that are none"),
                        Some(h) => nd::check(h.len() == x.headers.len() && same(&h, &x.headers), "JavaScript is shown other headers"),
                    }
                }
            }
            Some(a)
        }
        (Err(a), Err(b)) => {
            nd::cover("rejected");
            nd::check(b.code == code(&a), "JavaScript is told another reason");
            nd::check(b.message == a.to_string(), "JavaScript is told another message");
            None
        }
        _ => {
            nd::check(false, "the verdict in JavaScript is another one");
            None
        }
    }
}
fn status() -> u16 {
    nd::pick(&[100, 200, 206, 255, 256, 299, 404, 503, 599, 999])
}

// ---- the checks
/// every part of the request gets there: the certified request and one that differs somewhere
fn c38_request() {
    let ex = Ex::Full(vec!["a".into()], vec!["q".into()], Which::Only(vec![]));
    let mut rq = Rq { method: nd::pick(&["GET", "PURGE"]), query: Some("q=1&r=2".into()), headers: vec![("A".into(), "1".into()), ("b".into(), "2".into())], body: vec![1, 200] };
    let rs = Rs { status: 200, headers: vec![(EXPR.into(), ex.text())], body: vec![] };
    let t = build(&[[exact_p(), ex.below(&ex.text(), &rq, &rs)].concat()]);
    let c = signed(&state(&[1], &t.digest()));
    let mut r = rs.clone();
    r.headers.push((CERT.into(), cert_header(&c, &t, Some("2"), Some(&exact_p()))));
    let mut url = "/p";
    match nd::choice(7) {
        0 => {}
        1 => rq.method = "PUT",
        2 => rq.body[nd::choice(2)] = nd::u8(),
        3 => rq.body.push(nd::u8()),
        4 => rq.headers[nd::choice(2)].1 = nd::value(1),
        5 => rq.query = Some(format!("{}=1&r=2", nd::param(1))),
        _ => url = "/q",
    }
    alike(&rq, url, &r, &usual(), &how());
}
/// every part of the response gets there
fn c38_response() {
    let ex = Ex::Only(Which::Only(vec!["a".into()]));
    let rs = Rs { status: nd::pick(&[200, 299]), headers: vec![("A".into(), "1".into()), (EXPR.into(), ex.text()), ("b".into(), "".into())], body: vec![1, 200] };
    let t = both(&ex, &rs);
    let c = signed(&state(&[1], &t.digest()));
    let mut r = rs.clone();
    r.headers.push((CERT.into(), cert_header(&c, &t, Some(nd::pick(&["1", "2"])), Some(&exact_p()))));
    match nd::choice(6) {
        0 => {}
        1 => r.status = status(),
        2 => r.body[nd::choice(2)] = nd::u8(),
        3 => r.body.push(nd::u8()),
        4 => r.headers[nd::pick(&[0, 2])].1 = nd::value(1),
        _ => r.headers.insert(nd::choice(3), (nd::token(1), "3".into())),
    }
    alike(&get(), "/p", &r, &usual(), &how());
}
/// what is shown of accepted responses
fn shown_of(n: usize) {
    let ex = match nd::choice(4) {
        0 => Ex::Skip,
        1 => Ex::Only(Which::Except(vec![])),
        2 => Ex::Full(vec![], vec![], Which::Except(vec!["b".into()])),
        _ => Ex::Only(Which::Only(vec!["a".into(), "c".into()])),
    };
    let mut h: Vec<(String, String)> = (0..nd::range(0, n)).map(|_| (nd::token(1), nd::value(nd::range(0, 2)))).collect();
    h.insert(nd::choice(h.len() + 1), (EXPR.into(), ex.text()));
    let rs = Rs { status: status(), headers: h, body: nd::bytes(nd::range(0, 3)) };
    let t = both(&ex, &rs);
    let c = signed(&state(&[1], &t.digest()));
    let mut r = rs.clone();
    r.headers.push((CERT.into(), cert_header(&c, &t, Some(nd::pick(&["1", "2"])), Some(&exact_p()))));
    nd::check(alike(&get(), "/p", &r, &usual(), &PLAIN).is_some(), "a certified response is rejected");
}
fn c38_shown() {
    shown_of(1)
}
/// headers of one name, in several spellings, with the same or other values
fn c38_repeated() {
    let ex = if nd::choice(2) == 0 { Ex::Only(Which::Except(vec![])) } else { Ex::Only(Which::Only(vec!["a".into()])) };
    let mut h: Vec<(String, String)> = (0..nd::range(2, 3)).map(|_| (nd::pick(&["a", "A", "b"]).into(), nd::pick(&["1", "2", ""]).into())).collect();
    h.insert(nd::choice(2), (EXPR.into(), ex.text()));
    let rs = Rs { status: 200, headers: h, body: vec![] };
    let t = both(&ex, &rs);
    let c = signed(&state(&[1], &t.digest()));
    let mut r = rs.clone();
    r.headers.push((CERT.into(), cert_header(&c, &t, Some("2"), Some(&exact_p()))));
    alike(&get(), "/p", &r, &usual(), &PLAIN);
}
fn c38_shown_t() {
    shown_of(2)
}
/// versions, times, canisters and keys
fn c38_versions() {
    let ex = Ex::Only(Which::Only(vec![]));
    let rs = Rs { status: 200, headers: vec![(EXPR.into(), ex.text())], body: vec![7] };
    let t = both(&ex, &rs);
    let c = signed(&state(&[1], &t.digest()));
    let mut r = rs.clone();
    r.headers.push((CERT.into(), cert_header(&c, &t, Some(nd::pick(&["1", "2", "3", "x"])), Some(&exact_p()))));
    let mut k = usual();
    match nd::choice(5) {
        0 => k.min = nd::u8(),
        1 => {
            k.now = nd::u64();
            k.offset = nd::u64();
        }
        2 => k.id = nd::bytes(nd::range(0, 2)),
        3 => {
            let i = nd::pick(&[0, 40, k.key.len() - 1]);
            k.key[i] = nd::u8();
        }
        _ => k.key.truncate(nd::pick(&[0, 50])),
    }
    alike(&get(), "/p", &r, &k, &PLAIN);
    nd::check(ic_response_verification_wasm::get_min_verification_version() == ic_response_verification::MIN_VERIFICATION_VERSION, "another lowest version");
    nd::check(ic_response_verification_wasm::get_max_verification_version() == ic_response_verification::MAX_VERIFICATION_VERSION, "another highest version");
}
/// reasons for which responses are rejected
fn c38_errors() {
    let ex = Ex::Only(Which::Only(vec![]));
    let rs = Rs { status: 200, headers: vec![(EXPR.into(), if nd::choice(4) == 0 { "x".into() } else { ex.text() })], body: vec![7] };
    let t = both(&ex, &rs);
    let c = signed(&state(&[1], &t.digest()));
    let p = match nd::choice(6) {
        0 => None,
        1 => Some(path(&[b"http_expr", b"p", b"<*>"])),
        2 => Some(path(&[b"x", b"p", b"<$>"])),
        3 => Some(path(&[b"http_expr", b"p"])),
        4 => Some(path(&[b"http_expr", b"<*>"])),
        _ => Some(exact_p()),
    };
    let full = cert_header(&c, &t, nd::pick(&[Some("2"), Some("1"), None, Some("9"), Some("zz")]), p.as_deref());
    let full = match if p.is_some() { 4 } else { nd::choice(5) } {
        0 => full.replace("certificate=", "certificat="),
        1 => full.replace("tree=", "three="),
        2 => full.replace("tree=:", "tree=:A"),
        3 => full.replace("certificate=:", "certificate=:AAAA"),
        _ => full,
    };
    let mut r = rs.clone();
    let (mut url, what) = ("/p", nd::choice(7));
    match what {
        0 => {}
        1 => r.body.clear(),
        2 => url = "/q",
        3 => url = "//",
        4 => url = "::",
        _ => {}
    }
    if what != 5 {
        r.headers.push((CERT.into(), full));
    }
    if what == 6 {
        r.headers.remove(0);
    }
    alike(&get(), url, &r, &usual(), &PLAIN);
}
/// every error there is: its code and text
fn c38_codes() {
    let p = || vec!["http_expr".to_string(), "a".to_string()];
    let e = match nd::choice(19) {
        0 => E::IoError("x".into()),
        1 => E::UnsupportedVerificationVersion { min_supported_version: 1, max_supported_version: 2, requested_version: 3 },
        2 => E::RequestedVerificationVersionMismatch { min_requested_verification_version: 2, requested_version: 1 },
        3 => E::InvalidTree,
        4 => E::InvalidExpressionPath,
        5 => E::UnexpectedExpressionPathPrefix { provided_expr_path: p() },
        6 => E::UnexpectedExpressionPathSuffix { provided_expr_path: p() },
        7 => E::ExactExpressionPathNotFoundInTree { provided_expr_path: p() },
        8 => E::ExactExpressionPathMismatch { provided_expr_path: p(), request_path: "/b".into() },
        9 => E::ExactExpressionPathMightExistInTree { provided_expr_path: p(), potential_expr_path: p(), request_path: "/b".into() },
        10 => E::WildcardExpressionPathNotFoundInTree { provided_expr_path: p(), request_path: "/b".into() },
        11 => E::WildcardExpressionPathMismatch { provided_expr_path: p(), request_path: "/b".into() },
        12 => E::MoreSpecificWildcardExpressionMightExistInTree { provided_expr_path: p(), more_specific_expr_path: p(), request_path: "/b".into() },
        13 => E::InvalidResponseBody,
        14 => E::InvalidResponseHashes,
        15 => E::MissingCertificate,
        16 => E::MissingTree,
        17 => E::MissingCertificateExpressionPath,
        _ => nd::pick(&[0, 1]).eq(&0).then(|| E::MissingCertificateExpression).unwrap_or(E::MissingCertification),
    };
    let (c, t) = (code(&e), e.to_string());
    let j = ic_response_verification::ResponseVerificationJsError::from(e);
    nd::check(j.code == c, "JavaScript is told another reason");
    nd::check(j.message == t, "JavaScript is told another message");
}
/// texts of any characters, beyond ASCII too
fn c38_anytext() {
    let ex = Ex::Only(Which::Except(vec![]));
    let b = nd::bytes(2);
    let v = if nd::choice(2) == 0 {
        let Ok(s) = String::from_utf8(b.clone()) else { return };
        s
    } else {
        nd::value(3)
    };
    let rs = Rs { status: 200, headers: vec![(nd::token(nd::range(1, 2)), v), (EXPR.into(), ex.text())], body: b };
    let t = both(&ex, &rs);
    let c = signed(&state(&[1], &t.digest()));
    let mut r = rs.clone();
    r.headers.push((CERT.into(), cert_header(&c, &t, Some("2"), Some(&exact_p()))));
    let rq = Rq { method: "GET", query: Some(nd::query(1)), headers: vec![], body: vec![] };
    alike(&rq, "/p", &r, &usual(), &PLAIN);
}
