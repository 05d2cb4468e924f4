//! Stand-in for the BLS library: signature verification is an oracle. Exactly the (signature, message, key)
//! triples a harness has declared signed are valid.
pub mod bls12381 {
    pub mod bls {
        pub const BLS_OK: isize = 0;
        pub const BLS_FAIL: isize = -1;
        struct T(Vec<u8>, Vec<u8>, Vec<u8>);
        static SIGNED: std::sync::Mutex<Vec<T>> = std::sync::Mutex::new(Vec::new());
        static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        pub fn declare_signed(sig: &[u8], m: &[u8], w: &[u8]) {
            SIGNED.lock().unwrap().push(T(sig.to_vec(), m.to_vec(), w.to_vec()));
        }
        pub fn calls() -> usize {
            CALLS.load(std::sync::atomic::Ordering::SeqCst)
        }
        pub fn core_verify(sig: &[u8], m: &[u8], w: &[u8]) -> isize {
            CALLS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            for t in SIGNED.lock().unwrap().iter() {
                if t.0.len() == sig.len() && t.1.len() == m.len() && t.2.len() == w.len() && t.0 == sig && t.1 == m && t.2 == w {
                    return BLS_OK;
                }
            }
            BLS_FAIL
        }
        pub fn init() -> isize {
            BLS_OK
        }
    }
}
