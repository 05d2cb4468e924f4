//! Stand-in for the sha2 crate in the symbolic build: the data is collected and handed to the engine, which
//! treats SHA-256 as an ideal (collision free, deterministic) hash. Concrete data gets its real digest.
use core::ops::Deref;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Output<const N: usize>(pub [u8; N]);
impl<const N: usize> From<Output<N>> for [u8; N] {
    fn from(o: Output<N>) -> [u8; N] {
        o.0
    }
}
impl<const N: usize> Output<N> {
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> Deref for Output<N> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> AsRef<[u8]> for Output<N> {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> IntoIterator for Output<N> {
    type Item = u8;
    type IntoIter = std::array::IntoIter<u8, N>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}

pub trait Digest: Sized {
    type Out;
    fn new() -> Self;
    fn update(&mut self, d: impl AsRef<[u8]>);
    fn finalize(self) -> Self::Out;
    fn chain_update(mut self, d: impl AsRef<[u8]>) -> Self {
        self.update(d);
        self
    }
    fn new_with_prefix(d: impl AsRef<[u8]>) -> Self {
        Self::new().chain_update(d)
    }
    fn finalize_reset(&mut self) -> Self::Out {
        core::mem::replace(self, Self::new()).finalize()
    }
    fn reset(&mut self) {
        *self = Self::new();
    }
    fn output_size() -> usize {
        core::mem::size_of::<Self::Out>()
    }
    fn digest(d: impl AsRef<[u8]>) -> Self::Out {
        Self::new().chain_update(d).finalize()
    }
}
macro_rules! h {
    ($n:ident, $l:expr) => {
        #[derive(Clone, Default, Debug)]
        pub struct $n(Vec<u8>);
        impl std::io::Write for $n {
            fn write(&mut self, d: &[u8]) -> std::io::Result<usize> {
                self.0.extend_from_slice(d);
                Ok(d.len())
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        impl Digest for $n {
            type Out = Output<$l>;
            fn new() -> Self {
                $n(Vec::new())
            }
            fn update(&mut self, d: impl AsRef<[u8]>) {
                self.0.extend_from_slice(d.as_ref())
            }
            fn finalize(self) -> Output<$l> {
                #[cfg(target_arch = "wasm32")]
                let d = nd::sha256_(&self.0);
                #[cfg(not(target_arch = "wasm32"))]
                let d = [0u8; 32];
                let mut o = [0u8; $l];
                o.copy_from_slice(&d[..$l]);
                Output(o)
            }
        }
    };
}
h!(Sha256, 32);
h!(Sha224, 28);
