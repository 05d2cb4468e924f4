#![allow(dead_code)]
#[cfg(target_arch = "wasm32")]
#[global_allocator]
static ALLOC: nd::A = nd::A;

/// Declares harnesses: each is an exported function of the symbolic build, and an entry of the native replay table.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident)*) => {
        #[cfg(target_arch = "wasm32")]
        mod exports { $(#[no_mangle] pub extern "C" fn $name() { super::$name() })* }
        #[cfg(not(target_arch = "wasm32"))]
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name),)*];
    };
}

include!("mods.rs");
