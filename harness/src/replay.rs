//! Native replay: runs one harness with the values the solver found.
#![allow(dead_code)]
#[macro_export]
macro_rules! harnesses {
    ($($name:ident)*) => {
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name),)*];
    };
}
include!("mods.rs");

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let v: Vec<u64> = std::fs::read_to_string(&a[2]).unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect();
    let f = TABLES.iter().flat_map(|t| t.iter()).find(|x| x.0 == a[1]).expect("harness").1;
    nd::set(v);
    f();
    println!("REPLAY-OK");
}
