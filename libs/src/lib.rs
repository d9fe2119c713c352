//! Harnesses over the library as other contracts use it: without the `export` feature, with and without `query`.
#[path = "../../harness/src/vp.rs"]
pub mod vp;
#[path = "../../harness/src/env.rs"]
pub mod env;
#[path = "../../harness/src/h_lib.rs"]
pub mod h_lib;

#[macro_export]
macro_rules! harnesses {
    ($reg:ident: $($name:ident)*) => {
        pub static $reg: &[(&str, fn())] = &[$((stringify!($name), $name)),*];
        #[cfg(target_arch = "wasm32")]
        mod ex { $(#[export_name = stringify!($name)] pub extern "C" fn $name() { super::$name() })* }
    };
}
pub fn all() -> Vec<(&'static str, fn())> { h_lib::REG.to_vec() }
