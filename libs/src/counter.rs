//! Harnesses over the counter demo contract.
#[path = "../../harness/src/vp.rs"]
pub mod vp;
#[path = "../../harness/src/env.rs"]
pub mod env;
#[path = "../../harness/src/cbs.rs"]
pub mod cbs;
#[path = "../../harness/src/h_counter.rs"]
pub mod h_counter;

#[macro_export]
macro_rules! harnesses {
    ($reg:ident: $($name:ident)*) => {
        pub static $reg: &[(&str, fn())] = &[$((stringify!($name), $name)),*];
        #[cfg(target_arch = "wasm32")]
        mod ex { $(#[export_name = stringify!($name)] pub extern "C" fn $name() { super::$name() })* }
    };
}
pub fn all() -> Vec<(&'static str, fn())> { h_counter::REG.to_vec() }
