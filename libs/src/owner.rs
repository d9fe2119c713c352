//! Harnesses over the owner demo contract.
#[path = "../../harness/src/vp.rs"]
pub mod vp;
#[allow(unused_macros, unused_imports)]
#[path = "../../harness/src/env.rs"]
pub mod env;
#[path = "../../harness/src/cbs.rs"]
pub mod cbs;
#[path = "../../harness/src/h_owner.rs"]
pub mod h_owner;

#[macro_export]
macro_rules! harnesses {
    ($reg:ident: $($name:ident)*) => {
        pub static $reg: &[(&str, fn())] = &[$((stringify!($name), $name)),*];
        #[cfg(target_arch = "wasm32")]
        mod ex { $(#[export_name = stringify!($name)] pub extern "C" fn $name() { super::$name() })* }
    };
}
pub fn all() -> Vec<(&'static str, fn())> { h_owner::REG.to_vec() }
