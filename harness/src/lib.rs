//! Symbolic harnesses: each exported function drives the real contract entry points on symbolic inputs.
pub mod vp;
pub mod env;
pub mod api;
pub mod step;
pub mod h_hs;
pub mod h_own;
pub mod h_inst;
pub mod h_relay;
pub mod h_send;
pub mod h_resp;
pub mod h_misc;
pub mod h_hist;
pub mod h_scale;
#[cfg(feature = "lib")]
pub mod h_lib;

#[macro_export]
macro_rules! harnesses {
    ($reg:ident: $($name:ident)*) => {
        pub static $reg: &[(&str, fn())] = &[$((stringify!($name), $name)),*];
        #[cfg(target_arch = "wasm32")]
        mod ex { $(#[export_name = stringify!($name)] pub extern "C" fn $name() { super::$name() })* }
    };
}
pub fn all() -> Vec<(&'static str, fn())> { let mut v = vec![]; #[cfg(feature = "lib")] v.extend_from_slice(h_lib::REG); v.extend_from_slice(h_own::REG); v.extend_from_slice(h_hs::REG); v.extend_from_slice(h_inst::REG); v.extend_from_slice(h_relay::REG); v.extend_from_slice(h_send::REG); v.extend_from_slice(h_resp::REG); v.extend_from_slice(h_misc::REG); v.extend_from_slice(h_hist::REG); v.extend_from_slice(h_scale::REG); v }
