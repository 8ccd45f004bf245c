#[path = "../../rt/rt.rs"]
#[macro_use]
pub mod rt;
