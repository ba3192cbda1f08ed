//! The server's own `main`, from /repo's current source.
#[cfg(feature = "realmain")]
#[allow(warnings)]
mod real { include!(concat!(env!("OUT_DIR"), "/server_main.rs")); }
#[cfg(feature = "realmain")]
pub fn run() { real::__sim_run() }
#[cfg(not(feature = "realmain"))]
pub fn run() { panic!("built without the server's main") }
/// the server's main could be built in
pub const HAVE: bool = cfg!(feature = "realmain");
