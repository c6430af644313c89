#![recursion_limit = "256"]
#![allow(clippy::all)]
#[cfg(feature = "formats")]
pub mod c_dup;
#[cfg(feature = "formats")]
pub mod c_env;
#[cfg(feature = "formats")]
pub mod c_fault;
#[cfg(feature = "formats")]
pub mod c_hist;
#[cfg(feature = "formats")]
pub mod c_perm;
#[cfg(feature = "formats")]
pub mod c_race;
#[cfg(feature = "formats")]
pub mod c_req;
#[cfg(feature = "formats")]
pub mod c_rt;
#[cfg(feature = "formats")]
pub mod c_ser;
#[cfg(feature = "formats")]
pub mod c_tag;
pub mod ctx;
pub mod fams;
pub mod fork;
#[cfg(feature = "formats")]
pub mod formats;
pub mod model;
pub mod mutate;
pub mod obs;
pub mod play;
pub mod rec;
pub mod rng;
pub mod v;

/// Checks run on a thread with a deep stack, since deep documents need one.
pub fn main(run: fn(&str, &[String])) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    ctx::quiet_panics();
    let t = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || run(&args[0], &args[1..]))
        .unwrap();
    if t.join().is_err() {
        std::process::exit(3);
    }
}
