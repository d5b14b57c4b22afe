//! Runs the workloads of the other checks under sanitizers and interpreters.

fn main() {
    let t = std::thread::Builder::new().stack_size(if cfg!(miri) { 8 << 20 } else { 256 << 20 }).spawn(|| vmon::range(core_harness::all())).expect("thread");
    let _ = t.join();
}
