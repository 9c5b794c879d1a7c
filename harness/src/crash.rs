//! Tells crashes inside HiGHS from others: a worker that gets a fatal signal notes where it was.
use std::path::Path;

const FILE: &str = ".crash";

extern "C" fn on_signal(sig: libc::c_int) {
    // Not safe in a handler; the process is lost anyway, and if this hangs the alarm ends it.
    unsafe {
        libc::signal(libc::SIGALRM, libc::SIG_DFL);
        libc::alarm(30);
        libc::signal(sig, libc::SIG_DFL);
    }
    let _ = std::fs::write(FILE, std::backtrace::Backtrace::force_capture().to_string());
    unsafe { libc::raise(sig) };
}

pub fn install() {
    for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGFPE, libc::SIGABRT] {
        unsafe { libc::signal(sig, on_signal as *const () as libc::sighandler_t) };
    }
}

pub fn clear(dir: &Path) {
    let _ = std::fs::remove_file(dir.join(FILE));
}

/// Whether a worker died within the presolve of HiGHS.
pub fn in_presolve(dir: &Path) -> bool {
    std::fs::read_to_string(dir.join(FILE)).is_ok_and(|s| s.contains("HPresolve"))
}

/// Whether a worker died where HiGHS's scheduler is removed at the end of a thread.
pub fn at_thread_end(dir: &Path) -> bool {
    std::fs::read_to_string(dir.join(FILE)).is_ok_and(|s| s.contains("pthread_detach") && s.contains("call_tls_dtors"))
}

/// Prints where a worker died.
pub fn show(dir: &Path) {
    let s = std::fs::read_to_string(dir.join(FILE)).unwrap_or_default();
    for l in s.lines().filter(|l| !l.trim_start().starts_with("at /rustc")).take(60) {
        println!("  {}", l.trim_end());
    }
}
