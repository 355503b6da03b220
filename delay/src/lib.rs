//! Schedules are explored by delaying calls of the program under test.
//! $VH_DELAYS is a list of `call:end of a path:before:after;`, times being in
//! milliseconds, where call is open, rename or unlink.
#![allow(clippy::missing_safety_doc)]
use libc::{c_char, c_int, c_uint};
use std::ffi::CStr;

extern "C" {
    static program_invocation_short_name: *const c_char;
}
fn pause(ms: u64) {
    if ms > 0 {
        let mut t = libc::timespec { tv_sec: (ms / 1000) as _, tv_nsec: ((ms % 1000) * 1_000_000) as _ };
        // SAFETY: valid arguments
        while unsafe { libc::nanosleep(&t, &mut t) } != 0 {}
    }
}
/// Delays before and after a call
unsafe fn delays(call: &[u8], paths: &[*const c_char]) -> (u64, u64) {
    let spec = libc::getenv(c"VH_DELAYS".as_ptr());
    if spec.is_null() || program_invocation_short_name.is_null() || CStr::from_ptr(program_invocation_short_name).to_bytes() != b"crofiler" {
        return (0, 0);
    }
    let number = |s: &[u8]| s.iter().fold(0u64, |n, c| n * 10 + (c.wrapping_sub(b'0') % 10) as u64);
    for rule in CStr::from_ptr(spec).to_bytes().split(|c| *c == b';') {
        let mut f = rule.split(|c| *c == b':');
        let (Some(name), Some(end), Some(before), Some(after)) = (f.next(), f.next(), f.next(), f.next()) else { continue };
        if name == call && paths.iter().any(|p| !p.is_null() && CStr::from_ptr(*p).to_bytes().ends_with(end)) {
            return (number(before), number(after));
        }
    }
    (0, 0)
}
unsafe fn delayed(call: &[u8], paths: &[*const c_char], f: impl FnOnce() -> i64) -> c_int {
    let (before, after) = delays(call, paths);
    pause(before);
    let r = f();
    if after > 0 {
        let e = *libc::__errno_location();
        pause(after);
        *libc::__errno_location() = e;
    }
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    delayed(b"open", &[path], || libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode))
}
#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    delayed(b"rename", &[from, to], || libc::syscall(libc::SYS_rename, from, to))
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    delayed(b"unlink", &[path], || libc::syscall(libc::SYS_unlink, path))
}
