//! Loaded before a server that the checks run: its connections send at once. Otherwise Nagle's algorithm holds
//! every answer back until the client's delayed acknowledgement, 40 ms later, and the checks get nowhere.
use std::ffi::{c_int, c_long, c_void};

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn setsockopt(fd: c_int, level: c_int, name: c_int, value: *const c_void, len: u32) -> c_int;
}

#[cfg(target_arch = "x86_64")]
const ACCEPT4: c_long = 288;
#[cfg(target_arch = "aarch64")]
const ACCEPT4: c_long = 242;

/// As the C library's, but sets TCP_NODELAY.
///
/// # Safety
/// As the C library's.
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, addr: *mut c_void, len: *mut u32, flags: c_int) -> c_int {
    let r = syscall(ACCEPT4, fd as c_long, addr, len, flags as c_long) as c_int;
    if r >= 0 {
        let on: c_int = 1;
        setsockopt(r, 6, 1, &on as *const c_int as *const c_void, 4);
    }
    r
}
