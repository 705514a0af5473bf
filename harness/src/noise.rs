//! Schedule noise: on threads that ask for it, random pauses at memory allocations and after a lock with waiters
//! has been released, so that operations of several threads interleave in places where they otherwise rarely do.
use libc::{c_int, c_long};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    /// State of the thread's generator; zero means no noise.
    static STATE: Cell<u64> = const { Cell::new(0) };
    /// One in this many allocations pauses.
    static RATE: Cell<u64> = const { Cell::new(1) };
}

/// Starts (or, with zero, stops) noise on this thread.
pub fn on(seed: u64) {
    let rate = [6, 24, 100, 400][(seed >> 7) as usize % 4];
    let _ = RATE.try_with(|r| r.set(rate));
    let _ = STATE.try_with(|s| s.set(if seed == 0 { 0 } else { seed.wrapping_mul(0x9E3779B97F4A7C15) | 1 }));
    unsafe {
        libc::prctl(libc::PR_SET_TIMERSLACK, if seed == 0 { 50_000 } else { 1 });
    }
}

#[inline]
fn draw() -> Option<u64> {
    STATE
        .try_with(|c| {
            let mut s = c.get();
            if s == 0 {
                return None;
            }
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            c.set(s);
            Some(s)
        })
        .ok()
        .flatten()
}

fn nap(us: u64) {
    let t = libc::timespec { tv_sec: 0, tv_nsec: (us * 1000) as c_long };
    unsafe {
        libc::nanosleep(&t, std::ptr::null_mut());
    }
}

#[inline]
pub fn tick() {
    if let Some(s) = draw() {
        if (s >> 20) % RATE.try_with(|r| r.get()).unwrap_or(1) == 0 {
            match (s >> 50) % 8 {
                0..=2 => unsafe {
                    libc::sched_yield();
                },
                3..=5 => {
                    for _ in 0..(s >> 40) % 2000 {
                        std::hint::spin_loop();
                    }
                }
                _ => nap((s >> 40) % 120),
            }
        }
    }
}

struct Noisy;

unsafe impl GlobalAlloc for Noisy {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tick();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        tick();
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        tick();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        tick();
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Noisy = Noisy;

/// The standard library releases a lock that others wait for with a futex system call through this function;
/// giving the woken thread time to run makes a lock that is released and taken again actually change hands.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let mut r = n;
    core::arch::asm!("syscall", inlateout("rax") r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if n == libc::SYS_futex && (b as c_int & 0x7f) == libc::FUTEX_WAKE {
        if let Some(s) = draw() {
            if s >> 61 != 0 {
                nap(20 + (s >> 40) % 130);
            }
        }
    }
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = (-r) as c_int;
        return -1;
    }
    r
}
