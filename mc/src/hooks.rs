//! Synchronization hooks for the schedules of C22. Built with `--cfg mc_sched` and with LLVM's
//! ThreadSanitizer pass (but without its runtime), which turns every atomic operation of the code
//! under test, including those of the inlined parts of locks, into a call of the functions below.
//! Each one is a scheduling point. Waiting for locks ends up in the futex system call, which is
//! intercepted, so that a thread that would block hands over, and deadlocks are detected exactly.

use crate::props::threads::{atom, futex_wait, futex_wake};
use std::arch::asm;

macro_rules! atomics {
    ($($t:ty, $ld:ident $st:ident $xc:ident $cas:ident $strong:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident;)*) => { $(
        unsafe fn $cas(p: *mut $t, old: $t, new: $t) -> $t {
            cas(p as *mut u8, old as u64, new as u64, std::mem::size_of::<$t>()) as $t
        }
        #[no_mangle]
        pub unsafe extern "C" fn $ld(p: *const $t, _: i32) -> $t {
            atom(p as usize, false);
            std::ptr::read_volatile(p)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $st(p: *mut $t, v: $t, _: i32) {
            atom(p as usize, true);
            rmw(p, |_| v, $cas);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xc(p: *mut $t, v: $t, _: i32) -> $t {
            atom(p as usize, true);
            rmw(p, |_| v, $cas)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $strong(p: *mut $t, old: $t, new: $t, _: i32, _: i32) -> $t {
            atom(p as usize, true);
            $cas(p, old, new)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _: i32) -> $t {
            atom(p as usize, true);
            rmw(p, |x| x.wrapping_add(v), $cas)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _: i32) -> $t {
            atom(p as usize, true);
            rmw(p, |x| x.wrapping_sub(v), $cas)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _: i32) -> $t {
            atom(p as usize, true);
            rmw(p, |x| x & v, $cas)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _: i32) -> $t {
            atom(p as usize, true);
            rmw(p, |x| x | v, $cas)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _: i32) -> $t {
            atom(p as usize, true);
            rmw(p, |x| x ^ v, $cas)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _: i32) -> $t {
            atom(p as usize, true);
            rmw(p, |x| !(x & v), $cas)
        }
    )* };
}

atomics! {
    u8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange cas8 __tsan_atomic8_compare_exchange_val __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand;
    u16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange cas16 __tsan_atomic16_compare_exchange_val __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand;
    u32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange cas32 __tsan_atomic32_compare_exchange_val __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand;
    u64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange cas64 __tsan_atomic64_compare_exchange_val __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand;
}

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    unsafe { asm!("mfence") }
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

/// Not with std's atomics, which would be instrumented in turn
unsafe fn cas(p: *mut u8, old: u64, new: u64, size: usize) -> u64 {
    let mut seen = old;
    match size {
        1 => asm!("lock cmpxchg byte ptr [{p}], {n}", p = in(reg) p, n = in(reg_byte) new as u8, inout("al") old as u8 => *(&mut seen as *mut u64 as *mut u8)),
        2 => asm!("lock cmpxchg word ptr [{p}], {n:x}", p = in(reg) p, n = in(reg) new as u16, inout("ax") old as u16 => *(&mut seen as *mut u64 as *mut u16)),
        4 => asm!("lock cmpxchg dword ptr [{p}], {n:e}", p = in(reg) p, n = in(reg) new as u32, inout("eax") old as u32 => *(&mut seen as *mut u64 as *mut u32)),
        _ => asm!("lock cmpxchg qword ptr [{p}], {n}", p = in(reg) p, n = in(reg) new, inout("rax") old => seen),
    }
    seen
}

unsafe fn rmw<T: Copy + PartialEq>(p: *mut T, f: impl Fn(T) -> T, cas: unsafe fn(*mut T, T, T) -> T) -> T {
    loop {
        let x = std::ptr::read_volatile(p);
        if cas(p, x, f(x)) == x {
            return x;
        }
    }
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

/// Takes the place of the C library's function for the whole program
#[no_mangle]
pub unsafe extern "C" fn syscall(num: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    const FUTEX: i64 = 202;
    let mut r: i64;
    if num == FUTEX {
        match b & 0x7F {
            // Wait, wait with a bit set
            0 | 9 => {
                if let Some(x) = futex_wait(a as usize, c as u32, d != 0) {
                    if x < 0 {
                        *__errno_location() = -x as i32;
                        return -1;
                    }
                    return x;
                }
            }
            // Wake, wake with a bit set
            1 | 10 => {
                if let Some(x) = futex_wake(a as usize, c as i32 as i64) {
                    return x;
                }
            }
            _ => (),
        }
    }
    asm!("syscall", inlateout("rax") num => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        r = -1;
    }
    r
}
