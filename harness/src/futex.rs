//! std's locks, condition variables and parking sleep through `syscall(SYS_futex, ..)`.  This
//! definition takes the place of libc's, so that a controlled thread that would sleep there is
//! blocked in the explorer instead.
#![cfg(all(target_os = "linux", target_arch = "x86_64"))]

const SYS_FUTEX: i64 = 202;

extern "C" {
    fn __errno_location() -> *mut i32;
}

/// # Safety
/// like libc's
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == SYS_FUTEX {
        match b & 0x7f {
            // wait, wait_bitset
            0 | 9 => match verif_sched::futex_wait(a, c as u32) {
                Some(true) => return 0,
                Some(false) => {
                    *__errno_location() = 11;
                    return -1;
                }
                None => {}
            },
            // wake, wake_bitset
            1 | 10 => verif_sched::futex_wake(a),
            _ => {}
        }
    }
    let r: i64;
    core::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        out("rcx") _, out("r11") _,
        options(nostack)
    );
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
