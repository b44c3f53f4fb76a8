//! Raw system calls (the libc wrappers are interposed by this program).
use std::arch::asm;

#[inline(always)]
pub unsafe fn sc(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
/// result to libc convention
#[inline(always)]
pub unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
pub unsafe fn futex_wait(p: *const u32, v: u32) {
    sc(libc::SYS_futex, p as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, v as i64, 0, 0, 0);
}
pub unsafe fn futex_wake(p: *const u32, n: i32) {
    sc(libc::SYS_futex, p as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, n as i64, 0, 0, 0);
}
pub unsafe fn exit_group(c: i32) -> ! {
    sc(libc::SYS_exit_group, c as i64, 0, 0, 0, 0, 0);
    loop {}
}
