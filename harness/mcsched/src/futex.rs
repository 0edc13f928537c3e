//! The standard library waits and wakes through `syscall(SYS_futex, ...)`. This definition of `syscall` takes the
//! place of the C library's in the final program: a virtual thread that would sleep gives the baton away instead,
//! so that locks, condition variables, channels and `park` of the standard library work under the scheduler.
use crate::{controlled, me, point, Pending, GLOBAL};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

thread_local! {
    static INSIDE: Cell<u32> = const { Cell::new(0) };
}
/// While it lives, the calling thread's futex calls are the scheduler's own and go to the kernel.
pub(crate) struct Inside;
pub(crate) fn inside() -> Inside {
    INSIDE.with(|i| i.set(i.get() + 1));
    Inside
}
impl Drop for Inside {
    fn drop(&mut self) {
        INSIDE.with(|i| i.set(i.get() - 1));
    }
}

unsafe fn fail(errno: i32) -> libc::c_long {
    *libc::__errno_location() = errno;
    -1
}

unsafe fn kernel(n: libc::c_long, a: [usize; 6]) -> libc::c_long {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
    if (-4095..0).contains(&r) {
        return fail(-r as i32);
    }
    r as libc::c_long
}

pub(crate) fn kernel_wait(word: &AtomicU32, expected: u32) {
    unsafe {
        kernel(libc::SYS_futex, [word as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, expected as usize, 0, 0, 0]);
    }
}
pub(crate) fn kernel_wake(word: &AtomicU32) {
    unsafe {
        kernel(libc::SYS_futex, [word as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0]);
    }
}
pub(crate) fn is_inside() -> bool {
    INSIDE.with(|i| i.get()) > 0
}

/// # Safety
/// As the C library's `syscall`.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if n == libc::SYS_futex && controlled() && !is_inside() {
        let word = a as *const AtomicU32;
        match b as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME) {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                if (*word).load(SeqCst) != c as u32 {
                    return fail(libc::EAGAIN);
                }
                if d != 0 {
                    // a wait with a time limit may always end by it
                    point(Pending::Free);
                    return fail(libc::ETIMEDOUT);
                }
                point(Pending::Futex(word, c as u32));
                woken(a);
                return 0;
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => return wake(a, c),
            _ => {}
        }
    }
    kernel(n, [a, b, c, d, e, f])
}

fn woken(addr: usize) {
    let _inside = inside();
    let id = me();
    let mut g = GLOBAL.exec.lock().unwrap();
    let ex = g.as_mut().unwrap();
    ex.threads[id].woken = false;
    ex.event(id, 11, addr, true);
}

fn wake(addr: usize, n: usize) -> libc::c_long {
    let _inside = inside();
    let id = me();
    let mut g = GLOBAL.exec.lock().unwrap();
    let ex = g.as_mut().unwrap();
    ex.event(id, 12, addr, true);
    let mut count = 0;
    for t in ex.threads.iter_mut() {
        if count < n && !t.woken && matches!(t.pending, Pending::Futex(a, _) if a as usize == addr) {
            t.woken = true;
            count += 1;
        }
    }
    count as libc::c_long
}

/// # Safety
/// As the C library's `sched_yield`.
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> libc::c_int {
    if controlled() && !is_inside() {
        crate::give_way();
        return 0;
    }
    kernel(libc::SYS_sched_yield, [0; 6]) as libc::c_int
}
