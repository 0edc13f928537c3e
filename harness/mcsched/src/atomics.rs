//! Scheduling points at the atomics of the code under test. For the checks of concurrency, granne (and what of it
//! is instantiated by the harness) is compiled with LLVM's pass that turns atomic accesses into calls of the
//! functions below (tools/rustc-atomics). The accesses are carried out one at a time in the order of the schedule:
//! every sequentially consistent order, no weaker ones.
use crate::futex::is_inside;
use crate::{controlled, inside, me, point, Pending, GLOBAL, MANY};
use std::sync::atomic::{AtomicBool, AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

static ON: AtomicBool = AtomicBool::new(true);
static USED: AtomicBool = AtomicBool::new(false);
/// Whether atomics are, and have been, scheduling points.
pub(crate) fn used() -> bool {
    ON.load(SeqCst) && USED.load(SeqCst)
}
pub(crate) fn without<R>(f: impl FnOnce() -> R) -> R {
    ON.store(false, SeqCst);
    let r = f();
    ON.store(true, SeqCst);
    r
}

fn scheduled() -> bool {
    let s = controlled() && !is_inside() && ON.load(SeqCst);
    if s {
        USED.store(true, SeqCst);
    }
    s
}

/// What a thread read lately, without having done anything else.
pub(crate) type Reads = [(usize, u64); 8];

/// The calling thread changes the word.
fn before_write(addr: usize) {
    point(Pending::Free);
    let _inside = inside();
    let id = me();
    let mut g = GLOBAL.exec.lock().unwrap();
    let ex = g.as_mut().unwrap();
    ex.threads[id].reads = Default::default();
    ex.event(id, 13, addr, true);
}

/// The calling thread has read the word and may have to repeat that until another thread changes it.
fn after_read(addr: usize, value: u64, write: bool) {
    let _inside = inside();
    let id = me();
    let mut g = GLOBAL.exec.lock().unwrap();
    let ex = g.as_mut().unwrap();
    ex.event(id, if write { 13 } else { 14 }, addr, write);
    let t = &mut ex.threads[id];
    if write {
        t.fails = 0;
        t.reads = Default::default();
        ex.threads.iter_mut().for_each(|t| t.yielding = false);
    } else if t.reads.contains(&(addr, value)) {
        t.fails = t.fails.min(2 * MANY) + 1;
    } else {
        t.reads.rotate_right(1);
        t.reads[0] = (addr, value);
    }
}

macro_rules! word {
    ($t:ty, $a:ty, $load:ident, $store:ident, $xchg:ident, $cas:ident, $cas_strong:ident, $cas_weak:ident, $($rmw:ident $op:ident),*) => {
        /// # Safety
        /// As the access it stands for.
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *mut $t, _: i32) -> $t {
            if scheduled() {
                point(Pending::Try);
                let v = (*(p as *const $a)).load(SeqCst);
                after_read(p as usize, v as u64, false);
                return v;
            }
            (*(p as *const $a)).load(SeqCst)
        }
        /// # Safety
        /// As the access it stands for.
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _: i32) {
            if scheduled() {
                before_write(p as usize);
            }
            (*(p as *const $a)).store(v, SeqCst)
        }
        /// # Safety
        /// As the access it stands for.
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _: i32) -> $t {
            if scheduled() {
                // repeated without effect in a loop that waits for a lock
                point(Pending::Try);
                let old = (*(p as *const $a)).swap(v, SeqCst);
                after_read(p as usize, old as u64, old != v);
                return old;
            }
            (*(p as *const $a)).swap(v, SeqCst)
        }
        /// # Safety
        /// As the access it stands for.
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, c: $t, v: $t, _: i32, _: i32) -> $t {
            if scheduled() {
                point(Pending::Try);
                let r = (*(p as *const $a)).compare_exchange(c, v, SeqCst, SeqCst);
                let old = r.unwrap_or_else(|x| x);
                after_read(p as usize, old as u64, r.is_ok() && c != v);
                return old;
            }
            (*(p as *const $a)).compare_exchange(c, v, SeqCst, SeqCst).unwrap_or_else(|x| x)
        }
        /// # Safety
        /// As the access it stands for.
        #[no_mangle]
        pub unsafe extern "C" fn $cas_strong(p: *mut $t, c: *mut $t, v: $t, s: i32, f: i32) -> i32 {
            let old = $cas(p, *c, v, s, f);
            let ok = old == *c;
            *c = old;
            ok as i32
        }
        /// # Safety
        /// As the access it stands for.
        #[no_mangle]
        pub unsafe extern "C" fn $cas_weak(p: *mut $t, c: *mut $t, v: $t, s: i32, f: i32) -> i32 {
            $cas_strong(p, c, v, s, f)
        }
        $(
            /// # Safety
            /// As the access it stands for.
            #[no_mangle]
            pub unsafe extern "C" fn $rmw(p: *mut $t, v: $t, _: i32) -> $t {
                if scheduled() {
                    before_write(p as usize);
                }
                (*(p as *const $a)).$op(v, SeqCst)
            }
        )*
    };
}
word!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_compare_exchange_val,
    __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak,
    __tsan_atomic8_fetch_add fetch_add, __tsan_atomic8_fetch_sub fetch_sub, __tsan_atomic8_fetch_and fetch_and,
    __tsan_atomic8_fetch_or fetch_or, __tsan_atomic8_fetch_xor fetch_xor, __tsan_atomic8_fetch_nand fetch_nand);
word!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_compare_exchange_val,
    __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak,
    __tsan_atomic16_fetch_add fetch_add, __tsan_atomic16_fetch_sub fetch_sub, __tsan_atomic16_fetch_and fetch_and,
    __tsan_atomic16_fetch_or fetch_or, __tsan_atomic16_fetch_xor fetch_xor, __tsan_atomic16_fetch_nand fetch_nand);
word!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_compare_exchange_val,
    __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak,
    __tsan_atomic32_fetch_add fetch_add, __tsan_atomic32_fetch_sub fetch_sub, __tsan_atomic32_fetch_and fetch_and,
    __tsan_atomic32_fetch_or fetch_or, __tsan_atomic32_fetch_xor fetch_xor, __tsan_atomic32_fetch_nand fetch_nand);
word!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_compare_exchange_val,
    __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak,
    __tsan_atomic64_fetch_add fetch_add, __tsan_atomic64_fetch_sub fetch_sub, __tsan_atomic64_fetch_and fetch_and,
    __tsan_atomic64_fetch_or fetch_or, __tsan_atomic64_fetch_xor fetch_xor, __tsan_atomic64_fetch_nand fetch_nand);

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    std::sync::atomic::fence(SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {
    std::sync::atomic::compiler_fence(SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
