//! Threads that the code under test starts itself (`std::thread`) become virtual threads: these definitions take the place
//! of the C library's in the final program.
use crate::futex::{inside, is_inside};
use crate::{controlled, finish, join_thread, me, mix, Parker, Pending, Vt, Worker, GLOBAL, ME};
use std::ffi::{c_int, c_void};
use std::sync::{Arc, Mutex};

type Main = extern "C" fn(*mut c_void) -> *mut c_void;
struct Start {
    main: Main,
    arg: *mut c_void,
    worker: Arc<Worker>,
    id: usize,
}

unsafe fn real<F: Copy>(name: &'static std::ffi::CStr) -> F {
    let f = libc::dlsym(libc::RTLD_NEXT, name.as_ptr());
    assert!(!f.is_null(), "{:?}", name);
    std::mem::transmute_copy(&f)
}

extern "C" fn begin(start: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(start as *mut Start) };
    s.worker.parker.park();
    ME.with(|m| m.set(s.id));
    let r = (s.main)(s.arg);
    finish(s.id, None, None);
    r
}

/// # Safety
/// As the C library's.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(thread: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, main: Main, arg: *mut c_void) -> c_int {
    type F = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Main, *mut c_void) -> c_int;
    let create: F = real(c"pthread_create");
    if !controlled() || is_inside() {
        return create(thread, attr, main, arg);
    }
    let _inside = inside();
    let id = me();
    let worker = Arc::new(Worker { parker: Parker::new(), job: Mutex::new(None) });
    let mut g = GLOBAL.exec.lock().unwrap();
    let ex = g.as_mut().unwrap();
    let n = ex.threads.len();
    let start = Box::into_raw(Box::new(Start { main, arg, worker: worker.clone(), id: n }));
    let r = create(thread, attr, begin, start as *mut c_void);
    if r != 0 {
        drop(Box::from_raw(start));
        return r;
    }
    let parent = &mut ex.threads[id];
    parent.children += 1;
    let path = mix(mix(parent.path, 0xF0F0), parent.children);
    parent.last = mix(parent.last, 0x5707);
    let last = mix(parent.last, path);
    ex.threads.push(Vt { path, last, children: 0, pending: Pending::Start, woken: false, fails: 0, reads: Default::default(), yielding: false, worker, panic: None, name: String::new(), depth: 0 });
    ex.native.push((*thread, n));
    0
}

/// # Safety
/// As the C library's.
#[no_mangle]
pub unsafe extern "C" fn pthread_join(thread: libc::pthread_t, value: *mut *mut c_void) -> c_int {
    type F = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
    if controlled() && !is_inside() {
        let n = {
            let _inside = inside();
            let mut g = GLOBAL.exec.lock().unwrap();
            let native = &mut g.as_mut().unwrap().native;
            native.iter().rposition(|t| t.0 == thread).map(|i| native.remove(i).1)
        };
        if let Some(n) = n {
            join_thread(n);
        }
    }
    real::<F>(c"pthread_join")(thread, value)
}
