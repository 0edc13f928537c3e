//! Attempts to lock: seen while another thread holds the lock, and loops of attempts end.
use mcsched::{explore, mark, replay, run_all, Config, Lock, Outcome};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

fn threads<'a>(fs: Vec<Box<dyn FnOnce() + Send + 'a>>) {
    run_all(fs.into_iter().enumerate().map(|(i, f)| (i.to_string(), f)).collect());
}
fn cfg() -> Config {
    Config { bound: 2, ..Default::default() }
}
// one test: the explorer is a singleton
#[test]
fn attempts() {
    // held by another thread in between, although nothing happens in between
    let body = || {
        let l = Lock::new();
        let ok = AtomicBool::new(true);
        threads(vec![
            Box::new(|| {
                l.lock_exclusive();
                l.unlock_exclusive();
            }),
            Box::new(|| {
                if l.try_lock_shared(false) {
                    l.unlock_shared();
                } else {
                    ok.store(false, Relaxed);
                }
            }),
        ]);
        if ok.load(Relaxed) {
            Ok(0)
        } else {
            Err("missed".into())
        }
    };
    let r = explore(&cfg(), &body);
    println!("{:?}", r);
    let (schedule, _) = r.violation.unwrap();
    assert!(!r.divergence);
    assert_eq!(replay(&cfg(), &schedule, &body).0, Outcome::Fail("missed".into()));
    // three threads that try again and again
    for spin in [false, true] {
        let r = explore(&cfg(), &|| {
            let l = Lock::new();
            let flag = AtomicBool::new(false);
            let job = |last: bool| {
                let (l, flag) = (&l, &flag);
                Box::new(move || {
                    while !l.try_lock_exclusive() {
                        if spin {
                            std::thread::yield_now();
                        }
                    }
                    mark(0);
                    l.unlock_exclusive();
                    if last {
                        flag.store(true, Relaxed);
                    } else {
                        while !flag.load(Relaxed) {
                            std::thread::yield_now();
                        }
                    }
                }) as Box<dyn FnOnce() + Send>
            };
            threads(vec![job(false), job(false), job(true)]);
            Ok(0)
        });
        println!("{:?}", r);
        assert!(r.complete && !r.divergence && r.violation.is_none() && r.execs > 10);
    }
    // waiting for each other
    let r = explore(&cfg(), &|| {
        let (a, b) = (Lock::new(), Lock::new());
        let job = |x: bool| {
            let (a, b) = if x { (&a, &b) } else { (&b, &a) };
            Box::new(move || {
                a.lock_exclusive();
                while !b.try_lock_exclusive() {}
                b.unlock_exclusive();
                a.unlock_exclusive();
            }) as Box<dyn FnOnce() + Send>
        };
        threads(vec![job(false), job(true)]);
        Ok(0)
    });
    println!("{:?}", r);
    assert!(r.violation.unwrap().1.contains("no termination"));
}
