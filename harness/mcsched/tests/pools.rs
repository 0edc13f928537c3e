//! Tasks that a waiting worker runs, and threads of the standard library.
use mcsched::{explore, install, join2, replay, run_all, with_pool, Config, Lock, Outcome};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

fn cfg() -> Config {
    Config { bound: 2, ..Default::default() }
}
// one test: the explorer is a singleton
#[test]
fn pools() {
    // a task that waits for another pool while it holds a lock may run a task that needs the lock
    for hold in [false, true] {
        for outer in [false, true] {
            let body = move || {
                let l = Lock::new();
                let n = AtomicUsize::new(0);
                let task = || {
                    l.lock_exclusive();
                    if !hold {
                        l.unlock_exclusive();
                    }
                    install(2, || n.fetch_add(1, Relaxed));
                    if hold {
                        l.unlock_exclusive();
                    }
                };
                let both = || {
                    join2(&task, || join2(&task, &task));
                };
                if outer {
                    with_pool(2, both)
                } else {
                    both()
                }
                Ok(n.load(Relaxed) as u64)
            };
            let r = explore(&cfg(), &body);
            println!("{} {} {:?}", hold, outer, r);
            assert!(!r.divergence);
            if hold && outer {
                let (s, m) = r.violation.unwrap();
                assert!(m.contains("deadlock"));
                assert!(matches!(replay(&cfg(), &s, &body).0, Outcome::Deadlock(_)));
            } else {
                assert!(r.violation.is_none() && r.complete && r.outcomes.len() == 1 && r.execs > 1);
            }
        }
    }
    // threads of the standard library
    for scoped in [false, true] {
        let body = move || {
            let l = Lock::new();
            let v = Mutex::new(vec![]);
            let job = |i: u64| {
                l.lock_exclusive();
                v.lock().unwrap().push(i);
                l.unlock_exclusive();
                l.lock_exclusive();
                v.lock().unwrap().push(i);
                l.unlock_exclusive();
            };
            if scoped {
                std::thread::scope(|s| {
                    let t = s.spawn(|| job(1));
                    s.spawn(|| job(2));
                    job(3);
                    t.join().unwrap();
                });
            } else {
                let job: &'static (dyn Fn(u64) + Sync) = unsafe { std::mem::transmute(&job as &(dyn Fn(u64) + Sync)) };
                let t = std::thread::spawn(move || job(1));
                let u = std::thread::spawn(move || job(2));
                job(3);
                t.join().unwrap();
                u.join().unwrap();
            }
            let v = v.lock().unwrap();
            Ok(v.iter().fold(0, |a, b| a * 4 + b))
        };
        let r = explore(&cfg(), &body);
        println!("{:?}", r);
        assert!(r.complete && !r.divergence && r.violation.is_none() && r.outcomes.len() > 20);
    }
    // a deadlock with one of them
    let body = || {
        let (a, b) = (Lock::new(), Lock::new());
        std::thread::scope(|s| {
            s.spawn(|| {
                a.lock_exclusive();
                b.lock_exclusive();
                b.unlock_exclusive();
                a.unlock_exclusive();
            });
            b.lock_exclusive();
            a.lock_exclusive();
            a.unlock_exclusive();
            b.unlock_exclusive();
        });
        run_all(vec![]);
        Ok(0)
    };
    let r = explore(&cfg(), &body);
    println!("{:?}", r);
    assert!(r.violation.unwrap().1.contains("deadlock"));
}
