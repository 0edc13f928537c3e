//! Locks of the standard library under the scheduler: no hang, deadlocks found, schedules reproducible.
use mcsched::{explore, mark, run_all, Config};
use std::sync::{mpsc, Arc, Condvar, Mutex, RwLock};

fn cfg() -> Config {
    Config { bound: 3, ..Default::default() }
}
fn threads<'a>(fs: Vec<Box<dyn FnOnce() + Send + 'a>>) {
    run_all(fs.into_iter().enumerate().map(|(i, f)| (i.to_string(), f)).collect());
}
// one test: the explorer is a singleton
#[test]
fn standard_locks() {
    let r = explore(&cfg(), &|| {
        let m = Mutex::new(0);
        let l = RwLock::new(0);
        threads(
            (0..3)
                .map(|i| {
                    let (m, l) = (&m, &l);
                    Box::new(move || {
                        mark(0);
                        let mut g = m.lock().unwrap();
                        mark(1);
                        *g += 1;
                        let v = *l.read().unwrap();
                        drop(g);
                        mark(1);
                        let mut w = l.write().unwrap();
                        mark(0);
                        *w = v * 2 + i;
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect(),
        );
        let n = *m.lock().unwrap();
        let v = *l.read().unwrap();
        if n == 3 {
            Ok(v)
        } else {
            Err("lost".into())
        }
    });
    println!("{:?}", r);
    assert!(r.complete && !r.divergence && r.violation.is_none() && r.execs > 50 && r.outcomes.len() > 3);

    let r = explore(&cfg(), &|| {
        let (a, b) = (Mutex::new(0), Mutex::new(0));
        threads(vec![
            Box::new(|| {
                let _a = a.lock().unwrap();
                mark(0);
                let _b = b.lock().unwrap();
            }),
            Box::new(|| {
                let _b = b.lock().unwrap();
                mark(0);
                let _a = a.lock().unwrap();
            }),
        ]);
        Ok(0)
    });
    assert!(r.violation.unwrap().1.contains("deadlock"));

    let r = explore(&cfg(), &|| {
        let s = Arc::new((Mutex::new(false), Condvar::new()));
        let (tx, rx) = mpsc::channel();
        let s2 = s.clone();
        threads(vec![
            Box::new(move || {
                mark(0);
                *s.0.lock().unwrap() = true;
                s.1.notify_one();
                tx.send(5).unwrap();
            }),
            Box::new(move || {
                let mut g = s2.0.lock().unwrap();
                while !*g {
                    g = s2.1.wait(g).unwrap();
                }
                mark(0);
                drop(g);
                assert_eq!(rx.recv().unwrap(), 5);
            }),
        ]);
        Ok(0)
    });
    assert!(r.complete && !r.divergence && r.violation.is_none() && r.execs > 1);
}
