//! W01 - W03: the concurrent builder.
use super::build::{check_sizes, exact_search, pattern, MULTS};
use super::Check;
use crate::fw::{Ctx, Res, Tier};
use crate::util::*;
use granne::*;
use std::collections::BTreeMap;
use std::io::{Cursor, Seek, SeekFrom, Write};
use mcsched::Aside;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            name: "W01",
            level: "exploration",
            rule: "a case is one element list, configuration, number of initial elements and partition of the insertions into batches, checked after every call; \
                   distinct non-trivial cases are distinct final link structures",
            bound: |t| {
                format!(
                    "maximum 0..={} elements, every initial number, every partition of the rest plus one into batches, 3 multipliers, 1 and 4 threads, saved and resumed after every call; small indexes of up to 62 elements, others of 256 to 70001 elements in batches of up to 65530; builders of up to 3000 mapped vectors saved onto the files they came from, beside open readers; layer sizes for every maximum up to {} and {} multipliers",
                    t.pick(6, 8),
                    t.pick(160, 600),
                    MULTS.len()
                )
            },
            assumptions: &["worker tasks of a batch run one after the other, in both orders (W02 covers their interleavings)"],
            jobs: |_| 16,
            run: only!("W01", w01),
        },
        Check {
            name: "W02",
            level: "model_checking",
            rule: "a case is a set of threads each performing a list of insert, batch, search and read operations on one builder, run under every schedule up to the preemption bound; \
                   distinct non-trivial cases are distinct outcomes (answers and final index) over all schedules",
            bound: |t| format!("2 to 4 threads with 1 to 2 operations each, preemption bound {}", t.pick("3 (2 for batches inserted by two workers and tasks of a pool, 1 for three workers or four threads)", "4 (3 for batches inserted by two workers and tasks of a pool, 1 or 2 for three workers or four threads)")),
            assumptions: &[
                "scheduling points at lock acquisitions, atomic accesses (in sequentially consistent order), forks, joins and operation boundaries; data shared without either would not get scheduling points",
                "rayon's splitting for a pool of two threads, with forked tasks as threads of their own",
            ],
            jobs: |t| scenarios(t, false).len(),
            run: only!("W02", |c| concurrent(c, false)),
        },
        Check {
            name: "W03",
            level: "model_checking",
            rule: "a case is a set of threads saving, inserting and searching on one builder, run under every schedule up to the preemption bound, sink operations being scheduling points; \
                   distinct non-trivial cases are distinct outcomes (answers, saved images and final index) over all schedules",
            bound: |t| format!("2 to 4 threads with 1 to 2 operations each, at least one of them a save to a working or failing sink, preemption bound {}", t.pick("3 (2 for batches inserted by two workers and tasks of a pool, 1 for three workers or four threads)", "4 (3 for batches inserted by two workers and tasks of a pool, 1 or 2 for three workers or four threads)")),
            assumptions: &["scheduling points at lock acquisitions, atomic accesses (in sequentially consistent order), forks, joins, operation boundaries and operations of the sinks"],
            jobs: |t| scenarios(t, true).len(),
            run: only!("W03", |c| concurrent(c, true)),
        },
    ]
}

type Rw = RwGranneBuilder<Pts>;

/// What the builder would save now.
fn saved<E: ExtendableElementContainer + Writeable + Sync + Send + Clone>(b: &RwGranneBuilder<E>) -> Result<(Vec<u8>, Vec<u8>), String> {
    let mut i = Cursor::new(vec![]);
    let mut e = vec![];
    b.write(&mut i, &mut e).map_err(|x| format!("saving failed: {}", x))?;
    Ok((i.into_inner(), e))
}

fn conf(nn: usize, ms: usize, mult: f32, re: bool) -> BuildConfig {
    BuildConfig::default().num_neighbors(nn).max_search(ms).layer_multiplier(mult).reinsert_elements(re)
}

/// The layer sizes of an ordinary builder that expects `max` elements and has built `n`.
fn ordinary(cfg: BuildConfig, mult: f32, max: usize, n: usize) -> Vec<usize> {
    static KNOWN: Aside<BTreeMap<(u32, usize, usize), Vec<usize>>> = Aside::new(BTreeMap::new());
    let key = (mult.to_bits(), max, n);
    if let Some(v) = KNOWN.lock().get(&key) {
        return v.clone();
    }
    assert!(!mcsched::controlled(), "HARNESS: an ordinary build inside an exploration");
    let mut b = GranneBuilder::new(cfg.expected_num_elements(max), Zeros(max.max(n)));
    b.build_partial(n);
    let v: Vec<usize> = (0..b.num_layers()).map(|l| b.layer_len(l)).collect();
    KNOWN.lock().insert(key, v.clone());
    v
}
fn sizes(s: &Snap) -> Vec<usize> {
    s.iter().map(|l| l.len()).collect()
}

fn check_results(what: &str, r: &[(usize, f32)], els: &[P], q: &P, ms: usize, k: usize) -> Res {
    let f = |m: &str| Err(format!("{}: {}: {:?} among {:?}", what, m, r, els));
    if r.len() > ms || r.len() > k {
        return f("too many results");
    }
    for (i, &(id, d)) in r.iter().enumerate() {
        if id >= els.len() {
            return f("unknown id");
        }
        if r[..i].iter().any(|x| x.0 == id) {
            return f("an id twice");
        }
        if d != els[id].d(q) {
            return f("a wrong distance");
        }
        if i > 0 && r[i - 1].1 > d {
            return f("not sorted");
        }
    }
    if r.is_empty() && ms > 0 && k > 0 && !els.is_empty() {
        return f("no results");
    }
    Ok(())
}

/// Everything that must hold of the builder at rest.
fn check_rest(b: &Rw, els: &[P], cfg: BuildConfig, mult: f32, nn: usize, max: usize, small: bool) -> Result<Snap, String> {
    let n = els.len();
    if b.len() != n || b.is_empty() != (n == 0) {
        return Err(format!("length {}, is_empty {} with {} elements", b.len(), b.is_empty(), n));
    }
    if b.get_elements().0 != els {
        return Err(format!("elements {:?} instead of {:?}", b.get_elements().0, els));
    }
    for i in 0..n {
        if b.get_element(i) != els[i] {
            return Err(format!("element {} is {:?} instead of {:?}", i, b.get_element(i), els[i]));
        }
    }
    let (ib, eb) = saved(b)?;
    if Pts::read(&eb)?.0 != els {
        return Err("the saved elements differ".into());
    }
    let pts = Pts(els.to_vec());
    let ix = Granne::from_bytes(&ib, &pts);
    let s = sorted(&snap(&ix));
    wellformed(&s, nn)?;
    let want = ordinary(cfg, mult, max, n);
    if sizes(&s) != want {
        return Err(format!("layer sizes {:?} instead of {:?} with {} of {} elements", sizes(&s), want, n, max));
    }
    let all = n + 1;
    for q in els.iter().chain(&[p(7, 7), DEAD]) {
        for (ms, k) in [(all, all), (1, all), (2, 1), (all, 1)] {
            let r = b.search(q, ms, k);
            check_results(&format!("search {:?} {} {}", q, ms, k), &r, els, q, ms, k)?;
            if small && ms == all && k == all {
                let mut want: Vec<f32> = els.iter().filter(|e| !e.dead).map(|e| e.d(q)).collect();
                want.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let got: Vec<f32> = r.iter().filter(|x| !els[x.0].dead).map(|x| x.1).collect();
                if got != want {
                    return Err(format!("search {:?} gives {:?} instead of distances {:?} in {:?}", q, r, want, s));
                }
            }
        }
    }
    if small {
        exact_search(&ix, &ix, &|i| !els[i].dead, els).map_err(|e| format!("saved index: {}", e))?;
    }
    same_as_saved(b, &ix, els, &[1, 2, 3, all, 60], &[1, 2, 5, 12, all, 60])?;
    Ok(s)
}

/// Searching the builder gives what searching the saved index gives. Queries from afar, to which no two elements are
/// equally close unless they are copies.
fn same_as_saved(b: &Rw, ix: &Granne<&Pts>, els: &[P], budgets: &[usize], counts: &[usize]) -> Res {
    for q in [p(1000, 31), p(-17, 900)] {
        let mut ds: Vec<i64> = els.iter().map(|e| e.d(&q) as i64).collect();
        ds.sort();
        let ties = ds.windows(2).any(|w| w[0] == w[1]);
        for &ms in budgets {
            for &k in counts {
                let (r, w) = (b.search(&q, ms, k), ix.search(&q, ms, k));
                if r.len() != w.len() || !ties && r != w {
                    return Err(format!("search {:?} {} {} gives {:?}, and {:?} on the saved index", q, ms, k, r, w));
                }
            }
        }
    }
    Ok(())
}

/// All ways to write n as a sum of positive numbers.
fn compositions(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    (0..1usize << (n - 1))
        .map(|bits| {
            let mut v = vec![1];
            for i in 0..n - 1 {
                if bits >> i & 1 == 1 {
                    v.push(1)
                } else {
                    *v.last_mut().unwrap() += 1
                }
            }
            v
        })
        .collect()
}

fn insert_all(b: &Rw, els: &mut Vec<P>, batch: &[P], max: usize) -> Res {
    let room = max - els.len().min(max);
    let want: Vec<usize> = (els.len()..els.len() + batch.len().min(room)).collect();
    let got = if batch.len() == 1 { b.insert(batch[0]).into_iter().collect() } else { b.insert_batch(batch.to_vec()) };
    if got != want {
        return Err(format!("inserting {} elements into {} of {} gives ids {:?} instead of {:?}", batch.len(), els.len(), max, got, want));
    }
    els.extend(&batch[..want.len()]);
    Ok(())
}

fn w01(c: &mut Ctx) {
    let top = c.tier.pick(6, 8);
    let mut turn = 0;
    for max in 0..=top {
        for init in 0..=max + 4 {
            // also a builder that holds more than the maximum from the start
            for comp in if init > max { vec![vec![1, 2]] } else { compositions(max - init + 1) } {
                turn += 1;
                if turn % 16 != c.job {
                    continue;
                }
                for (pat, mult) in [(0, 2.0), (1, 3.0), (4, 2.0), (6, 2.0), (6, 15.0), (7, 3.0)] {
                    c.case(
                        || format!("pattern {}, maximum {}, {} initially, batches {:?}, multiplier {}", pat, max, init, comp, mult),
                        |c| {
                            let top = max.max(init);
                            let all = pattern(pat, max.max(init + 2) + 1);
                            for (small, threads, reverse, re) in [(true, 1, false, false), (false, 1, false, true), (true, 4, false, true), (true, 4, true, false), (false, 2, true, false)] {
                                let (nn, ms) = if small { (4 * top.max(2), top.max(2)) } else { (2, 3) };
                                let cfg = conf(nn, ms, mult, re);
                                let e = |e: String| format!("{} neighbours, {} threads, reverse {}: {}", nn, threads, reverse, e);
                                mcsched::set_uncontrolled_reverse(reverse);
                                let r = (|| -> Res {
                                    let b = Rw::new(GranneBuilder::new(cfg, Pts(all[..init].to_vec())), max, threads);
                                    let mut els = all[..init].to_vec();
                                    check_rest(&b, &els, cfg, mult, nn, max, small)?;
                                    let mut rest: &[P] = &all[init..];
                                    for &k in &comp {
                                        insert_all(&b, &mut els, &rest[..k], max)?;
                                        rest = &rest[k..];
                                        let s = check_rest(&b, &els, cfg, mult, nn, max, small)?;
                                        if els.len() > 1 && comp.len() > 1 {
                                            c.distinct(hash_snap(&s));
                                        }
                                        // resuming from what is saved now
                                        let (ib, eb) = saved(&b)?;
                                        let r = Rw::new(GranneBuilder::from_bytes(cfg, &ib, Pts::read(&eb)?), max, threads);
                                        let mut rels = els.clone();
                                        check_rest(&r, &rels, cfg, mult, nn, max, small).map_err(|e| format!("after resuming with {}: {}", els.len(), e))?;
                                        for x in rest {
                                            insert_all(&r, &mut rels, &[*x], max)?;
                                        }
                                        check_rest(&r, &rels, cfg, mult, nn, max, small).map_err(|e| format!("after resuming with {}: {}", els.len(), e))?;
                                        c.count("resumed_builders", 1);
                                    }
                                    if b.insert(all[0]).is_some() || !b.insert_batch(vec![all[0]; 3]).is_empty() || !b.insert_batch(vec![]).is_empty() {
                                        return Err("accepted an element beyond the maximum".into());
                                    }
                                    check_rest(&b, &els, cfg, mult, nn, max, small)?;
                                    Ok(())
                                })();
                                mcsched::set_uncontrolled_reverse(false);
                                r.map_err(e)?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    // more elements: small in the sense of exact answers, and thousands
    for (k, (n, init, steps)) in [(20usize, 0usize, vec![1usize]), (40, 3, vec![7, 1, 30]), (61, 0, vec![61]), (61, 20, vec![5, 2]), (62, 0, vec![30, 1, 29])].into_iter().enumerate() {
        for (pat, mult) in [(0usize, 15.0f32), (4, 2.0), (6, 4.0)] {
            turn += 1;
            if turn % 16 != c.job {
                continue;
            }
            c.case(
                || format!("small index of {} elements, pattern {}, {} initially, in batches of {:?}, multiplier {}", n, pat, init, steps, mult),
                |c| {
                    let (all, nn) = (pattern(pat, n + 1), 4 * n);
                    let nn = nn.min(254);
                    let cfg = conf(nn, n + 1, mult, k % 2 == 0);
                    let b = Rw::new(GranneBuilder::new(cfg, Pts(all[..init].to_vec())), n, 1 + k % 3);
                    let mut els = all[..init].to_vec();
                    let mut i = 0;
                    while els.len() < n {
                        let m = steps[i % steps.len()].min(n + 1 - els.len());
                        i += 1;
                        let from = els.len();
                        insert_all(&b, &mut els, &all[from..from + m], n)?;
                    }
                    let s = check_rest(&b, &els, cfg, mult, nn, n, true).map_err(|e| e.chars().take(800).collect::<String>())?;
                    c.distinct(hash_snap(&s));
                    Ok(())
                },
            );
        }
    }
    for (k, (max, init, steps, mult)) in [
        (256usize, 0usize, vec![1usize], 15.0f32),
        (300, 0, vec![100, 101, 200], 3.0),
        (1_000, 10, vec![64], 2.0),
        (2_000, 1_999, vec![5], 10.0),
        (3_001, 0, vec![1, 1_000], 15.0),
        (12_000, 9_990, vec![30, 1, 500], 20.0),
        (12_000, 0, vec![11_999, 5], 110.0),
        (66_000, 0, vec![65_530, 1, 1, 1, 1, 1, 1, 1, 1, 3, 800], 15.0),
        (70_001, 65_500, vec![37, 5_000], 40.0),
    ].into_iter().enumerate() {
        if k + 5 != c.job {
            continue;
        }
        c.case(
            || format!("up to {} elements, {} initially, in batches of {:?}, multiplier {}", max, init, steps, mult),
            |c| {
                let all: Vec<P> = (0..max + 1)
                    .map(|i| match i % 50 {
                        49 => DEAD,
                        48 => p(7, 7),
                        _ => p(((i * 37) % 251) as i16, (i / 251) as i16),
                    })
                    .collect();
                let cfg = conf(4, 4, mult, k % 2 == 0);
                let b = Rw::new(GranneBuilder::new(cfg, Pts(all[..init].to_vec())), max, 1 + k % 4);
                let mut els = all[..init].to_vec();
                let mut i = 0;
                while els.len() < max {
                    let m = steps[i % steps.len()].min(max + 1 - els.len());
                    i += 1;
                    let from = els.len();
                    insert_all(&b, &mut els, &all[from..from + m], max).map_err(|e| e.chars().take(300).collect::<String>())?;
                    if b.len() != els.len() {
                        return Err(format!("length {} with {} elements", b.len(), els.len()));
                    }
                }
                if b.insert(all[0]).is_some() || !b.insert_batch(vec![all[0]; 3]).is_empty() {
                    return Err("accepted an element beyond the maximum".into());
                }
                if b.get_elements().0 != els || (0..max).any(|i| b.get_element(i) != els[i]) {
                    return Err("elements differ from those inserted".into());
                }
                let (ib, eb) = saved(&b)?;
                if Pts::read(&eb)?.0 != els {
                    return Err("the saved elements differ".into());
                }
                let pts = Pts(els.clone());
                let ix = Granne::from_bytes(&ib, &pts);
                let s = sorted(&snap(&ix));
                wellformed(&s, 4).map_err(|e| e.chars().take(300).collect::<String>())?;
                check_sizes(&sizes(&s), max, mult)?;
                for q in [p(7, 7), p(0, 0), p(100, 3), DEAD] {
                    for (ms, kk) in [(1, 1), (10, 5), (300, 257), (3000, usize::MAX)] {
                        let r = b.search(&q, ms, kk);
                        check_results(&format!("search {:?} {} {}", q, ms, kk), &r, &els, &q, ms, kk).map_err(|e| e.chars().take(300).collect::<String>())?;
                        let r = ix.search(&q, ms, kk);
                        check_results(&format!("saved index, search {:?} {} {}", q, ms, kk), &r, &els, &q, ms, kk).map_err(|e| e.chars().take(300).collect::<String>())?;
                    }
                }
                same_as_saved(&b, &ix, &els, &[1, 10, 300], &[1, 10, 257]).map_err(|e| e.chars().take(300).collect::<String>())?;
                c.distinct(hash_snap(&s));
                Ok(())
            },
        );
    }
    in_place(c, &mut turn);
    // layer sizes
    let lim = c.tier.pick(160, 600);
    for max in 1..=lim {
        if max % 16 != c.job {
            continue;
        }
        for &mult in MULTS.iter() {
            c.case(
                || format!("layer sizes for at most {} elements, multiplier {}", max, mult),
                |c| {
                    let cfg = conf(1, 1, mult, false);
                    let last = ordinary(cfg, mult, max, max);
                    check_sizes(&last, max, mult)?;
                    for step in [1, 7, max] {
                        let b = RwGranneBuilder::new(GranneBuilder::new(cfg, Zeros(0)), max, 1);
                        let mut n = 0;
                        while n < max {
                            let k = step.min(max - n);
                            let ids = b.insert_batch(vec![(); k]);
                            if ids != (n..n + k).collect::<Vec<_>>() {
                                return Err(format!("ids {:?} at {}", ids, n));
                            }
                            n += k;
                            if last.contains(&n) || last.contains(&(n - 1)) || n == max {
                                let (ib, _) = saved(&b)?;
                                let z = Zeros(n);
                                let ix = Granne::from_bytes(&ib, &z);
                                let got: Vec<usize> = (0..ix.num_layers()).map(|l| ix.layer_len(l)).collect();
                                let want = ordinary(cfg, mult, max, n);
                                if got != want {
                                    return Err(format!("in steps of {}: layers {:?} instead of {:?} with {} of {} elements", step, got, want, n, max));
                                }
                                c.count("layer_size_comparisons", 1);
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

/// Builders of real vectors, started from files and saved onto the same files between insertions.
fn in_place(c: &mut Ctx, turn: &mut usize) {
    let dir = Scratch::new("w01");
    for init in [0usize, 1, 5, 300, 2000] {
        for steps in c.tier.pick(vec![vec![0], vec![1, 1], vec![3, 0, 40], vec![700]], vec![vec![0], vec![0, 0, 1], vec![1, 1], vec![3, 0, 40], vec![1, 2, 3, 4, 5], vec![700], vec![699, 1]]) {
            for mult in [2.0f32, 15.0] {
                *turn += 1;
                if *turn % 16 != c.job {
                    continue;
                }
                c.case(
                    || format!("{} vectors from files, batches of {:?} each saved onto the files, multiplier {}", init, steps, mult),
                    |c| {
                        let x = |i: usize| vec![1.0 + (i % 17) as f32, (i % 31) as f32 - 15.0, (i / 100) as f32];
                        let max = 3000;
                        let cfg = conf(5, 6, mult, init % 2 == 0).expected_num_elements(max);
                        let (ip, ep) = (dir.path("index"), dir.path("elements"));
                        let mut v = angular::Vectors::new();
                        for i in 0..init {
                            v.push(&angular::Vector::from(x(i)));
                        }
                        let mut b = GranneBuilder::new(cfg, v);
                        b.build();
                        let mut f = std::fs::File::create(&ip).unwrap();
                        b.write_index(&mut f).map_err(|e| e.to_string())?;
                        b.write_elements(&mut std::fs::File::create(&ep).unwrap()).map_err(|e| e.to_string())?;
                        let open = |cfg| -> Result<_, String> {
                            let v = unsafe { angular::Vectors::from_file(&std::fs::File::open(&ep).unwrap()) }.map_err(|e| e.to_string())?;
                            let g = GranneBuilder::from_file(cfg, &std::fs::File::open(&ip).unwrap(), v).map_err(|e| e.to_string())?;
                            Ok(RwGranneBuilder::new(g, max, 1))
                        };
                        let check = |ix: &Granne<angular::Vectors>, n: usize| -> Result<Snap, String> {
                            if ix.len() != n || ix.get_elements().len() != n {
                                return Err(format!("{} elements and {} vectors instead of {}", ix.len(), ix.get_elements().len(), n));
                            }
                            for i in 0..n {
                                if ix.get_element(i).into_vec() != angular::Vector::from(x(i)).into_vec() {
                                    return Err(format!("element {} is {:?}", i, ix.get_element(i).into_vec()));
                                }
                            }
                            wellformed(&sorted(&snap(ix)), 5)?;
                            Ok(snap(ix))
                        };
                        for again in [true, false] {
                            // one builder throughout, or a new one from the files for every batch
                            let mut n = init;
                            let mut b = open(cfg)?;
                            let mut readers: Vec<(Granne<'static, angular::Vectors<'static>>, usize, Snap)> = vec![];
                            for (i, &k) in steps.iter().enumerate() {
                                if again && i > 0 {
                                    b = open(cfg)?;
                                }
                                let v = unsafe { angular::Vectors::from_file(&std::fs::File::open(&ep).unwrap()) }.unwrap();
                                let g = unsafe { Granne::from_file(&std::fs::File::open(&ip).unwrap(), v) }.map_err(|e| e.to_string())?;
                                let s = check(&g, n).map_err(|e| format!("after {} batches: {}", i, e))?;
                                readers.push((g, n, s));
                                let ids = b.insert_batch((n..n + k).map(|i| angular::Vector::from(x(i))).collect());
                                if ids != (n..n + k).collect::<Vec<_>>() {
                                    return Err(format!("ids {:?}", ids));
                                }
                                n += k;
                                b.save_index_and_elements_to_disk(ip.to_str().unwrap(), ep.to_str().unwrap()).map_err(|e| format!("saving fails: {}", e))?;
                                // everything that was opened before is as it was
                                for (g, n, s) in &readers {
                                    if check(g, *n).map_err(|e| format!("opened before a save: {}", e))? != *s {
                                        return Err("an index opened before a save has other neighbors after it".into());
                                    }
                                }
                                let (mut wi, mut we) = (Cursor::new(vec![]), vec![]);
                                b.write(&mut wi, &mut we).map_err(|e| e.to_string())?;
                                if std::fs::read(&ip).unwrap() != wi.into_inner() || std::fs::read(&ep).unwrap() != we {
                                    return Err(format!("batch {}: the files are not what the builder writes", i));
                                }
                                c.count("saves_in_place", 1);
                            }
                            let g = open(cfg)?;
                            drop(b);
                            let v = unsafe { angular::Vectors::from_file(&std::fs::File::open(&ep).unwrap()) }.unwrap();
                            let s = check(&unsafe { Granne::from_file(&std::fs::File::open(&ip).unwrap(), v) }.map_err(|e| e.to_string())?, n)?;
                            if g.len() != n {
                                return Err(format!("{} elements after reopening instead of {}", g.len(), n));
                            }
                            c.distinct(hash_snap(&s));
                            // the second round starts from the first one's initial files
                            let mut v = angular::Vectors::new();
                            for i in 0..init {
                                v.push(&angular::Vector::from(x(i)));
                            }
                            let mut b = GranneBuilder::new(cfg, v);
                            b.build();
                            std::fs::remove_file(&ip).and(std::fs::remove_file(&ep)).unwrap();
                            b.write_index(&mut std::fs::File::create(&ip).unwrap()).map_err(|e| e.to_string())?;
                            b.write_elements(&mut std::fs::File::create(&ep).unwrap()).map_err(|e| e.to_string())?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// W02, W03

#[derive(Clone, Debug)]
enum Op {
    Ins(P),
    Batch(Vec<P>),
    Search(P),
    Get,
    Save,
    /// a save whose index (true) or element (false) sink fails at this operation
    BadSave(bool, usize),
}
#[derive(Clone, Debug)]
struct Scenario {
    before: Vec<P>,
    max: usize,
    nn: usize,
    ms: usize,
    mult: f32,
    threads: Vec<Vec<Op>>,
    workers: usize,
    bound: u32,
    /// the threads are tasks of a pool of the caller
    tasks: bool,
    /// every distance computed is a scheduling point
    fine: bool,
}

fn scenarios(t: Tier, save: bool) -> Vec<Scenario> {
    use Op::*;
    let mut v = vec![];
    let a = [p(0, 0), p(4, 0), p(1, 1), p(3, 2), p(5, 5), p(2, 7)];
    let q = p(2, 1);
    let mut add = |before: usize, max: usize, mult: f32, workers: usize, bound: u32, threads: Vec<Vec<Op>>| {
        for (nn, ms) in [(4 * (max - 1).max(1), max), (2, 2)] {
            v.push(Scenario { before: a[..before].to_vec(), max, nn, ms, mult, threads: threads.clone(), workers, bound, tasks: false, fine: false });
        }
    };
    let b2 = t.pick(3, 4);
    let b1 = t.pick(2, 3);
    let ins = |i: usize| vec![Ins([p(1, 0), p(0, 2), p(1, 0), DEAD][i])];
    let se = || vec![Search(q)];
    if !save {
        for before in [0, 1, 2, 3] {
            for mult in [15.0, 2.0] {
                let max = before + 3;
                add(before, max, mult, 1, b2, vec![ins(0), ins(1)]);
                add(before, max, mult, 1, b2, vec![ins(0), se()]);
                add(before, max, mult, 1, b2, vec![ins(0), ins(1), se()]);
                add(before, max, mult, 1, b2, vec![vec![Batch(vec![p(1, 0), p(2, 0)])], ins(1)]);
                add(before, max, mult, 1, b2, vec![vec![Ins(p(1, 0)), Search(p(1, 0))], vec![Ins(p(6, 0)), Search(p(6, 0))]]);
                add(before, max, mult, 1, b2, vec![vec![Ins(p(1, 0)), Get], vec![Batch(vec![DEAD, p(6, 0)]), Get]]);
            }
        }
        // the maximum
        for (before, max) in [(0, 1), (1, 2), (2, 3), (3, 4)] {
            for mult in [15.0, 2.0] {
                add(before, max, mult, 1, b2, vec![ins(0), ins(1)]);
                add(before, max, mult, 1, b2, vec![vec![Batch(vec![p(1, 0), p(2, 0)])], vec![Batch(vec![p(3, 0), p(2, 3)])]]);
                add(before, max, mult, 1, b2, vec![vec![Ins(p(1, 0)), Ins(p(2, 0))], se()]);
                add(before, max + 1, mult, 1, b2, vec![vec![Batch(vec![p(1, 0), p(2, 0), p(3, 0)])], vec![Ins(p(3, 0))], se()]);
            }
        }
        // layers filling up inside a batch
        add(1, 5, 2.0, 1, b2, vec![vec![Batch(vec![p(1, 0), p(2, 0), p(3, 0), p(6, 1)])], se()]);
        add(0, 5, 2.0, 1, b2, vec![vec![Batch(vec![p(1, 0), p(2, 0), p(3, 0)])], vec![Batch(vec![p(0, 0), p(6, 1)])]]);
        // several workers
        for (before, mult) in [(0, 15.0), (2, 15.0), (1, 2.0)] {
            add(before, before + 2, mult, 2, b1, vec![vec![Batch(vec![p(1, 0), p(2, 0)])], se()]);
            add(before, before + 3, mult, 2, b1, vec![vec![Batch(vec![p(1, 0), p(2, 0), p(3, 0)])]]);
            add(before, before + 3, mult, 2, b1, vec![vec![Batch(vec![p(1, 0), p(2, 0)])], ins(1)]);
            add(before, before + 3, mult, 2, b1, vec![vec![Batch(vec![p(1, 0), p(2, 0)])], ins(1), se()]);
        }
        for workers in [0, 3] {
            add(2, 6, 15.0, workers, 1, vec![vec![Batch(vec![p(1, 0), p(2, 0), p(3, 0)])], se()]);
            add(1, 5, 2.0, workers, 1, vec![vec![Batch(vec![p(1, 0), p(2, 0)])], ins(1)]);
        }
        for (before, mult) in [(0, 15.0), (2, 2.0)] {
            add(before, before + 3, mult, 1, b1 - 1, vec![ins(0), ins(1), ins(3), se()]);
            add(before, before + 2, mult, 1, b1 - 1, vec![ins(0), ins(1), ins(2), vec![Batch(vec![p(6, 0), p(3, 0)])]]);
        }
        // more layers
        for before in [5, 6] {
            add(before, 9, 2.0, 1, b1, vec![ins(0), vec![Batch(vec![p(1, 0), p(2, 0), p(3, 0)])]]);
            add(before, 9, 1.5, 1, b1, vec![vec![Ins(p(1, 0)), Search(p(1, 0))], vec![Ins(p(6, 0)), Search(p(6, 0))]]);
        }
        if t.thorough() {
            for before in [0, 2] {
                add(before, before + 3, 15.0, 1, 2, vec![ins(0), ins(1), ins(3), se()]);
                add(before, before + 4, 2.0, 2, 1, vec![vec![Batch(vec![p(1, 0), p(2, 0)])], vec![Batch(vec![p(6, 0), p(3, 0)])], se()]);
            }
        }
    } else {
        let sv = || vec![Save];
        for before in [0, 1, 2] {
            for mult in [15.0, 2.0] {
                let max = before + 3;
                add(before, max, mult, 1, b2, vec![sv(), ins(0)]);
                add(before, max, mult, 1, b2, vec![sv(), ins(0), ins(1)]);
                add(before, max, mult, 1, b2, vec![sv(), ins(0), se()]);
                add(before, max, mult, 1, b2, vec![vec![Ins(p(6, 0)), Save], vec![Ins(p(1, 0)), Ins(p(2, 0))]]);
                add(before, max, mult, 1, b2, vec![sv(), vec![Batch(vec![p(1, 0), p(2, 0), p(3, 0)])]]);
                add(before, max, mult, 1, b1, vec![sv(), sv(), ins(0)]);
                add(before, max, mult, 1, b2, vec![sv(), se()]);
                for (ix, op) in [(false, 1), (true, 1), (true, 3)] {
                    add(before, max, mult, 1, b2, vec![vec![BadSave(ix, op)], ins(0)]);
                    add(before, max, mult, 1, b1, vec![vec![BadSave(ix, op), Save], vec![Ins(p(1, 0)), Save]]);
                }
            }
        }
        // a batch that needs several layers, so that its insertion happens in several steps
        add(1, 6, 2.0, 1, b2, vec![sv(), vec![Batch(vec![p(1, 0), p(2, 0), p(3, 0), p(6, 1)])]]);
        add(1, 6, 2.0, 1, b1, vec![sv(), vec![Batch(vec![p(1, 0), p(2, 0), p(3, 0)])], ins(1)]);
        for (before, mult) in [(0, 15.0), (2, 15.0), (1, 2.0)] {
            add(before, before + 3, mult, 2, b1, vec![sv(), vec![Batch(vec![p(1, 0), p(2, 0)])]]);
            add(before, before + 3, mult, 2, b1, vec![sv(), vec![Batch(vec![p(1, 0), p(2, 0)])], ins(1)]);
        }
        for workers in [0, 3] {
            add(2, 6, 15.0, workers, 1, vec![sv(), vec![Batch(vec![p(1, 0), p(2, 0), p(3, 0)])]]);
            add(1, 5, 2.0, workers, 1, vec![sv(), vec![Batch(vec![p(1, 0), p(2, 0)])], ins(1)]);
        }
        for (before, mult) in [(0, 15.0), (2, 2.0)] {
            add(before, before + 3, mult, 1, b1 - 1, vec![sv(), ins(0), ins(1), se()]);
            add(before, before + 2, mult, 1, b1 - 1, vec![sv(), ins(0), ins(1), ins(2)]);
        }
        for before in [5, 6] {
            add(before, 9, 2.0, 1, b1, vec![sv(), ins(0), vec![Batch(vec![p(1, 0), p(2, 0), p(3, 0)])]]);
            add(before, 9, 1.5, 1, b1, vec![vec![Save, Save], vec![Ins(p(1, 0)), Ins(p(6, 0))]]);
        }
        if t.thorough() {
            for before in [0, 2] {
                add(before, before + 3, 15.0, 1, 2, vec![sv(), ins(0), ins(1), se()]);
                add(before, before + 4, 2.0, 2, 1, vec![sv(), vec![Batch(vec![p(1, 0), p(2, 0)])], vec![Batch(vec![p(6, 0), p(3, 0)])]]);
            }
        }
    }
    // the same from tasks of a pool of the caller
    let mut tasks = vec![];
    let mut add = |before: usize, max: usize, mult: f32, workers: usize, bound: u32, threads: Vec<Vec<Op>>| {
        for (nn, ms) in [(4 * (max - 1).max(1), max), (2, 2)] {
            tasks.push(Scenario { before: a[..before].to_vec(), max, nn, ms, mult, threads: threads.clone(), workers, bound, tasks: true, fine: false });
        }
    };
    for (before, mult) in [(0, 15.0), (2, 15.0), (1, 2.0)] {
        if !save {
            add(before, before + 3, mult, 2, b1, vec![ins(0), ins(1)]);
            add(before, before + 3, mult, 2, b1, vec![ins(0), se()]);
            add(before, before + 3, mult, 2, b1, vec![vec![Batch(vec![p(1, 0), p(2, 0)])], ins(1)]);
            add(before, before + 2, mult, 2, b1 - 1, vec![ins(0), ins(1), ins(2)]);
        } else {
            add(before, before + 3, mult, 2, b1, vec![vec![Save], ins(0)]);
            add(before, before + 3, mult, 2, b1 - 1, vec![vec![Save], ins(0), ins(1)]);
        }
        add(before, before + 3, mult, 1, b1, vec![ins(0), if save { vec![Save] } else { ins(1) }, se()]);
    }
    v.append(&mut tasks);
    // the same, interrupted at every distance computed
    for s in v.clone() {
        if s.bound > 1 {
            v.push(Scenario { fine: true, bound: if s.threads.len() < 3 { 2 } else { t.pick(1, 2) }, ..s });
        }
    }
    v
}

/// A sink whose operations are scheduling points, failing at operation `fail` if that is not 0.
struct Sink {
    c: Cursor<Vec<u8>>,
    fail: usize,
    n: usize,
}
impl Sink {
    fn new(fail: usize) -> Sink {
        Sink { c: Cursor::new(vec![]), fail, n: 0 }
    }
    fn step(&mut self) -> std::io::Result<()> {
        mcsched::mark(1);
        self.n += 1;
        if self.fail > 0 && self.n >= self.fail {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "sink"));
        }
        Ok(())
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.step()?;
        self.c.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.step()
    }
}
impl Seek for Sink {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.step()?;
        self.c.seek(p)
    }
}

#[derive(Clone)]
enum Answer {
    Ids(Vec<usize>),
    Found(Vec<(usize, f32)>),
    Len(usize, Vec<P>),
    Saved(Result<(Vec<u8>, Vec<u8>), ()>),
}
impl std::fmt::Debug for Answer {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Answer::Ids(x) => write!(f, "ids {:?}", x),
            Answer::Found(x) => write!(f, "found {:?}", x),
            Answer::Len(n, x) => write!(f, "{} elements {:?}", n, x),
            Answer::Saved(Ok((i, e))) => write!(f, "saved {} elements, {:?}", e.len() / 5, sorted(&snap(&Granne::from_bytes(i, Zeros(e.len() / 5))))),
            Answer::Saved(Err(())) => write!(f, "failed"),
        }
    }
}
#[derive(Clone, Debug)]
struct Event {
    thread: usize,
    op: usize,
    end: Option<Answer>,
}

fn run(b: &Rw, op: &Op, max: usize) -> Answer {
    match op {
        Op::Ins(e) => Answer::Ids(b.insert(*e).into_iter().collect()),
        Op::Batch(es) => Answer::Ids(b.insert_batch(es.clone())),
        Op::Search(q) => Answer::Found(b.search(q, max + 1, max + 1)),
        Op::Get => {
            let n = b.len();
            Answer::Len(n, (0..n).map(|i| b.get_element(i)).collect())
        }
        Op::Save | Op::BadSave(..) => {
            let (fi, fe) = match op {
                Op::BadSave(true, k) => (*k, 0),
                Op::BadSave(false, k) => (0, *k),
                _ => (0, 0),
            };
            let mut i = Sink::new(fi);
            let mut e = Sink::new(fe);
            Answer::Saved(b.write(&mut i, &mut e).map(|_| (i.c.into_inner(), e.c.into_inner())).map_err(|_| ()))
        }
    }
}

fn scenario(s: &Scenario) -> Result<u64, String> {
    let cfg = conf(s.nn, s.ms, s.mult, false);
    let small = s.max - 1 <= s.nn / 4 && s.ms >= s.max;
    let b = Rw::new(GranneBuilder::new(cfg, Pts(vec![])), s.max, s.workers);
    for e in &s.before {
        b.insert(*e).ok_or("an initial element was refused")?;
    }
    let log: Aside<Vec<Event>> = Aside::new(vec![]);
    {
        let (b, log) = (&b, &log);
        let threads = s
                .threads
                .iter()
                .enumerate()
                .map(|(t, ops)| {
                    let f: Box<dyn FnOnce() + Send> = Box::new(move || {
                        for (i, op) in ops.iter().enumerate() {
                            mcsched::mark(0);
                            log.lock().push(Event { thread: t, op: i, end: None });
                            let a = run(b, op, s.max);
                            mcsched::mark(0);
                            log.lock().push(Event { thread: t, op: i, end: Some(a) });
                        }
                    });
                    (format!("caller {}", t), f)
                })
                .collect();
        if s.tasks {
            mcsched::with_pool(2, || mcsched::run_all(threads))
        } else {
            mcsched::run_all(threads)
        }
    }
    let log = log.into_inner();
    judge(s, cfg, small, &b, &log).map_err(|e| format!("{}\nhistory: {:?}", e, log))
}

fn judge(s: &Scenario, cfg: BuildConfig, small: bool, b: &Rw, log: &[Event]) -> Result<u64, String> {
    let els = b.get_elements().0.clone();
    let n0 = s.before.len();
    // ids
    let mut by_id: Vec<Option<P>> = vec![None; els.len()];
    for (i, e) in s.before.iter().enumerate() {
        by_id[i] = Some(*e);
    }
    let mut asked = 0;
    for e in log {
        let Some(Answer::Ids(ids)) = &e.end else { continue };
        let given: Vec<P> = match &s.threads[e.thread][e.op] {
            Op::Ins(x) => vec![*x],
            Op::Batch(x) => x.clone(),
            _ => unreachable!(),
        };
        asked += given.len();
        if ids.len() > given.len() {
            return Err(format!("{:?} for {} elements", ids, given.len()));
        }
        for (k, &id) in ids.iter().enumerate() {
            if id >= els.len() || by_id[id].is_some() {
                return Err(format!("id {} given twice or unknown, {} elements", id, els.len()));
            }
            by_id[id] = Some(given[k]);
        }
    }
    let total = s.max.min(n0 + asked);
    if els.len() != total {
        return Err(format!("{} elements instead of {}", els.len(), total));
    }
    for (i, e) in by_id.iter().enumerate() {
        if *e != Some(els[i]) {
            return Err(format!("element {} is {:?}, inserted as {:?}", i, els[i], e));
        }
    }
    // reads, searches and saves in their place
    let mut done: Vec<usize> = (0..n0).collect(); // ids whose insertion is complete
    let mut before: Vec<Vec<Vec<usize>>> = s.threads.iter().map(|t| vec![vec![]; t.len()]).collect(); // complete when started
    let mut started: Vec<(usize, usize)> = vec![]; // insertions
    let mut h = 0u64;
    for e in log {
        let op = &s.threads[e.thread][e.op];
        let Some(a) = &e.end else {
            before[e.thread][e.op] = done.clone();
            if let Op::Ins(_) | Op::Batch(_) = op {
                started.push((e.thread, e.op));
            }
            continue;
        };
        h = mcsched::mix(h, hash_str(&format!("{}{:?}", e.thread, a)));
        let known = &before[e.thread][e.op];
        // ids whose insertion had started when this ended
        let mut possible: Vec<usize> = (0..n0).collect();
        for f in log {
            if let Some(Answer::Ids(ids)) = &f.end {
                if started.contains(&(f.thread, f.op)) {
                    possible.extend(ids);
                }
            }
        }
        match a {
            Answer::Ids(ids) => done.extend(ids),
            Answer::Found(r) => {
                let Op::Search(q) = op else { unreachable!() };
                if known.is_empty() && r.is_empty() {
                    continue;
                }
                check_results("search", r, &els, q, s.max + 1, s.max + 1)?;
                if let Some(x) = r.iter().find(|x| !possible.contains(&x.0)) {
                    return Err(format!("found {} before its insertion started", x.0));
                }
                if small {
                    if let Some(x) = known.iter().find(|&&k| !els[k].dead && !r.iter().any(|x| x.0 == k)) {
                        return Err(format!("search {:?} did not find {}, inserted before: {:?}", q, x, r));
                    }
                }
            }
            Answer::Len(n, es) => {
                if *n < known.len() || es[..] != els[..*n] || *n > possible.len() {
                    return Err(format!("read {:?} with {} complete and {} started", es, known.len(), possible.len()));
                }
            }
            Answer::Saved(Err(())) => {
                if let Op::Save = op {
                    return Err("the save failed".into());
                }
            }
            Answer::Saved(Ok((ib, eb))) => {
                if let Op::BadSave(..) = op {
                    return Err("the save succeeded on a failing sink".into());
                }
                let se = Pts::read(eb)?;
                let m = se.0.len();
                if m > els.len() || se.0 != els[..m] {
                    return Err(format!("saved elements {:?}", se));
                }
                if let Some(x) = known.iter().find(|&&k| k >= m) {
                    return Err(format!("{} inserted before the save is missing from it", x));
                }
                if let Some(x) = (0..m).find(|k| !possible.contains(k)) {
                    return Err(format!("{} was saved before its insertion started", x));
                }
                let ix = Granne::from_bytes(ib, &se);
                let sn = sorted(&snap(&ix));
                if ix.len() != m {
                    return Err(format!("saved index has {} elements, the element file {}", ix.len(), m));
                }
                wellformed(&sn, s.nn).map_err(|e| format!("saved index: {}", e))?;
                let want = ordinary(cfg, s.mult, s.max, m);
                if sizes(&sn) != want {
                    return Err(format!("saved layer sizes {:?} instead of {:?}", sizes(&sn), want));
                }
                if small && s.workers != 1 {
                    // elements inserted at the same time need not be linked to each other
                    exact_search(&ix, &ix, &|i| !se.0[i].dead, &se.0).map_err(|e| format!("saved index: {}", e))?;
                } else if small {
                    super::build::exact(&ix, &ix, &|i| !se.0[i].dead, &se.0).map_err(|e| format!("saved index: {}", e))?;
                }
            }
        }
    }
    let sn = check_rest(b, &els, cfg, s.mult, s.nn, s.max, small)?;
    Ok(mcsched::mix(h, hash_snap(&sn)))
}

fn concurrent(c: &mut Ctx, save: bool) {
    let s = scenarios(c.tier, save)[c.job].clone();
    c.case(
        || format!("{:?}", s),
        |c| {
            let seen: Aside<std::collections::BTreeSet<u64>> = Default::default();
            for n in 0..=s.max {
                ordinary(conf(s.nn, s.ms, s.mult, false), s.mult, s.max, n);
            }
            let cfg = mcsched::Config { bound: s.bound, num_threads: 2, fine: s.fine, ..Default::default() };
            c.explore(&cfg, &|| {
                let h = scenario(&s)?;
                seen.lock().insert(h);
                Ok(h)
            })?;
            let hs = std::mem::take(&mut *seen.lock());
            for h in hs {
                c.distinct(mcsched::mix(h, c.job as u64));
            }
            Ok(())
        },
    );
}
