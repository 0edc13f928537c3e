//! B01 - B04: building.
use super::Check;
use crate::fw::{guard, Ctx, Res, Tier};
use crate::util::*;
use granne::*;
use std::collections::BTreeSet;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            name: "B01",
            level: "exploration",
            rule: "a case is one history of pushes, builds and partial builds under one configuration, checked after every step, with refused calls probed in every state; \
                   distinct non-trivial cases are distinct reached (elements, links) states with at least one link",
            bound: |t| format!("all histories of {} operations over 6 operations x {} configurations, plus increments of up to 60 (130) elements in 8 patterns, and builds of 300 to 70001 elements", t.pick(5, 7), configs().len()),
            assumptions: &[],
            jobs: |t| configs().len() * t.pick(2, 8) + 16,
            run: only!("B01", b01),
        },
        Check {
            name: "B02",
            level: "exploration",
            rule: "a case is one final number of elements, multiplier and way to split the build; distinct non-trivial cases are distinct layer size lists with at least two layers",
            bound: |t| format!("every n up to {} x 15 multipliers, powers of the multiplier +-1 up to a million, every split into up to three builds for n up to {}", t.pick(700, 3000), t.pick(24, 48)),
            assumptions: &[],
            jobs: |_| MULTS.len() * 3,
            run: only!("B02", b02),
        },
        Check {
            name: "B03",
            level: "exploration",
            rule: "a case is one sequence over an alphabet of seven vectors (zero and duplicate ones included), built under every configuration and increment pattern with every element type; \
                   distinct non-trivial cases are distinct link structures with at least two linked elements",
            bound: |t| format!("all sequences up to length {} over 7 vectors x neighbour limits 4(n-1) and 30 x 2 multipliers x reinsertion x increments; up to {} elements in several patterns; up to {} copies of one element with up to four others at every place among them", t.pick(4, 5), t.pick(100, 300), t.pick(49, 97)),
            assumptions: &["a small index has n - 1 <= num_neighbors / 4 and max_search >= n"],
            jobs: |_| 16,
            run: only!("B03", b03),
        },
        Check {
            name: "B04",
            level: "model_checking",
            rule: "a case is one element list and configuration whose parallel build is run under every schedule of its worker tasks up to the preemption bound; \
                   distinct non-trivial cases are distinct final link structures over all schedules",
            bound: |t| format!("preemption bounds: two insertions {}, three {}, four {}, six on four threads {}; with reinsertion of all elements: two {}, three {}, four and more {}",
                t.pick(5, 8), t.pick(3, 5), t.pick(2, 3), t.pick(1, 2), t.pick(4, 6), t.pick(2, 3), t.pick("1 and 0", "2 and 1")),
            assumptions: &[
                "scheduling points at lock acquisitions, atomic accesses (in sequentially consistent order), forks and joins; data shared without either would not get scheduling points",
                "rayon's splitting for a pool of two threads, with forked tasks as threads of their own",
            ],
            jobs: |t| b04_cases(t).len(),
            run: only!("B04", b04),
        },
    ]
}

#[derive(Clone, Copy, Debug)]
struct Cfg {
    nn: usize,
    ms: usize,
    mult: f32,
    re: bool,
    exp: Option<usize>,
    progress: bool,
}
impl Cfg {
    fn get(&self) -> BuildConfig {
        let c = BuildConfig::default()
            .num_neighbors(self.nn)
            .max_search(self.ms)
            .layer_multiplier(self.mult)
            .reinsert_elements(self.re)
            .show_progress(self.progress);
        match self.exp {
            Some(n) => c.expected_num_elements(n),
            None => c,
        }
    }
}
fn configs() -> Vec<Cfg> {
    let mut v = vec![];
    for (i, (nn, ms)) in [(1, 1), (2, 1), (2, 5), (3, 2), (4, usize::MAX), (1, 5)].into_iter().enumerate() {
        for (j, mult) in [2.0, 3.0, 15.0].into_iter().enumerate() {
            for re in [false, true] {
                v.push(Cfg { nn, ms, mult, re, exp: [None, Some(4), Some(8)][(i + j + re as usize) % 3], progress: (i + j) % 4 == 0 });
            }
        }
    }
    v
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Push(P),
    Build,
    One,
    Half,
}
const OPS: [Op; 6] = [Op::Push(p(0, 0)), Op::Push(p(2, 1)), Op::Push(DEAD), Op::One, Op::Build, Op::Half];

/// State that is compared around refused calls.
fn observe(b: &GranneBuilder<Pts>) -> (Vec<P>, Snap, usize, usize) {
    (b.get_elements().0.clone(), snap(b), b.len(), b.num_elements())
}
fn check_builder(b: &GranneBuilder<Pts>, els: &[P], want_len: usize, nn: usize) -> Res {
    if b.num_elements() != els.len() || b.get_elements().0 != els {
        return Err(format!("stored elements changed: {:?} instead of {:?}", b.get_elements().0, els));
    }
    let s = snap(b);
    if b.len() != want_len {
        return Err(format!("length {} after asking for {}", b.len(), want_len));
    }
    if want_len > 0 && s.last().map_or(0, |l| l.len()) != want_len {
        return Err(format!("last layer has {:?} nodes, expected {}", s.last().map(|l| l.len()), want_len));
    }
    let ix = b.get_index();
    if ix.len() != want_len || snap(&ix) != s || ix.get_elements().0 != els {
        return Err("get_index differs from the builder".into());
    }
    wellformed(&s, nn)?;
    // zero vectors stay out of the links; the first element is where searches start
    for (l, layer) in s.iter().enumerate() {
        for (i, n) in layer.iter().enumerate() {
            if i > 0 && els[i].dead && !n.is_empty() {
                return Err(format!("layer {}: zero element {} links to {:?}", l, i, n));
            }
            if let Some(&j) = n.iter().find(|&&j| j > 0 && els[j].dead) {
                return Err(format!("layer {}: {} links to zero element {}", l, i, j));
            }
        }
    }
    Ok(())
}
fn probe(b: &mut GranneBuilder<Pts>, nn: usize) -> Res {
    let before = observe(b);
    let (len, n) = (b.len(), b.num_elements());
    let mut bad = vec![n + 1, n + 1000];
    if len > 1 {
        bad.extend([1, len - 1]);
    }
    for k in bad {
        let _ = guard(|| b.build_partial(k));
        let after = observe(b);
        if after != before {
            return Err(format!("build_partial({}) with {} of {} indexed changed the index: {:?} -> {:?}", k, len, n, before.1, after.1));
        }
    }
    // asking for nothing
    b.build_partial(0);
    if observe(b) != before {
        return Err(format!("build_partial(0) with {} of {} indexed changed the index", len, n));
    }
    // asking for what is already there (may improve links, must not change anything else)
    b.build_partial(len);
    let after = observe(b);
    if (&after.0, after.2, after.3) != (&before.0, before.2, before.3) {
        return Err(format!("build_partial({}) with as many of {} indexed changed elements or lengths", len, n));
    }
    wellformed(&after.1, nn)?;
    Ok(())
}
fn apply(b: &mut GranneBuilder<Pts>, els: &mut Vec<P>, want: &mut usize, op: Op) {
    match op {
        Op::Push(q) => {
            b.push(q);
            els.push(q);
        }
        Op::Build => {
            b.build();
            *want = els.len();
        }
        Op::One => {
            *want = (*want + 1).min(els.len());
            b.build_partial(*want);
        }
        Op::Half => {
            *want = (*want + els.len() + 1) / 2;
            b.build_partial(*want);
        }
    }
}

fn b01(c: &mut Ctx) {
    let cf = configs();
    let parts = c.tier.pick(2, 8);
    if c.job >= cf.len() * parts {
        b01_long(c, c.job - cf.len() * parts);
        return;
    }
    let cfg = cf[c.job / parts];
    let part = c.job % parts;
    let depth = c.tier.pick(5, 7);
    // all operation sequences of the full depth, after one of three starts (so that histories do not only begin empty)
    for start in 0..3usize {
        for x in (part..OPS.len().pow(depth as u32)).step_by(parts) {
            let seq = digits(x, OPS.len(), depth);
            // histories that push nothing after the last build are prefixes of others
            c.case(
                || format!("{:?}, start {}, operations {:?}", cfg, start, seq.iter().map(|&o| OPS[o]).collect::<Vec<_>>()),
                |c| {
                    let mut els: Vec<P> = [vec![], vec![p(0, 0), p(5, 5)], vec![DEAD, p(1, 0), p(0, 1), p(1, 0)]][start].clone();
                    let mut b = GranneBuilder::new(cfg.get(), Pts(els.clone()));
                    let mut want = 0;
                    for &o in &seq {
                        apply(&mut b, &mut els, &mut want, OPS[o]);
                        check_builder(&b, &els, want, cfg.nn)?;
                    }
                    let s = snap(&b);
                    probe(&mut b, cfg.nn)?;
                    if cfg.progress {
                        // the same history without progress reports
                        let mut e2 = [vec![], vec![p(0, 0), p(5, 5)], vec![DEAD, p(1, 0), p(0, 1), p(1, 0)]][start].clone();
                        let mut b2 = GranneBuilder::new(Cfg { progress: false, ..cfg }.get(), Pts(e2.clone()));
                        let mut w2 = 0;
                        for &o in &seq {
                            apply(&mut b2, &mut e2, &mut w2, OPS[o]);
                        }
                        if snap(&b2) != s {
                            return Err("progress reports change the index".into());
                        }
                    }
                    c.count("steps", depth as u64);
                    if s.iter().flatten().any(|n| !n.is_empty()) {
                        c.distinct(els.iter().fold(hash_snap(&s), |h, e| mcsched::mix(h, (e.x as u64) << 20 | (e.y as u64) << 1 | e.dead as u64)));
                    }
                    Ok(())
                },
            );
        }
    }
}

pub const PATTERNS: usize = 8;
pub fn pattern(k: usize, n: usize) -> Vec<P> {
    (0..n)
        .map(|i| {
            let i = i as i16;
            match k {
                0 => p(i % 11, i / 11),
                1 => p(i, 0),
                2 => p(0, 0),
                3 => p(i % 2, 0),
                4 => {
                    if i % 3 == 0 {
                        DEAD
                    } else {
                        p(i, i % 5)
                    }
                }
                5 => DEAD,
                6 => p(((i as i32 * 37) % 101) as i16, ((i as i32 * 53) % 89) as i16),
                _ => {
                    if i < 7 {
                        p(1, 1)
                    } else {
                        p(((i as i32 * 29) % 61) as i16, i / 4)
                    }
                }
            }
        })
        .collect()
}
fn b01_long(c: &mut Ctx, part: usize) {
    let mut k = 0;
    let maxn: usize = c.tier.pick(60, 130);
    for pat in 0..PATTERNS {
        for (nn, ms, mult) in [(1, 1, 2.0), (2, 3, 2.0), (3, 10, 3.0), (5, 20, 5.0), (30, 200, 15.0), (4, 60, 2.5), (9, 50, 1.5)] {
            for step in [1usize, 7, 30, 1000] {
                k += 1;
                if k % 16 != part {
                    continue;
                }
                let cfg = Cfg { nn, ms, mult, re: k % 2 == 0, exp: [None, Some(50), Some(100), Some(maxn)][k % 4], progress: k % 5 == 0 };
                c.case(
                    || format!("{:?}, pattern {} of {} elements in steps of {}", cfg, pat, maxn, step),
                    |c| {
                        let all = pattern(pat, maxn);
                        let mut b = GranneBuilder::new(cfg.get(), Pts::default());
                        let mut els = vec![];
                        while els.len() < maxn {
                            let next: Vec<P> = all[els.len()..(els.len() + step).min(maxn)].to_vec();
                            for q in next {
                                b.push(q);
                                els.push(q);
                            }
                            b.build();
                            check_builder(&b, &els, els.len(), nn)?;
                            c.distinct(hash_snap(&snap(&b)));
                        }
                        probe(&mut b, nn)
                    },
                );
            }
        }
    }
    // thousands of elements, ids beyond one and two bytes
    for (k, (n, nn, ms, mult, re, steps)) in [
        (300usize, 5, 10, 15.0, true, vec![255usize, 256, 257, 300]),
        (1_000, 30, 50, 15.0, true, vec![1_000]),
        (2_000, 3, 6, 2.0, true, vec![1_999, 2_000]),
        (2_000, 60, 61, 40.0, false, vec![100, 2_000]),
        (3_000, 8, 5, 7.0, true, vec![50, 1_000, 3_000]),
        (10_001, 4, 5, 10.0, false, vec![9_999, 10_001]),
        (20_002, 6, 4, 15.0, false, vec![10_000, 20_001, 20_002]),
        (66_000, 3, 3, 15.0, false, vec![65_535, 65_536, 65_537, 66_000]),
        (66_000, 2, 2, 3.0, false, vec![66_000]),
        (70_001, 5, 3, 300.0, false, vec![30_000, 70_001]),
    ].into_iter().enumerate() {
        if k + 3 != part {
            continue;
        }
        let cfg = Cfg { nn, ms, mult, re, exp: Some(n), progress: k % 2 == 0 };
        c.case(
            || format!("{:?}, {} elements, built up to {:?}", cfg, n, steps),
            |c| {
                // a grid, with zero vectors, duplicates and an island
                let els: Vec<P> = (0..n)
                    .map(|i| match i % 50 {
                        49 => DEAD,
                        48 => p(7, 7),
                        47 => p(30_000, (i % 1000) as i16),
                        _ => p(((i * 37) % 251) as i16, (i / 251) as i16),
                    })
                    .collect();
                // everything there from the start, or pushed one by one as it is needed
                let mut b = GranneBuilder::new(cfg.get(), Pts(if k % 2 == 0 { els[..100].to_vec() } else { els.clone() }));
                for &m in &steps {
                    while b.num_elements() < m {
                        b.push(els[b.num_elements()]);
                    }
                    b.build_partial(m);
                    check_builder(&b, &els[..b.num_elements().max(m)], m, nn).map_err(|e| e.chars().take(600).collect::<String>())?;
                    check_sizes(&(0..b.num_layers()).map(|l| b.layer_len(l)).collect::<Vec<_>>(), m, mult).or_else(|e| if m == n { Err(e) } else { Ok(()) })?;
                }
                c.max("links", snap(&b).iter().flatten().map(|l| l.len() as u64).sum());
                c.distinct(hash_snap(&snap(&b)));
                Ok(())
            },
        );
    }
    if part == 0 {
        for nn in [254usize, 255, 256, 300] {
            c.case(
                || format!("lists of up to {} neighbours, 400 elements", nn),
                |c| {
                    let els = pattern(6, 400);
                    let mut b = GranneBuilder::new(BuildConfig::default().num_neighbors(nn).max_search(400), Pts(els.clone()));
                    b.build();
                    c.max("neighbours", snap(&b).iter().flatten().map(|n| n.len() as u64).max().unwrap_or(0));
                    check_builder(&b, &els, 400, nn)
                },
            );
        }
        // progress bar steps
        for n in [99usize, 100, 101, 399, 401, 1_001, 2_501, 4_001, 40_100] {
            c.case(
                || format!("progress reports with {} elements", n),
                |_| {
                    let cfg = |re, progress| Cfg { nn: 2, ms: 2, mult: 15.0, re, exp: None, progress }.get();
                    let sizes = |progress| {
                        let mut b = GranneBuilder::new(cfg(true, progress), Zeros(n));
                        b.build_partial(n / 2);
                        b.build();
                        snap(&b)
                    };
                    let links = |re, progress| {
                        let els = (0..n).map(|i| p((i * 37 % 251) as i16, (i / 251) as i16)).collect();
                        let mut b = GranneBuilder::new(cfg(re, progress).num_neighbors(6).max_search(8), Pts(els));
                        b.build_partial(n - n / 3);
                        b.build();
                        snap(&b)
                    };
                    if sizes(true) != sizes(false) || n < 40_000 && [true, false].iter().any(|&re| links(re, true) != links(re, false)) {
                        return Err("progress reports change the index".into());
                    }
                    Ok(())
                },
            );
        }
    }
    if part == 1 {
        // worker tasks that split differently, last half first
        for pat in 0..PATTERNS {
            for threads in [1usize, 4, 16] {
                c.case(
                    || format!("pattern {} with {} workers, tasks run last first", pat, threads),
                    |_| {
                        mcsched::set_uncontrolled_threads(threads);
                        mcsched::set_uncontrolled_reverse(true);
                        let els = pattern(pat, 90);
                        let r = guard(|| {
                            let mut b = GranneBuilder::new(BuildConfig::default().num_neighbors(5).layer_multiplier(3.0), Pts(els.clone()));
                            b.build();
                            check_builder(&b, &els, 90, 5)
                        });
                        mcsched::set_uncontrolled_threads(1);
                        mcsched::set_uncontrolled_reverse(false);
                        r?
                    },
                );
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// B02

pub const MULTS: [f32; 15] = [1.5, 2.0, 2.5, 3.0, 3.3, 4.0, 5.0, 7.0, 10.0, 12.5, 15.0, 16.0, 25.0, 50.0, 100.0];

/// Every layer's size against n divided by a power of the multiplier, rounded up.
pub fn check_sizes(s: &[usize], n: usize, m: f32) -> Res {
    let m = m as f64;
    if n == 0 {
        return if s.is_empty() { Ok(()) } else { Err(format!("layers {:?} for no elements", s)) };
    }
    if s.last() != Some(&n) {
        return Err(format!("layers {:?}: the last one does not hold {} elements", s, n));
    }
    let mut x = n as f64;
    for i in (0..s.len()).rev() {
        let lo = x.ceil();
        let near = (x - x.round()).abs() < 1e-6 * x.max(1.0);
        let ok = if near { s[i] as f64 >= x.round() && s[i] as f64 <= x.round() + 1.0 } else { s[i] as f64 == lo };
        if !ok {
            return Err(format!("layers {:?}: layer {} should hold {} / {}^{} = {} elements", s, i, n, m, s.len() - 1 - i, x));
        }
        x /= m;
    }
    if s[0] == 0 || s[0] as f64 > (m + 1e-6).ceil() {
        return Err(format!("layers {:?}: the first should hold between 1 and {} elements", s, m));
    }
    Ok(())
}
fn sizes_of<I: Index>(b: &I) -> Vec<usize> {
    (0..b.num_layers()).map(|l| b.layer_len(l)).collect()
}
fn zcfg(m: f32) -> BuildConfig {
    BuildConfig::default().num_neighbors(1).max_search(1).layer_multiplier(m).reinsert_elements(false)
}

fn b02(c: &mut Ctx) {
    let m = MULTS[c.job % MULTS.len()];
    let one = |n: usize| {
        let mut b = GranneBuilder::new(zcfg(m), Zeros(n));
        b.build();
        sizes_of(&b)
    };
    let h = |s: &[usize]| s.iter().fold(m.to_bits() as u64, |h, &x| mcsched::mix(h, x as u64));
    match c.job / MULTS.len() {
        0 => {
            for n in 0..=c.tier.pick(700, 3000) {
                c.case(
                    || format!("{} elements, multiplier {}", n, m),
                    |c| {
                        let s = one(n);
                        c.max("layers", s.len() as u64);
                        if s.len() > 1 {
                            c.distinct(h(&s));
                        }
                        check_sizes(&s, n, m)
                    },
                );
            }
        }
        1 => {
            let mut q = m as f64;
            while q <= 1_000_100.0 {
                for d in -2i64..=2 {
                    let n = q.round() as i64 + d;
                    if n < 1 {
                        continue;
                    }
                    c.case(
                        || format!("{} elements (near a power), multiplier {}", n, m),
                        |c| {
                            let s = one(n as usize);
                            c.distinct(h(&s));
                            check_sizes(&s, n as usize, m)
                        },
                    );
                }
                q *= m as f64;
            }
        }
        _ => {
            let maxn = c.tier.pick(24usize, 48);
            let mut ns: Vec<usize> = (1..=maxn).collect();
            ns.extend([100, 225, 226, 1000]);
            for n in ns {
                c.case(
                    || format!("{} expected elements, multiplier {}, every split", n, m),
                    |c| {
                        let once = {
                            let mut b = GranneBuilder::new(zcfg(m).expected_num_elements(n), Zeros(n));
                            b.build();
                            sizes_of(&b)
                        };
                        check_sizes(&once, n, m)?;
                        let step = if n > 60 { n / 11 } else { 1 };
                        for i in (0..=n).step_by(step) {
                            for j in (i..=n).step_by(step) {
                                for pushed in [false, true] {
                                    let mut b = GranneBuilder::new(zcfg(m).expected_num_elements(n), Zeros(if pushed { 0 } else { n }));
                                    let mut have = if pushed { 0 } else { n };
                                    for k in [i, j, n] {
                                        while have < k {
                                            b.push(());
                                            have += 1;
                                        }
                                        if pushed {
                                            b.build();
                                        } else {
                                            b.build_partial(k);
                                        }
                                        if b.len() != k {
                                            return Err(format!("splits {} {} (pushed: {}): length {} instead of {}", i, j, pushed, b.len(), k));
                                        }
                                    }
                                    let s = sizes_of(&b);
                                    if s != once {
                                        return Err(format!("built up to {}, {}, {} (pushed: {}): layers {:?}, at once {:?}", i, j, n, pushed, s, once));
                                    }
                                    c.count("splits", 1);
                                }
                            }
                        }
                        // one at a time
                        let mut b = GranneBuilder::new(zcfg(m).expected_num_elements(n), Zeros(0));
                        for _ in 0..n {
                            b.push(());
                            b.build();
                        }
                        let s = sizes_of(&b);
                        if s != once {
                            return Err(format!("built one at a time: layers {:?}, at once {:?}", s, once));
                        }
                        if s.len() > 1 {
                            c.distinct(h(&s));
                        }
                        // an expectation that is too low or too high still ends with all elements in nested layers
                        for e in [0, 1, n / 2, n + 1, 3 * n] {
                            let mut b = GranneBuilder::new(zcfg(m).expected_num_elements(e), Zeros(n / 2));
                            b.build();
                            for _ in n / 2..n {
                                b.push(());
                            }
                            b.build();
                            let s = sizes_of(&b);
                            if s.last() != Some(&n) || s.windows(2).any(|w| w[0] > w[1]) {
                                return Err(format!("expecting {}: layers {:?} for {} elements", e, s, n));
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// B03

const ALPHA: [[f32; 2]; 7] = [[1.0, 0.0], [0.0, 0.0], [3.0, 4.0], [-1.0, 0.25], [1.0, 0.0], [0.6, -0.8], [1000.0, 1.0]];
const PALPHA: [P; 7] = [p(0, 0), DEAD, p(3, 4), p(-1, 0), p(0, 0), p(9, 9), p(1, 0)];

/// Mutual links between all live elements, and exact search.
pub fn exact<E: ElementContainer>(b: &impl Index, ix: &Granne<E>, live: &dyn Fn(usize) -> bool, queries: &[E::Element]) -> Res {
    let s = snap(b);
    for (l, layer) in s.iter().enumerate() {
        for i in 0..layer.len() {
            for j in 0..layer.len() {
                if i != j && live(i) && live(j) && !layer[i].contains(&j) {
                    return Err(format!("layer {}: {} is not linked from {}: {:?}", l, j, i, layer));
                }
            }
        }
    }
    exact_search(b, ix, live, queries)
}
/// A search with a large enough budget finds every live element.
pub fn exact_search<E: ElementContainer>(b: &impl Index, ix: &Granne<E>, live: &dyn Fn(usize) -> bool, queries: &[E::Element]) -> Res {
    let s = snap(b);
    let n = b.len();
    for (qi, q) in queries.iter().enumerate() {
        let mut want: Vec<f32> = (0..n).filter(|&i| live(i)).map(|i| ix.get_elements().dist_to_element(i, q).into_inner()).collect();
        want.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let r = ix.search(q, n + 1, n + 1);
        let got: Vec<f32> = r.iter().filter(|x| live(x.0)).map(|x| x.1).collect();
        if got != want {
            return Err(format!("query {}: distances {:?} instead of {:?} ({:?}); links {:?}", qi, got, want, r, s));
        }
    }
    Ok(())
}

/// Every one of `values` is found at its distance from each of them.
fn all_values<E: ElementContainer>(b: &impl Index, ix: &Granne<E>, value: &dyn Fn(usize) -> usize, values: &[E::Element]) -> Res {
    let n = b.len();
    for (qi, q) in values.iter().enumerate() {
        let r = ix.search(q, n + 1, n + 1);
        for v in 0..values.len() {
            if !r.iter().any(|x| value(x.0) == v) {
                return Err(format!("a query for value {} does not find value {}: {:?}; links {:?}", qi, v, r, snap(b)));
            }
        }
        if r.first().map(|x| value(x.0)) != Some(qi) || value(ix.search(q, 1 + n, 1)[0].0) != qi {
            return Err(format!("a query for value {} finds another first: {:?}", qi, r));
        }
    }
    Ok(())
}
/// Ways to choose `m` of `n` positions: all of them if they are few, otherwise evenly spread ones.
fn placements(n: usize, m: usize, limit: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..m {
        v = v.into_iter().flat_map(|w| (w.last().map_or(0, |x| x + 1)..n).map(move |x| [&w[..], &[x]].concat())).collect();
    }
    let step = (v.len() + limit - 1) / limit;
    v.into_iter().step_by(step.max(1)).collect()
}
fn increments(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![n], (1..=n).collect()];
    if n > 2 {
        v.push(vec![n - 1, n]);
        v.push(vec![1, n]);
        v.push(vec![n / 2, n]);
    }
    v.dedup();
    v
}
fn run_increments<E: ElementContainer + Sync>(b: &mut GranneBuilder<E>, inc: &[usize]) {
    for &k in inc {
        b.build_partial(k);
    }
}

fn b03(c: &mut Ctx) {
    let maxlen = c.tier.pick(4, 5);
    for len in 1..=maxlen {
        for x in (c.job..7usize.pow(len as u32)).step_by(16) {
            let seq = digits(x, 7, len);
            c.case(
                || format!("elements {:?} of {:?}", seq, ALPHA),
                |c| {
                    let av: Vec<angular::Vector> = seq.iter().map(|&k| angular::Vector::from(ALPHA[k].to_vec())).collect();
                    let aq: Vec<angular::Vector> = ALPHA.iter().map(|a| angular::Vector::from(a.to_vec())).collect();
                    let iv: Vec<angular_int::Vector> = seq.iter().map(|&k| angular_int::Vector(super::search::quantized(&ALPHA[k]).into())).collect();
                    let iq: Vec<angular_int::Vector> = ALPHA.iter().map(|a| angular_int::Vector(super::search::quantized(a).into())).collect();
                    let live = |i: usize| seq[i] != 1;
                    for nn in [(4 * (len - 1)).max(2), 30] {
                        for ms in [len.max(1), 200] {
                            for (mult, re) in [(2.0, false), (2.0, true), (15.0, false), (15.0, true)] {
                                let cfg = BuildConfig::default().num_neighbors(nn).max_search(ms).layer_multiplier(mult).reinsert_elements(re);
                                for inc in increments(len) {
                                    let e = |t: &str, e: String| format!("{}, {} neighbours, max_search {}, multiplier {}, reinsert {}, increments {:?}: {}", t, nn, ms, mult, re, inc, e);
                                    let mut b = GranneBuilder::new(cfg, av.iter().cloned().collect::<angular::Vectors>());
                                    run_increments(&mut b, &inc);
                                    exact(&b, &b.get_index(), &live, &aq).map_err(|m| e("angular", m))?;
                                    if len > 1 {
                                        c.distinct(hash_snap(&snap(&b)));
                                    }
                                    let mut b = GranneBuilder::new(cfg, iv.iter().cloned().collect::<angular_int::Vectors>());
                                    run_increments(&mut b, &inc);
                                    exact(&b, &b.get_index(), &live, &iq).map_err(|m| e("angular_int", m))?;
                                    let mut b = GranneBuilder::new(cfg, Pts(seq.iter().map(|&k| PALPHA[k]).collect()));
                                    run_increments(&mut b, &inc);
                                    exact(&b, &b.get_index(), &live, &PALPHA).map_err(|m| e("user elements", m))?;
                                    c.count("builds", 3);
                                }
                                let mut els = embeddings::SumEmbeddings::new();
                                for a in &ALPHA {
                                    els.push_embedding(a);
                                }
                                let mut b = GranneBuilder::new(cfg, els);
                                for &k in &seq {
                                    b.push(if k == 1 { vec![] } else { vec![k] });
                                    b.build();
                                }
                                exact(&b, &b.get_index(), &live, &aq).map_err(|m| format!("SumEmbeddings pushed one at a time, {} neighbours, max_search {}, multiplier {}, reinsert {}: {}", nn, ms, mult, re, m))?;
                                c.count("builds", 1);
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // any number of copies of one element leave the others findable
    let mut k = 0;
    for nn in [4usize, 8, 12, 16] {
        for m in 1..=nn / 4 {
            for copies in [nn / 2, nn / 2 + 1, nn / 2 + 2, nn, nn + 1, 2 * nn, c.tier.pick(3, 6) * nn + 1] {
                let n = copies + m;
                for at in placements(n, m, c.tier.pick(40, 400)) {
                    k += 1;
                    if k % 16 != c.job {
                        continue;
                    }
                    c.case(
                        || format!("{} copies of an element and others at {:?}, {} neighbours", copies, at, nn),
                        |c| {
                            let value = |i: usize| at.iter().position(|&a| a == i).map_or(0, |j| j + 1);
                            const V: [[i16; 2]; 5] = [[2, 1], [9, 1], [1, 7], [-8, 2], [3, -9]];
                            let els = Pts((0..n).map(|i| p(V[value(i)][0], V[value(i)][1])).collect());
                            let vecs: angular::Vectors = (0..n).map(|i| angular::Vector::from(V[value(i)].iter().map(|&x| x as f32).collect::<Vec<_>>())).collect();
                            let ps: Vec<P> = V[..=m].iter().map(|v| p(v[0], v[1])).collect();
                            let vs: Vec<_> = V[..=m].iter().map(|v| angular::Vector::from(v.iter().map(|&x| x as f32).collect::<Vec<_>>())).collect();
                            for (mult, re, ms) in [(2.0, false, 2 * nn), (2.0, true, 2 * nn), (5.0, true, 200), (15.0, false, 200), (15.0, true, 2 * nn)] {
                                let cfg = BuildConfig::default().num_neighbors(nn).max_search(ms).layer_multiplier(mult).reinsert_elements(re);
                                for inc in increments(n) {
                                    let e = |m: String| format!("multiplier {}, reinsertion {}, max_search {}, increments {:?}: {}", mult, re, ms, inc, m);
                                    let mut b = GranneBuilder::new(cfg, els.clone());
                                    run_increments(&mut b, &inc);
                                    all_values(&b, &b.get_index(), &value, &ps).map_err(e)?;
                                    c.distinct(hash_snap(&snap(&b)));
                                    let mut b = GranneBuilder::new(cfg, vecs.borrow());
                                    run_increments(&mut b, &inc);
                                    all_values(&b, &b.get_index(), &value, &vs).map_err(e)?;
                                    c.count("builds", 2);
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    // larger small indexes
    for n in [8usize, 9, 20, 33, 64, 65, 66, 100, 257, 300] {
        for pat in [0, 1, 4, 6, 7] {
            if (n + pat) % 16 != c.job || n > c.tier.pick(100, 300) && pat != 6 {
                continue;
            }
            for re in [false, true] {
                c.case(
                    || format!("pattern {} with {} elements, {} neighbours", pat, n, 4 * (n - 1)),
                    |c| {
                        let els = pattern(pat, n);
                        for inc in increments(n) {
                            let mut b = GranneBuilder::new(BuildConfig::default().num_neighbors(4 * (n - 1)).max_search(n).layer_multiplier(2.0).reinsert_elements(re), Pts(els.clone()));
                            run_increments(&mut b, &inc);
                            exact(&b, &b.get_index(), &|i| !els[i].dead, &els)?;
                            c.distinct(hash_snap(&snap(&b)));
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// B04

#[derive(Clone, Debug)]
struct Par {
    els: Vec<P>,
    cfg: Cfg,
    /// elements indexed beforehand, sequentially
    before: usize,
    bound: u32,
    threads: usize,
    /// every distance computed is a scheduling point
    fine: bool,
}
fn b04_cases(t: Tier) -> Vec<Par> {
    let mut v = vec![];
    let c = |nn, ms, mult, re| Cfg { nn, ms, mult, re, exp: None, progress: false };
    let lists: Vec<Vec<P>> = vec![
        vec![p(0, 0), p(1, 0)],
        vec![p(0, 0), p(0, 0)],
        vec![DEAD, p(1, 0)],
        vec![p(0, 0), p(1, 0), p(3, 0)],
        vec![p(0, 0), p(5, 0), p(2, 0)],
        vec![p(0, 0), p(0, 0), p(1, 1)],
        vec![DEAD, p(1, 0), p(2, 0)],
        vec![p(0, 0), p(1, 0), DEAD],
    ];
    for l in &lists {
        let n = l.len();
        let b2 = if n == 2 { t.pick(5, 8) } else { t.pick(3, 5) };
        // small: exact afterwards
        v.push(Par { els: l.clone(), cfg: c(4 * (n - 1), n, 15.0, false), before: 0, bound: b2, threads: 2, fine: false });
        v.push(Par { els: l.clone(), cfg: c(4 * (n - 1), 2 * n, 15.0, true), before: 0, bound: if n == 2 { t.pick(4, 6) } else { t.pick(2, 3) }, threads: 2, fine: false });
        // full lists
        v.push(Par { els: l.clone(), cfg: c(1, n, 15.0, false), before: 0, bound: b2, threads: 2, fine: false });
        v.push(Par { els: l.clone(), cfg: c(2, 2, 15.0, false), before: 0, bound: b2, threads: 2, fine: false });
    }
    // insertions next to indexed elements
    for (els, before) in [
        (vec![p(0, 0), p(4, 0), p(1, 0), p(2, 0)], 2),
        (vec![p(0, 0), p(4, 0), p(4, 0), p(3, 0)], 2),
        (vec![p(0, 0), p(9, 0), p(5, 0), p(3, 0), p(4, 0)], 3),
        (vec![p(0, 0), p(1, 0), p(2, 0)], 1),
    ] {
        let n = els.len();
        v.push(Par { els: els.clone(), cfg: c(4 * (n - 1), n, 15.0, false), before, bound: t.pick(3, 5), threads: 2, fine: false });
        v.push(Par { els: els.clone(), cfg: c(1, 4, 15.0, false), before, bound: t.pick(3, 5), threads: 2, fine: false });
        v.push(Par { els: els.clone(), cfg: c(2, 4, 15.0, false), before, bound: t.pick(3, 5), threads: 2, fine: false });
    }
    // several layers
    for els in [vec![p(0, 0), p(1, 0), p(5, 0), p(3, 0)], vec![p(0, 0), p(4, 0), p(1, 0)]] {
        let n = els.len();
        v.push(Par { els: els.clone(), cfg: c(4 * (n - 1), n, 2.0, false), before: 0, bound: t.pick(2, 3), threads: 2, fine: false });
        v.push(Par { els: els.clone(), cfg: c(2, 2, 2.0, false), before: 0, bound: t.pick(2, 3), threads: 2, fine: false });
    }
    // four at once
    let four = vec![p(0, 0), p(1, 0), p(3, 0), p(6, 0)];
    v.push(Par { els: four.clone(), cfg: c(12, 4, 15.0, false), before: 0, bound: t.pick(2, 3), threads: 2, fine: false });
    v.push(Par { els: four.clone(), cfg: c(2, 4, 15.0, false), before: 0, bound: t.pick(2, 3), threads: 2, fine: false });
    v.push(Par { els: four.clone(), cfg: c(12, 8, 15.0, true), before: 0, bound: t.pick(1, 2), threads: 2, fine: false });
    v.push(Par { els: four, cfg: Cfg { progress: true, ..c(12, 4, 15.0, false) }, before: 0, bound: t.pick(2, 3), threads: 2, fine: false });
    v.push(Par { els: pattern(6, 6), cfg: c(20, 6, 15.0, false), before: 0, bound: t.pick(1, 2), threads: 4, fine: false });
    // enough to report progress more than once
    v.push(Par {
        els: (0..102).map(|i| p(if i == 100 { 1 } else { 4 * i }, 0)).collect(),
        cfg: Cfg { progress: true, ..c(2, 1, 1000.0, true) },
        before: 101,
        bound: 1,
        // two tasks
        threads: 1,
        fine: false,
    });
    v.push(Par { els: pattern(6, 5), cfg: c(3, 5, 4.0, true), before: 0, bound: t.pick(0, 1), threads: 2, fine: false });
    // every list of some points, all inserted at once or next to two of them
    let points = [p(0, 0), p(1, 0), p(3, 0), p(1, 2), DEAD];
    for n in [3usize, 4] {
        for x in 0..points.len().pow(n as u32) {
            let els: Vec<P> = digits(x, points.len(), n).into_iter().map(|i| points[i]).collect();
            for (nn, ms, re) in [(4 * (n - 1), n, false), (1, n, false), (2, 2, false), (3, n, true)] {
                if re && n == 4 {
                    continue;
                }
                v.push(Par { els: els.clone(), cfg: c(nn, ms, 15.0, re), before: n / 4 * 2, bound: t.pick(if re { 1 } else { 2 }, if re { 2 } else { 3 }), threads: 2, fine: false });
            }
        }
    }
    // the same, interrupted at every distance computed
    for x in v.clone() {
        if x.bound > 1 && x.before < 100 {
            v.push(Par { fine: true, bound: if x.els.len() < 4 { 2 } else { t.pick(1, 2) }, ..x });
        }
    }
    v
}

fn b04(c: &mut Ctx) {
    let par = b04_cases(c.tier)[c.job].clone();
    c.case(
        || format!("{:?}", par),
        |c| {
            let seen: mcsched::Aside<BTreeSet<u64>> = Default::default();
            let n = par.els.len();
            let mut saved = vec![];
            if par.before > 100 {
                let mut b = GranneBuilder::new(par.cfg.get(), Pts(par.els.clone()));
                b.build_partial(par.before);
                saved = write_index_vec(&b.get_index())?;
            }
            let body = || -> Result<u64, String> {
                let els = Pts(par.els.clone());
                let mut b = if saved.is_empty() { GranneBuilder::new(par.cfg.get(), els) } else { GranneBuilder::from_bytes(par.cfg.get(), &saved, els) };
                for k in 1..=if saved.is_empty() { par.before } else { 0 } {
                    b.build_partial(k);
                }
                b.build();
                check_builder(&b, &par.els, n, par.cfg.nn)?;
                let s = snap(&b);
                let small = n - 1 <= par.cfg.nn / 4 && par.cfg.ms >= n;
                if small {
                    exact_search(&b, &b.get_index(), &|i| !par.els[i].dead, &par.els)?;
                }
                if n - 1 <= par.cfg.nn / 2 {
                    // no list can have been full
                    for (l, layer) in s.iter().enumerate() {
                        for i in 0..layer.len() {
                            for &j in &layer[i] {
                                if !layer[j].contains(&i) {
                                    return Err(format!("layer {}: {} links to {} but not the other way: {:?}", l, i, j, layer));
                                }
                            }
                        }
                    }
                }
                let h = hash_snap(&s);
                seen.lock().insert(h);
                Ok(h)
            };
            let cfg = mcsched::Config { bound: par.bound, num_threads: par.threads, fine: par.fine, ..Default::default() };
            c.explore(&cfg, &body)?;
            let hs = std::mem::take(&mut *seen.lock());
            for h in hs {
                c.distinct(mcsched::mix(h, c.job as u64));
            }
            Ok(())
        },
    );
}
