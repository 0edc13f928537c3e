//! B05: what an index depends on, and what it does not.
use super::build::pattern;
use super::Check;
use crate::fw::{Ctx, Res};
use crate::util::*;
use granne::embeddings::SumEmbeddings;
use granne::*;
use std::io::Cursor;
use std::os::fd::AsRawFd;

pub fn checks() -> Vec<Check> {
    vec![Check {
        name: "B05",
        level: "exploration",
        rule: "a case is one element list built in every way that must make no difference, links and saved bytes compared; \
               distinct non-trivial cases are distinct link structures with at least two elements",
        bound: |t| {
            format!(
                "all sequences up to length {} over 7 vectors x 4 element types x 24 configurations x increments x 8 ways to hold the elements; all 720 orders of the setters with 4 sets of values; what three options change in nine builds each; \
                 builds of up to {} elements; every grouping of up to {} insertions into the concurrent builder and groupings of up to 20000",
                t.pick(4, 5),
                t.pick(3000, 10_000),
                t.pick(8, 10)
            )
        },
        assumptions: &["one worker thread"],
        jobs: |_| 16,
        run: only!("B05", b05),
    }]
}

type Image = (Snap, Vec<u8>, usize);

fn image<E: ElementContainer + Sync>(b: &GranneBuilder<E>) -> Result<Image, String> {
    Ok((snap(b), write_index_vec(b)?, b.num_elements()))
}
fn same(a: &Image, b: &Image) -> Res {
    if a.2 != b.2 {
        return Err(format!("{} elements instead of {}", b.2, a.2));
    }
    if a.0 != b.0 {
        let t: String = format!("links {:?} instead of {:?}", b.0, a.0).chars().take(600).collect();
        return Err(t);
    }
    if a.1 != b.1 {
        return Err("the saved bytes differ".into());
    }
    Ok(())
}

/// What is printed to standard output meanwhile.
fn printed(dir: &Scratch, f: impl FnOnce()) -> Vec<u8> {
    use std::io::Write;
    let path = dir.path("stdout");
    let file = std::fs::File::create(&path).unwrap();
    std::io::stdout().flush().unwrap();
    let old = unsafe { libc::dup(1) };
    unsafe { libc::dup2(file.as_raw_fd(), 1) };
    f();
    std::io::stdout().flush().unwrap();
    unsafe {
        libc::dup2(old, 1);
        libc::close(old);
    }
    std::fs::read(&path).unwrap()
}

/// A collection and the ways to hold the same elements.
trait Held: ExtendableElementContainer + Writeable + Sync + Clone + 'static {
    fn ways(&self, dir: &Scratch, visit: &mut dyn Visit) -> Res;
    fn items(&self) -> Vec<Self::InternalElement>;
    fn empty(&self) -> Self;
}
trait Visit {
    fn dense(&mut self, way: &str, v: angular::Vectors) -> Res;
    fn int(&mut self, way: &str, v: angular_int::Vectors) -> Res;
    fn sums(&mut self, way: &str, v: SumEmbeddings) -> Res;
    fn points(&mut self, way: &str, v: &Pts) -> Res;
}

macro_rules! dense {
    ($m:ident, $f:ident) => {
        impl Held for $m::Vectors<'static> {
            fn ways(&self, dir: &Scratch, visit: &mut dyn Visit) -> Res {
                visit.$f("borrowed", self.borrow())?;
                visit.$f("cloned", self.clone())?;
                visit.$f("from an iterator", (0..self.len()).map(|i| self.get_element(i).into_owned()).collect())?;
                let mut b = vec![];
                self.write(&mut b).unwrap();
                for a in [0usize, 1] {
                    let m = Aligned::new(&b, a);
                    visit.$f("from bytes", $m::Vectors::from_bytes(m.get()))?;
                }
                let f = file_with(dir, "elements", &b);
                visit.$f("from a file", unsafe { $m::Vectors::from_file(&f) }.map_err(|e| e.to_string())?)?;
                visit.$f("from a file, owned", unsafe { $m::Vectors::from_file(&f) }.map_err(|e| e.to_string())?.into_owned())
            }
            fn items(&self) -> Vec<$m::Vector<'static>> {
                (0..self.len()).map(|i| self.get_element(i).into_owned()).collect()
            }
            fn empty(&self) -> Self {
                $m::Vectors::new()
            }
        }
    };
}
dense!(angular, dense);
dense!(angular_int, int);
impl Held for SumEmbeddings<'static> {
    fn ways(&self, dir: &Scratch, visit: &mut dyn Visit) -> Res {
        visit.sums("borrowed", self.borrow())?;
        visit.sums("cloned", self.clone())?;
        let (mut b, mut e) = (vec![], vec![]);
        self.write(&mut b).unwrap();
        self.write_embeddings(&mut e).unwrap();
        let (fb, fe) = (file_with(dir, "elements", &b), file_with(dir, "embeddings", &e));
        visit.sums("from files", unsafe { SumEmbeddings::from_files(&fe, Some(&fb)) }.map_err(|e| e.to_string())?)?;
        let mut s = unsafe { SumEmbeddings::from_files(&fe, None) }.map_err(|e| e.to_string())?;
        for i in 0..self.len() {
            s.push(&self.get_terms(i));
        }
        visit.sums("embeddings from a file", s)
    }
    fn items(&self) -> Vec<Vec<usize>> {
        (0..self.len()).map(|i| self.get_terms(i)).collect()
    }
    fn empty(&self) -> Self {
        let mut s = SumEmbeddings::new();
        for i in 0..self.num_embeddings() {
            s.push_embedding(&self.create_embedding(&[i]));
        }
        s
    }
}
impl Held for Pts {
    fn ways(&self, _: &Scratch, visit: &mut dyn Visit) -> Res {
        visit.points("cloned", &self.clone())
    }
    fn items(&self) -> Vec<P> {
        self.0.clone()
    }
    fn empty(&self) -> Self {
        Pts::default()
    }
}

struct Compare<'a> {
    want: &'a Image,
    cfg: BuildConfig,
    inc: &'a [usize],
    builds: usize,
}
impl<'a> Compare<'a> {
    fn one<E: ElementContainer + Sync>(&mut self, way: &str, e: E) -> Res {
        let mut b = GranneBuilder::new(self.cfg, e);
        for &k in self.inc {
            b.build_partial(k);
        }
        self.builds += 1;
        same(self.want, &image(&b)?).map_err(|e| format!("elements {}: {}", way, e))
    }
    fn both<E: ElementContainer + Sync>(&mut self, way: &str, e: E) -> Res {
        self.one(&format!("{}, by reference", way), &e)?;
        self.one(way, e)
    }
}
impl<'a> Visit for Compare<'a> {
    fn dense(&mut self, way: &str, v: angular::Vectors) -> Res {
        self.both(way, v)
    }
    fn int(&mut self, way: &str, v: angular_int::Vectors) -> Res {
        self.both(way, v)
    }
    fn sums(&mut self, way: &str, v: SumEmbeddings) -> Res {
        self.both(way, v)
    }
    fn points(&mut self, way: &str, v: &Pts) -> Res {
        self.both(way, v.clone())
    }
}

fn all_ways<E: Held>(dir: &Scratch, e: &E, cfg: BuildConfig, inc: &[usize], c: &mut Ctx) -> Res {
    let mut b = GranneBuilder::new(cfg, e.clone());
    for &k in inc {
        b.build_partial(k);
    }
    let want = image(&b)?;
    let mut v = Compare { want: &want, cfg, inc, builds: 0 };
    v.one("again", e.clone())?;
    e.ways(dir, &mut v)?;
    let mut v2 = Compare { want: &want, cfg: cfg.show_progress(true), inc, builds: 0 };
    v2.one("with progress shown", e.clone())?;
    c.count("builds", (v.builds + v2.builds + 2) as u64);
    // pushed one by one
    let mut b = GranneBuilder::new(cfg, e.empty());
    for x in e.items() {
        b.push(x);
    }
    for &k in inc {
        b.build_partial(k);
    }
    same(&want, &image(&b)?).map_err(|e| format!("elements pushed: {}", e))?;
    if want.2 > 1 {
        c.distinct(hash_snap(&want.0));
    }
    // the last increment is the same as building everything
    if inc.last() == Some(&want.2) {
        let mut b = GranneBuilder::new(cfg, e.clone());
        for &k in &inc[..inc.len() - 1] {
            b.build_partial(k);
        }
        b.build();
        same(&want, &image(&b)?).map_err(|e| format!("built to the end: {}", e))?;
    }
    Ok(())
}

const ALPHA: [[f32; 3]; 7] = [[1.0, 0.0, 2.0], [0.0, 0.0, 0.0], [3.0, 4.0, -1.0], [-1.0, 0.25, 0.5], [1.0, 0.0, 2.0], [0.6, -0.8, 0.0], [1000.0, 1.0, -30.0]];

fn b05(c: &mut Ctx) {
    let dir = Scratch::new("b05");
    let top = c.tier.pick(4usize, 5);
    for len in 0..=top {
        for x in 0..7usize.pow(len as u32) {
            if x % 16 != c.job {
                continue;
            }
            let seq = digits(x, 7, len);
            c.case(
                || format!("elements {:?} of {:?}", seq, ALPHA),
                |c| {
                    let dense: angular::Vectors = seq.iter().map(|&k| angular::Vector::from(ALPHA[k].to_vec())).collect();
                    let int: angular_int::Vectors = seq.iter().map(|&k| angular_int::Vector::from(ALPHA[k].to_vec())).collect();
                    let mut sums = SumEmbeddings::new();
                    ALPHA.iter().for_each(|a| sums.push_embedding(a));
                    seq.iter().for_each(|&k| sums.push(&[k, (k + 3) % 7][..1 + k % 2]));
                    let pts = Pts(seq.iter().map(|&k| if k == 1 { DEAD } else { p(k as i16 / 2, k as i16 % 3) }).collect());
                    let mut k = x;
                    for nn in [1usize, 2, 5] {
                        for ms in [1usize, 8] {
                            for mult in [2.0f32, 15.0] {
                                for re in [false, true] {
                                    let mut cfg = BuildConfig::default().num_neighbors(nn).max_search(ms).layer_multiplier(mult).reinsert_elements(re);
                                    k += 1;
                                    if k % 3 == 0 {
                                        cfg = cfg.expected_num_elements(len + k % 5);
                                    }
                                    let mut incs = vec![vec![len], vec![]];
                                    if len > 0 {
                                        incs.push((1..=len).collect());
                                        incs.push(vec![len / 2, len]);
                                    }
                                    let inc = incs[k / 3 % incs.len()].clone();
                                    let e = |t: &str, m: String| format!("{}, {} neighbours, max_search {}, multiplier {}, reinsert {}, increments {:?}: {}", t, nn, ms, mult, re, inc, m);
                                    all_ways(&dir, &dense, cfg, &inc, c).map_err(|m| e("angular", m))?;
                                    all_ways(&dir, &int, cfg, &inc, c).map_err(|m| e("angular_int", m))?;
                                    all_ways(&dir, &sums, cfg, &inc, c).map_err(|m| e("sums", m))?;
                                    all_ways(&dir, &pts, cfg, &inc, c).map_err(|m| e("user elements", m))?;
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    larger(c, &dir);
    setters(c, &dir);
    effects(c);
    groupings(c);
}

fn vectors(n: usize, dim: usize) -> Vec<Vec<f32>> {
    (0..n).map(|i| (0..dim).map(|d| ((i * 31 + d * 17 + i * d * 7 + i / 40) % 97) as f32 - 48.0).collect()).collect()
}

fn larger(c: &mut Ctx, dir: &Scratch) {
    let mut k = 0;
    for &n in c.tier.pick(&[20usize, 150, 230, 500, 3000][..], &[16, 17, 20, 150, 230, 500, 3000, 10_000][..]) {
        for dim in [3usize, 33] {
            for (name, cfg) in [
                ("defaults", BuildConfig::default()),
                ("few neighbours", BuildConfig::default().num_neighbors(4).max_search(10).layer_multiplier(3.0)),
                ("no reinsertion", BuildConfig::default().num_neighbors(7).max_search(20).layer_multiplier(9.5).reinsert_elements(false).expected_num_elements(n + n / 3)),
            ] {
                k += 1;
                if k % 16 != c.job || n > 500 && (dim == 33 || name == "defaults" && n > 3000) {
                    continue;
                }
                c.case(
                    || format!("{} vectors of dimension {}, {}", n, dim, name),
                    |c| {
                        let vs = vectors(n, dim);
                        let inc = if k % 2 == 0 { vec![n] } else { vec![n / 3, n / 2 + 1, n] };
                        let dense: angular::Vectors = vs.iter().map(|v| angular::Vector::from(v.clone())).collect();
                        all_ways(dir, &dense, cfg, &inc, c)?;
                        if n <= 500 {
                            let int: angular_int::Vectors = vs.iter().map(|v| angular_int::Vector::from(v.clone())).collect();
                            all_ways(dir, &int, cfg, &inc, c)?;
                            let mut sums = SumEmbeddings::new();
                            vs[..n.min(50)].iter().for_each(|v| sums.push_embedding(v));
                            (0..n).for_each(|i| sums.push(&[i % n.min(50), (i / 3) % n.min(50), i * 7 % n.min(50)][..i % 4]));
                            all_ways(dir, &sums, cfg, &inc, c)?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

/// Options: their documented defaults, and the order in which they are set.
fn setters(c: &mut Ctx, dir: &Scratch) {
    let build = |cfg: BuildConfig, n: usize| -> Result<Image, String> {
        let mut b = GranneBuilder::new(cfg, vectors(n, 5).into_iter().map(angular::Vector::from).collect::<angular::Vectors>());
        b.build();
        image(&b)
    };
    for (k, n) in [1usize, 14, 15, 16, 31, 61, 199, 201, 232, 400].into_iter().enumerate() {
        if k % 16 != c.job {
            continue;
        }
        c.case(
            || format!("documented defaults with {} elements", n),
            |c| {
                let want = build(BuildConfig::default().num_neighbors(30).max_search(200).layer_multiplier(15.0).reinsert_elements(true).show_progress(false), n)?;
                same(&want, &build(BuildConfig::default(), n)?)?;
                same(&want, &build(BuildConfig::new(), n)?)?;
                same(&want, &build(BuildConfig::new().expected_num_elements(n), n)?).map_err(|e| format!("with the number of elements as the expected number: {}", e))?;
                let mut r = vec![];
                for (cfg, loud) in [(BuildConfig::default(), false), (BuildConfig::new(), false), (BuildConfig::default().show_progress(true), true), (BuildConfig::default().show_progress(true).show_progress(false), false)] {
                    let out = printed(dir, || r.push(build(cfg, n)));
                    if out.is_empty() == loud {
                        return Err(format!("{} bytes are printed although progress is {}", out.len(), if loud { "shown" } else { "not shown" }));
                    }
                }
                for x in r {
                    same(&want, &x?)?;
                }
                if n > 1 {
                    c.distinct(hash_snap(&want.0));
                }
                Ok(())
            },
        );
    }
    type Setter = fn(BuildConfig) -> BuildConfig;
    let values: [[Setter; 6]; 4] = [
        [
            |c| c.num_neighbors(3),
            |c| c.max_search(7),
            |c| c.layer_multiplier(2.5),
            |c| c.reinsert_elements(false),
            |c| c.expected_num_elements(29),
            |c| c.show_progress(true),
        ],
        [
            |c| c.num_neighbors(9),
            |c| c.max_search(2),
            |c| c.layer_multiplier(6.0),
            |c| c.reinsert_elements(true),
            |c| c.expected_num_elements(70),
            |c| c.show_progress(false),
        ],
        [
            |c| c.num_neighbors(40),
            |c| c.max_search(12),
            |c| c.layer_multiplier(1.25),
            |c| c.reinsert_elements(false),
            |c| c.expected_num_elements(8),
            |c| c.show_progress(false),
        ],
        [
            |c| c.num_neighbors(1),
            |c| c.max_search(300),
            |c| c.layer_multiplier(100.0),
            |c| c.reinsert_elements(true),
            |c| c.expected_num_elements(1),
            |c| c.show_progress(true),
        ],
    ];
    for bits in 0..64usize {
        if bits % 16 != c.job {
            continue;
        }
        for (v, set) in values.iter().enumerate() {
            let other = &values[(v + 1) % 4];
            c.case(
                || format!("setting the options {:06b} in every order, values {}", bits, v),
                |c| {
                    let chosen: Vec<usize> = (0..6).filter(|i| bits >> i & 1 == 1).collect();
                    let want = build(chosen.iter().fold(BuildConfig::new(), |c, &i| set[i](c)), 21)?;
                    for perm in permutations(chosen.len()) {
                        let order: Vec<usize> = perm.iter().map(|&i| chosen[i]).collect();
                        same(&want, &build(order.iter().fold(BuildConfig::new(), |c, &i| set[i](c)), 21)?).map_err(|e| format!("in the order {:?}: {}", order, e))?;
                        // the last value counts
                        let first = order.iter().rev().fold(BuildConfig::default(), |c, &i| other[i](c));
                        same(&want, &build(order.iter().fold(first, |c, &i| set[i](c)), 21)?).map_err(|e| format!("set twice in the order {:?}: {}", order, e))?;
                        c.count("builds", 2);
                    }
                    c.distinct(hash_snap(&want.0));
                    Ok(())
                },
            );
        }
    }
}

/// Options do what they are documented to do: reinsertion and a larger search budget while building
/// change the links of a crowded index and make searches find more. Sums over a fixed family.
fn effects(c: &mut Ctx) {
    let recall = |cfg: BuildConfig, els: &angular::Vectors, n: usize| -> Result<(usize, Snap), String> {
        let mut b = GranneBuilder::new(cfg, els.borrow());
        b.build();
        let ix = b.get_index();
        let mut found = 0;
        for q in vectors(n + 40, 5).into_iter().skip(n).map(angular::Vector::from) {
            let mut best: Vec<(f32, usize)> = (0..n).map(|i| (els.dist_to_element(i, &q).into_inner(), i)).collect();
            best.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let r = ix.search(&q, 10, 10);
            found += best[..10].iter().filter(|x| r.iter().any(|y| y.0 == x.1)).count();
        }
        Ok((found, snap(&b)))
    };
    for (k, (name, low, high)) in [
        ("reinsertion", (|c: BuildConfig| c.reinsert_elements(false)) as fn(BuildConfig) -> BuildConfig, (|c: BuildConfig| c.reinsert_elements(true)) as fn(BuildConfig) -> BuildConfig),
        ("a larger search budget", |c| c.max_search(4), |c| c.max_search(60)),
        ("more neighbours", |c| c.num_neighbors(4), |c| c.num_neighbors(12)),
    ]
    .into_iter()
    .enumerate()
    {
        if k + 9 != c.job {
            continue;
        }
        c.case(
            || format!("effect of {}", name),
            |c| {
                let (mut less, mut more, mut changed) = (0, 0, 0);
                for n in [300usize, 500, 700] {
                    let els: angular::Vectors = vectors(n, 5).into_iter().map(angular::Vector::from).collect();
                    for (nn, ms) in [(6usize, 8usize), (8, 12), (6, 20)] {
                        let cfg = BuildConfig::default().num_neighbors(nn).max_search(ms).layer_multiplier(8.0);
                        let (a, b) = (recall(low(cfg), &els, n)?, recall(high(cfg), &els, n)?);
                        less += a.0;
                        more += b.0;
                        changed += (a.1 != b.1) as usize;
                        c.distinct(hash_snap(&b.1));
                    }
                }
                c.max("recall found", more as u64);
                if changed == 0 || more <= less {
                    return Err(format!("{} of 9 builds differ; searches find {} of 3600 without and {} with", changed, less, more));
                }
                Ok(())
            },
        );
    }
}

/// How insertions are grouped makes no difference to the concurrent builder.
fn groupings(c: &mut Ctx) {
    let saved = |b: &RwGranneBuilder<Pts>| -> Result<(Vec<u8>, Vec<u8>), String> {
        let (mut i, mut e) = (Cursor::new(vec![]), vec![]);
        b.write(&mut i, &mut e).map_err(|e| e.to_string())?;
        Ok((i.into_inner(), e))
    };
    let run = |cfg: BuildConfig, els: &[P], init: usize, max: usize, groups: &mut dyn Iterator<Item = usize>| {
        let mut b = GranneBuilder::new(cfg, Pts(els[..init].to_vec()));
        b.build();
        let b = RwGranneBuilder::new(b, max, 1);
        let mut at = init;
        while at < els.len() {
            let k = groups.next().unwrap().min(els.len() - at);
            b.insert_batch(els[at..at + k].to_vec());
            at += k;
        }
        saved(&b)
    };
    let top = c.tier.pick(8usize, 10);
    let mut k = 0;
    for n in 1..=top {
        for init in [0, n / 3] {
            for pat in [0usize, 1, 3, 4, 6, 7] {
                for (nn, ms, mult) in [(2usize, 2usize, 2.0f32), (3, 8, 3.0), (20, 20, 15.0)] {
                    k += 1;
                    if k % 16 != c.job {
                        continue;
                    }
                    c.case(
                        || format!("{} elements of pattern {}, {} initially, {} neighbours, max_search {}, multiplier {}, every grouping", n, pat, init, nn, ms, mult),
                        |c| {
                            for max in [n, n + 3] {
                                let cfg = BuildConfig::default().num_neighbors(nn).max_search(ms).layer_multiplier(mult).reinsert_elements(false).expected_num_elements(max);
                                let els = pattern(pat, n);
                                let want = run(cfg, &els, init, max, &mut std::iter::repeat(1))?;
                                for bits in 0..1usize << (n - init).saturating_sub(1) {
                                    let mut groups = vec![1];
                                    for i in 0..(n - init).saturating_sub(1) {
                                        if bits >> i & 1 == 1 {
                                            groups.push(1);
                                        } else {
                                            *groups.last_mut().unwrap() += 1;
                                        }
                                    }
                                    if run(cfg, &els, init, max, &mut groups.iter().cloned())? != want {
                                        return Err(format!("a maximum of {}, batches {:?}: the saved index differs from the one of single insertions", max, groups));
                                    }
                                    c.count("groupings", 1);
                                }
                                c.distinct(hash_str(&format!("{:?}", want)));
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    for (k, (n, max)) in [(100usize, 100usize), (1000, 3000), (2000, 2000), (5000, 5001), (20_000, 20_000)].into_iter().enumerate() {
        if k * 3 % 16 != c.job {
            continue;
        }
        c.case(
            || format!("{} of at most {} elements in groups of several sizes", n, max),
            |c| {
                let cfg = BuildConfig::default().num_neighbors(5).max_search(6).layer_multiplier(6.0).reinsert_elements(false);
                let els: Vec<P> = (0..n).map(|i| if i % 19 == 18 { DEAD } else { p(((i * 37) % 251) as i16, (i / 251) as i16) }).collect();
                let want = run(cfg, &els, 0, max, &mut std::iter::repeat(1))?;
                for g in [2usize, 7, 64, 999, n] {
                    if run(cfg, &els, 0, max, &mut std::iter::repeat(g))? != want {
                        return Err(format!("groups of {}: the saved index differs from the one of single insertions", g));
                    }
                    c.count("groupings", 1);
                }
                c.distinct(hash_str(&format!("{} {}", n, want.0.len())));
                Ok(())
            },
        );
    }
}
