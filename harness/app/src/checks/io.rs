//! I01 - I05: saving and loading.
use super::build::{check_sizes, pattern};
use super::Check;
use crate::fw::{guard, Ctx, Res};
use crate::util::*;
use granne::*;
use ordered_float::NotNan;
use std::io::{Cursor, Seek, SeekFrom, Write};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            name: "I01",
            level: "exploration",
            rule: "a case is one index (built by an enumerated history, or with enumerated links) taken through every save / load / convert path; distinct non-trivial cases are distinct link structures with at least one link",
            bound: |t| format!(
                "all build histories of {} operations in 4 configurations; all digraphs on up to 3 nodes under every upper layer of up to 2 nodes; every last layer size 1..=190 and around multiples of 60 in 4 link patterns with 1 to 4 layers; builds of up to 20000 elements with as many layers as multipliers down to 1.02 give; 4 element types; 16 alignments; 5 buffer positions; layers of more than 4 GiB in sparse files",
                t.pick(5, 6)
            ),
            assumptions: &[],
            jobs: |_| 16,
            run: only!("I01", i01),
        },
        Check {
            name: "I02",
            level: "exploration",
            rule: "a case is one element collection written and loaded through every path; distinct non-trivial cases are distinct non-empty collections",
            bound: |t| format!("vectors of every dimension 1..=8 and around 32 and 64 with counts 0..=5 and 59..=61, up to 1048577 vectors, dimensions and terms; every sequence of {} scalars from 12 extreme values; term lists over 11 boundary ids; 16 alignments; collections of 4 to 27 GiB in sparse files", t.pick(3, 4)),
            assumptions: &[],
            jobs: |_| 16,
            run: only!("I02", i02),
        },
        Check {
            name: "I03",
            level: "fault_enumeration",
            rule: "a case is one save with one fault at one operation of the sink (or one pattern of short or interrupted writes); distinct non-trivial cases are distinct (save, fault) pairs whose fault was reached",
            bound: |_| "every write, seek and flush of every save path failing once or from then on, returning nothing, being interrupted, or accepting 1 byte, half or all but one byte; every file size limit for the path based savers; a full device".into(),
            assumptions: &["the sink reports faults through std::io::Error; data lost by the operating system after a successful write is out of scope"],
            jobs: |_| 32,
            run: only!("I03", i03),
        },
        Check {
            name: "I04",
            level: "fault_enumeration",
            rule: "a case is one save (or one complete file); every prefix of its sink operations and every torn byte of each write is loaded, and every truncation of the complete file; distinct non-trivial cases are distinct crash images",
            bound: |_| "indexes with 0 to 4 layers and up to 130 nodes, saved by a builder, from a loaded index and by the concurrent builder; every byte of every sink operation; indexes of 1500 and 4000 nodes, some 6000 of the bytes and every boundary of an operation (thorough: every byte)".into(),
            assumptions: &["the operating system keeps the order of the writes to the sink"],
            jobs: |_| 24,
            run: only!("I04", i04),
        },
        Check {
            name: "I05",
            level: "exploration",
            rule: "a case is one build interrupted by a save and resumed; distinct non-trivial cases are distinct resumed link structures with at least one link",
            bound: |t| format!("up to {} elements in 8 patterns, every pair of split points, 3 multipliers, resumed with smaller, equal and larger neighbour limits, from bytes and from a file; element counts around 60, 120 and 256 and up to {}; indexes growing in three builds to {} elements (in up to {} builds to {}), any of up to {} expected, saved and resumed after every build", t.pick(14, 26), t.pick(1000, 10_001), t.pick(12, 17), t.pick(20, 59), t.pick(130, 400), t.pick(14, 19)),
            assumptions: &[],
            jobs: |_| 16,
            run: only!("I05", i05),
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// I01

type Answers = Vec<Vec<(usize, f32)>>;
fn answers<E: ElementContainer>(g: &Granne<E>, qs: &[E::Element]) -> Answers {
    let n = g.len();
    let mut v = vec![];
    for q in qs {
        for (ms, k) in [(1, 1), (2, 5), (3, 3), (n + 1, n + 1), (2 * n + 5, 3)] {
            v.push(g.search(q, ms, k));
        }
    }
    v
}
fn agree<E: ElementContainer>(g: &Granne<E>, s: &Snap, a: &Answers, qs: &[E::Element], what: &str) -> Res {
    let got = snap(g);
    if sorted(&got) != *s {
        return Err(format!("{}: links {:?} instead of {:?}", what, got, s));
    }
    if g.len() != s.last().map_or(0, |l| l.len()) {
        return Err(format!("{}: length {}", what, g.len()));
    }
    if answers(g, qs) != *a {
        return Err(format!("{}: a search gives another answer", what));
    }
    Ok(())
}

/// Everything that can be done to a saved index. `b` is anything that can be written, holding `s`.
fn trip<E>(b: &impl Index, s: &Snap, a: &Answers, els: &E, qs: &[E::Element], dir: &Scratch, few: bool, canonical: bool) -> Result<Vec<u8>, String>
where
    E: ElementContainer + Clone + Sync,
{
    let s = &sorted(s);
    let bytes = write_index_vec(b)?;
    for pos in if few { vec![3usize] } else { vec![1usize, 8, 1000, 1024, 5000] } {
        // in the middle of an existing, longer buffer
        let old: Vec<u8> = (0..pos + bytes.len() + 37).map(|i| (i % 251) as u8).collect();
        let mut c = Cursor::new(old.clone());
        c.set_position(pos as u64);
        b.write_index(&mut c).map_err(|e| e.to_string())?;
        let now = c.into_inner();
        if now[pos..pos + bytes.len()] != bytes[..] {
            return Err(format!("written at position {}, the bytes differ", pos));
        }
        if now[..pos] != old[..pos] || now[pos + bytes.len()..] != old[pos + bytes.len()..] {
            return Err(format!("writing at position {} changed bytes around the index", pos));
        }
    }
    for al in if few { vec![0usize, 3] } else { (0..16).collect() } {
        let m = Aligned::new(&bytes, al);
        agree(&Granne::from_bytes(m.get(), els.clone()), s, a, qs, &format!("from bytes at alignment {}", al))?;
        if !few {
            let bb = GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(254), m.get(), els.clone());
            agree(&bb.get_index_owned(), s, a, qs, &format!("builder from bytes at alignment {}", al))?;
        }
    }
    let f = file_with(dir, "index", &bytes);
    let g = unsafe { Granne::from_file(&f, els.clone()) }.map_err(|e| format!("from_file: {}", e))?;
    agree(&g, s, a, qs, "from a file")?;
    if write_index_vec(&g)? != bytes {
        return Err("saving the mapped index gives different bytes".into());
    }
    let borrowed = Granne::from_bytes(&bytes, els);
    agree(&borrowed, s, a, qs, "with borrowed elements")?;
    if write_index_vec(&borrowed)? != bytes {
        return Err("saving the loaded index gives different bytes".into());
    }
    // copies do not depend on what they were made from
    let gf = unsafe { Granne::from_file(&f, els) }.map_err(|e| format!("from_file: {}", e))?;
    let from_map = gf.to_owned();
    drop(gf);
    let copy = {
        let tmp = bytes.clone();
        let g = Granne::from_bytes(&tmp, els);
        g.to_owned()
    };
    agree(&from_map, s, a, qs, "copied from a mapped index")?;
    agree(&copy, s, a, qs, "copied from bytes")?;
    if write_index_vec(&copy)? != bytes || write_index_vec(&from_map)? != bytes {
        return Err("saving the owned copy gives different bytes".into());
    }
    let bb = GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(254), &bytes, els.clone());
    if canonical && write_index_vec(&bb)? != bytes {
        return Err("saving the resumed builder gives different bytes".into());
    }
    let bf = GranneBuilder::from_file(BuildConfig::default().num_neighbors(254), &f, els.clone()).map_err(|e| e.to_string())?;
    if snap(&bf) != *s {
        return Err("builder from a file: other links".into());
    }
    Ok(bytes)
}
trait GetOwned<E> {
    fn get_index_owned(&self) -> Granne<'static, E>;
}
impl<E: ElementContainer + Sync + Clone> GetOwned<E> for GranneBuilder<E> {
    fn get_index_owned(&self) -> Granne<'static, E> {
        self.get_index().to_owned()
    }
}

fn built_trip<E>(b: &GranneBuilder<E>, qs: &[E::Element], dir: &Scratch, few: bool) -> Result<Vec<u8>, String>
where
    E: ElementContainer + Clone + Sync,
{
    let s = snap(b);
    let ix = b.get_index();
    let a = answers(&ix, qs);
    let bytes = trip(b, &s, &a, b.get_elements(), qs, dir, few, true)?;
    if write_index_vec(&ix)? != bytes {
        return Err("the builder and its index are saved differently".into());
    }
    agree(&ix.to_owned(), &sorted(&s), &a, qs, "built index copied to owned")?;
    Ok(bytes)
}

const I01_OPS: usize = 5;
fn i01(c: &mut Ctx) {
    let part = c.job;
    let dir = Scratch::new("i01");
    let mut k = 0usize;
    let mut mine = move || {
        k += 1;
        k % 16 == part
    };
    // built by all short histories
    let depth = c.tier.pick(5, 6);
    for (nn, ms, mult) in [(1usize, 1usize, 2.0f32), (2, 4, 2.0), (3, 9, 3.0), (5, 9, 15.0)] {
        for x in 0..I01_OPS.pow(depth) {
            if !mine() {
                continue;
            }
            let seq = digits(x, I01_OPS, depth as usize);
            c.case(|| format!("{} neighbours, max_search {}, multiplier {}, operations {:?}", nn, ms, mult, seq), |c| {
                let cfg = BuildConfig::default().num_neighbors(nn).max_search(ms).layer_multiplier(mult).reinsert_elements(x % 2 == 0);
                let mut b = GranneBuilder::new(cfg, Pts::default());
                for &o in &seq {
                    match o {
                        0 => b.push(p(0, 0)),
                        1 => b.push(p(3, 1)),
                        2 => b.push(DEAD),
                        3 => b.build(),
                        _ => b.build_partial((b.len() + 1).min(b.num_elements())),
                    }
                }
                b.build_partial((b.num_elements() + b.len() + 1) / 2);
                built_trip(&b, &[p(0, 0), p(2, 2)], &dir, true)?;
                let s = snap(&b);
                if s.iter().flatten().any(|l| !l.is_empty()) {
                    c.distinct(hash_snap(&s));
                }
                Ok(())
            });
        }
    }
    // all small link structures
    let pts = [p(0, 0), p(5, 1), p(1, 2), p(9, 9)];
    let uppers: Vec<Snap> = {
        let mut v = vec![vec![], vec![vec![vec![]]]];
        for g in 0..4 {
            v.push(vec![digraph(g, 2)]);
            v.push(vec![vec![vec![]], digraph(g, 2)]);
        }
        v
    };
    for n in 1..=3usize {
        for g in 0..1usize << (n * (n - 1)) {
            for (ui, u) in uppers.iter().enumerate() {
                if u.last().map_or(false, |l| l.len() > n) || !mine() {
                    continue;
                }
                c.case(|| format!("digraph {} on {} nodes under upper layers {:?}", g, n, u), |c| {
                    let mut s = u.clone();
                    s.push(digraph(g, n));
                    let bytes = encode_snap(&s);
                    let els = Pts(pts[..n].to_vec());
                    let gr = Granne::from_bytes(&bytes, els.clone());
                    let a = answers(&gr, &pts);
                    trip(&gr, &s, &a, &els, &pts, &dir, ui > 3, false)?;
                    let b = GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(2 + ui), &bytes, els.clone());
                    trip(&b, &s, &a, &els, &pts, &dir, true, true)?;
                    c.distinct(hash_snap(&s));
                    Ok(())
                });
            }
        }
    }
    // sizes around the storage blocks
    let mut ns: Vec<usize> = (1..=190).collect();
    ns.extend([239, 240, 241, 299, 300, 301, 599, 600, 601, 1200, 1259, 1260, 1261]);
    for &n in &ns {
        for pat in 0..4 {
            if !mine() {
                continue;
            }
            c.case(|| format!("last layer of {} nodes, link pattern {}", n, pat), |c| {
                let layer = |m: usize| -> Graph {
                    (0..m)
                        .map(|i| {
                            let mut l: Vec<usize> = match pat {
                                0 => vec![],
                                1 => vec![(i + 1) % m],
                                2 => (0..i % 20).map(|k| (i * 7 + k * 13) % m).collect(),
                                _ => (0..(n - i).min(254)).map(|k| (i + k) % m).collect(),
                            };
                            l.retain(|&x| x != i);
                            l.sort_unstable();
                            l.dedup();
                            l
                        })
                        .collect()
                };
                let mut sizes = vec![n];
                if n % 4 > 0 {
                    sizes.insert(0, n.min(60 + n % 3));
                }
                if n % 4 > 1 {
                    sizes.insert(0, n.min(59));
                }
                if n % 4 > 2 {
                    sizes.insert(0, 1);
                }
                let s: Snap = sizes.iter().map(|&m| layer(m)).collect();
                let bytes = encode_snap(&s);
                let els = Pts(pattern(6, n));
                let gr = Granne::from_bytes(&bytes, els.clone());
                let qs = [p(0, 0), p(50, 50)];
                let a = answers(&gr, &qs);
                let b = GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(254), &bytes, els.clone());
                let out = trip(&b, &s, &a, &els, &qs, &dir, n % 10 != 0, true)?;
                let loaded = Granne::from_bytes(&out, els.clone());
                trip(&loaded, &s, &a, &els, &qs, &dir, true, true)?;
                c.distinct(hash_snap(&s));
                Ok(())
            });
        }
    }
    // large layers
    for n in [5_999usize, 6_000, 6_001, 9_999, 10_001, 20_003, 65_535, 65_536, 65_537, 70_001, 262_145, 1_048_577] {
        if !mine() {
            continue;
        }
        c.case(|| format!("large last layer of {} nodes", n), |c| {
            let layer = |m: usize| -> Graph {
                (0..m)
                    .map(|i| {
                        let mut l: Vec<usize> = (0..i % 9).map(|k| (i * 7 + k * k * 1009) % m).filter(|&x| x != i).collect();
                        l.sort_unstable();
                        l.dedup();
                        l
                    })
                    .collect()
            };
            let s: Snap = [n / 5_000, n / 8 + 3, n].iter().map(|&m| layer(m)).collect();
            let bytes = encode_snap(&s);
            let els = Pts((0..n).map(|i| p((i % 251) as i16, (i / 251) as i16)).collect());
            let gr = Granne::from_bytes(&bytes, els.clone());
            let qs = [p(0, 0), p(50, 50)];
            let a: Answers = qs.iter().map(|q| gr.search(q, 50, 20)).collect();
            let out = {
                let b = GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(20), &bytes, els.clone());
                if snap(&b) != s {
                    return Err("builder from bytes: other links".into());
                }
                write_index_vec(&b)?
            };
            let f = file_with(&dir, "large", &out);
            let g = unsafe { Granne::from_file(&f, els.clone()) }.map_err(|e| format!("from_file: {}", e))?;
            let copy = unsafe { Granne::from_file(&f, &els) }.map_err(|e| format!("from_file: {}", e))?.to_owned();
            for (g, what) in [(Granne::from_bytes(&out, els.clone()), "saved by a builder"), (copy, "copied from a mapped file"), (g, "from a file")] {
                if sorted(&snap(&g)) != s || g.len() != n || qs.iter().map(|q| g.search(q, 50, 20)).collect::<Answers>() != a {
                    return Err(format!("{}: other links or answers", what));
                }
                if write_index_vec(&g)? != out {
                    return Err(format!("{}: saved as other bytes", what));
                }
            }
            c.distinct(hash_snap(&s));
            Ok(())
        });
    }
    // every list as long as the configuration allows
    for most in [100usize, 253, 254, 255, 256, 300] {
        if !mine() {
            continue;
        }
        c.case(|| format!("{} elements, all linked to each other", most + 1), |c| {
            let n = most + 1;
            let mut b = GranneBuilder::new(BuildConfig::default().num_neighbors(most).max_search(n).layer_multiplier(1000.0), Pts(pattern(6, n)));
            b.build();
            let s = snap(&b);
            if s.last().unwrap().iter().any(|l| l.len() != most) {
                return Err("HARNESS: lists are not full".into());
            }
            let bytes = write_index_vec(&b)?;
            let a = answers(&b.get_index(), &[p(0, 0)]);
            agree(&Granne::from_bytes(&bytes, Pts(pattern(6, n))), &sorted(&s), &a, &[p(0, 0)], "loaded").map_err(|e| e.chars().take(60).collect::<String>())?;
            c.distinct(hash_snap(&s));
            Ok(())
        });
    }
    // many layers
    for (mult, n) in [(1.5f32, 10usize), (1.5, 1000), (1.5, 20_000), (1.25, 100), (1.25, 1000), (1.25, 10_000), (1.1, 20), (1.1, 100), (1.1, 300), (1.05, 30), (1.05, 60), (1.05, 100), (1.05, 200), (1.05, 300), (1.02, 1000)] {
        if !mine() {
            continue;
        }
        c.case(|| format!("{} elements, multiplier {}", n, mult), |c| {
            let mut b = GranneBuilder::new(BuildConfig::default().num_neighbors(3).max_search(3).reinsert_elements(false).layer_multiplier(mult), Pts(pattern(6, n)));
            b.build();
            let s = snap(&b);
            c.max("layers", s.len() as u64);
            let bytes = write_index_vec(&b)?;
            let a = answers(&b.get_index(), &[p(0, 0)]);
            agree(&Granne::from_bytes(&bytes, Pts(pattern(6, n))), &sorted(&s), &a, &[p(0, 0)], "loaded").map_err(|e| e.chars().take(60).collect::<String>())?;
            c.distinct(hash_snap(&s));
            Ok(())
        });
    }
    // the library's element types, bigger builds
    for n in [0usize, 1, 2, 15, 59, 60, 61, 62, 119, 120, 121, 200] {
        for (nn, mult) in [(3usize, 2.0f32), (8, 5.0), (30, 15.0), (2, 60.0)] {
            if !mine() {
                continue;
            }
            c.case(|| format!("{} vectors, {} neighbours, multiplier {}", n, nn, mult), |c| {
                let cfg = BuildConfig::default().num_neighbors(nn).max_search(30).layer_multiplier(mult);
                let v: Vec<Vec<f32>> = (0..n).map(|i| vec![(i as f32 * 0.37).sin(), (i as f32 * 0.11).cos(), ((i % 7) as f32 - 3.0) / 5.0]).collect();
                let qa: Vec<angular::Vector> = [vec![1.0f32, 0.0, 0.0], vec![0.3, -0.4, 0.5]].into_iter().map(angular::Vector::from).collect();
                let qi: Vec<angular_int::Vector> = [vec![1.0f32, 0.0, 0.0], vec![0.3, -0.4, 0.5]].into_iter().map(angular_int::Vector::from).collect();
                let mut b = GranneBuilder::new(cfg, v.iter().map(|x| angular::Vector::from(x.clone())).collect::<angular::Vectors>());
                b.build();
                built_trip(&b, &qa, &dir, false)?;
                c.distinct(hash_snap(&snap(&b)));
                let mut b = GranneBuilder::new(cfg, v.iter().map(|x| angular_int::Vector::from(x.clone())).collect::<angular_int::Vectors>());
                b.build();
                built_trip(&b, &qi, &dir, true)?;
                let mut e = embeddings::SumEmbeddings::new();
                for x in [[1.0f32, 0.0, 0.0], [0.5, 0.5, 0.0], [-0.2, 0.3, 0.9], [0.0, -1.0, 0.4]] {
                    e.push_embedding(&x);
                }
                for i in 0..n {
                    e.push(vec![i % 4, (i / 4) % 4, (i / 16) % 4]);
                }
                let mut b = GranneBuilder::new(cfg, e);
                b.build();
                built_trip(&b, &qa, &dir, true)?;
                let els: Vec<angular::Vector> = v.iter().map(|x| angular::Vector::from(x.clone())).collect();
                let mut b = GranneBuilder::new(cfg, els);
                b.build();
                built_trip(&b, &qa, &dir, true)?;
                Ok(())
            });
        }
    }
    for (k, layers) in [vec![4_400_000], vec![3, 4_400_000, 4_500_000], vec![100_000, 4_600_000, 9_000_000, 9_000_000]].into_iter().enumerate() {
        if c.job == 3 + k * 5 {
            c.case(|| format!("layers of {:?} nodes in a sparse file", layers), |_| crate::fw::with_large_maps(|| huge_index(&layers, &dir)));
        }
    }
}

// ---------------------------------------------------------------------------------------------
// I02

fn wrote<W: Fn(&mut Vec<u8>) -> std::io::Result<usize>>(w: W, what: &str) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    let n = w(&mut v).map_err(|e| format!("{}: {}", what, e))?;
    if n != v.len() {
        return Err(format!("{} reports {} bytes but wrote {}", what, n, v.len()));
    }
    Ok(v)
}

macro_rules! vectors_trip {
    ($name:ident, $m:ident, $t:ty, $eq:expr) => {
        fn $name(data: &[$t], dim: usize, dir: &Scratch, all: bool) -> Res {
            let n = if dim > 0 { data.len() / dim } else { 0 };
            let make = || if dim > 0 { $m::Vectors::from_vec(data.to_vec(), dim) } else { $m::Vectors::new() };
            let v = make();
            let check = |l: &$m::Vectors, what: &str| -> Res {
                if l.len() != n || (n > 0 && l.dim() != dim) {
                    return Err(format!("{}: {} vectors of dimension {} instead of {} of {}", what, l.len(), l.dim(), n, dim));
                }
                if !$eq(l.as_slice(), data) {
                    return Err(format!("{}: other contents", what));
                }
                for i in 0..n {
                    if !$eq(l.get_element(i).as_slice(), &data[i * dim..(i + 1) * dim]) {
                        return Err(format!("{}: vector {} differs", what, i));
                    }
                }
                Ok(())
            };
            check(&v, "original")?;
            let bytes = wrote(|b| v.write(b), "write")?;
            let b = GranneBuilder::new(BuildConfig::default(), make());
            if wrote(|o| b.write_elements(o), "GranneBuilder::write_elements")? != bytes {
                return Err("the builder writes other bytes".into());
            }
            if wrote(|o| b.get_index().to_owned().write_elements(o), "Granne::write_elements")? != bytes {
                return Err("the index writes other bytes".into());
            }
            for al in if all { (0..16).collect() } else { vec![0usize, 5] } {
                let m = Aligned::new(&bytes, al);
                let l = $m::Vectors::from_bytes(m.get());
                check(&l, &format!("from bytes at alignment {}", al))?;
                if wrote(|o| l.write(o), "write after loading")? != bytes {
                    return Err("writing what was loaded gives other bytes".into());
                }
                let o = l.borrow().into_owned();
                check(&o, "owned")?;
            }
            let f = file_with(dir, "v", &bytes);
            let l = unsafe { $m::Vectors::from_file(&f) }.map_err(|e| e.to_string())?;
            check(&l, "from a file")?;
            check(&l.clone(), "clone of a mapped collection")?;
            if wrote(|o| l.write(o), "write from a file")? != bytes {
                return Err("writing what was mapped gives other bytes".into());
            }
            check(&l.into_owned(), "owned copy of a mapped collection")
        }
    };
}
vectors_trip!(angular_trip, angular, f32, floats_eq);
vectors_trip!(int_trip, angular_int, i8, |a: &[i8], b: &[i8]| a == b);

/// Term lists and embeddings through files.
fn sums_trip(emb: &[Vec<f32>], terms: &[Vec<usize>], dir: &Scratch) -> Res {
    let mut e = embeddings::SumEmbeddings::new();
    for v in emb {
        e.push_embedding(v);
    }
    for t in terms {
        e.push(t);
    }
    let check = |l: &embeddings::SumEmbeddings, terms: &[Vec<usize>], what: &str| -> Res {
        if l.len() != terms.len() || l.num_embeddings() != emb.len() {
            return Err(format!("{}: {} elements and {} embeddings instead of {} and {}", what, l.len(), l.num_embeddings(), terms.len(), emb.len()));
        }
        for (i, t) in terms.iter().enumerate() {
            if l.get_terms(i) != *t {
                return Err(format!("{}: terms {:?} instead of {:?}", what, l.get_terms(i), t));
            }
        }
        for (i, v) in emb.iter().enumerate() {
            if !floats_eq(&l.create_embedding(&[i]), v) {
                return Err(format!("{}: embedding {} differs", what, i));
            }
        }
        Ok(())
    };
    check(&e, terms, "original")?;
    let tb = wrote(|o| e.write(o), "write")?;
    let eb = wrote(|o| e.write_embeddings(o), "write_embeddings")?;
    let b = GranneBuilder::new(BuildConfig::default(), e.borrow());
    if wrote(|o| b.write_elements(o), "GranneBuilder::write_elements")? != tb {
        return Err("the builder writes other bytes".into());
    }
    let (tf, ef) = (file_with(dir, "terms", &tb), file_with(dir, "emb", &eb));
    let l = unsafe { embeddings::SumEmbeddings::from_files(&ef, Some(&tf)) }.map_err(|e| e.to_string())?;
    check(&l, terms, "from files")?;
    check(&l.clone(), terms, "clone of mapped")?;
    check(&l.borrow(), terms, "borrow of mapped")?;
    if wrote(|o| l.write(o), "write")? != tb || wrote(|o| l.write_embeddings(o), "write_embeddings")? != eb {
        return Err("writing what was mapped gives other bytes".into());
    }
    let l = unsafe { embeddings::SumEmbeddings::from_files(&ef, None) }.map_err(|e| e.to_string())?;
    check(&l, &[], "embeddings only")
}

fn i02(c: &mut Ctx) {
    let part = c.job;
    let dir = Scratch::new("i02");
    let mut k = 0usize;
    let mut mine = move || {
        k += 1;
        k % 16 == part
    };
    for dim in [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 31, 32, 33, 63, 64, 65, 100, 300] {
        for n in [0usize, 1, 2, 3, 4, 5, 59, 60, 61] {
            if dim == 0 && n > 0 || !mine() {
                continue;
            }
            c.case(|| format!("{} vectors of dimension {}", n, dim), |c| {
                let f: Vec<f32> = (0..n * dim).map(|i| (i as f32 * 1.7 - 3.0) / 7.0).collect();
                angular_trip(&f, dim, &dir, true)?;
                let q: Vec<i8> = (0..n * dim).map(|i| (i * 37 % 256) as u8 as i8).collect();
                int_trip(&q, dim, &dir, true)?;
                if n > 0 {
                    c.distinct((dim * 1000 + n) as u64);
                }
                Ok(())
            });
        }
    }
    // more than any block or chunk in the code
    for n in [99usize, 100, 101, 199, 201, 255, 256, 257, 1000, 4095, 4096, 4097, 9_999, 10_001, 20_003, 65_535, 65_536, 65_537, 70_001, 131_073, 262_145, 524_289, 1_048_575, 1_048_576, 1_048_577] {
        for dim in [1usize, 2, 3, 33] {
            if n * dim > 300_000 && dim > 1 + n % 2 || !mine() {
                continue;
            }
            c.case(|| format!("{} vectors of dimension {}", n, dim), |c| {
                let f: Vec<f32> = (0..n * dim).map(|i| (i as f32 * 1.7 - 3.0) / 7.0).collect();
                angular_trip(&f, dim, &dir, n < 1000)?;
                let q: Vec<i8> = (0..n * dim).map(|i| (i * 37 % 253) as u8 as i8).collect();
                int_trip(&q, dim, &dir, n < 1000)?;
                c.distinct((dim * 1_000_000 + n) as u64 + 5_000_000_000);
                Ok(())
            });
        }
    }
    let fx = [0.0f32, -0.0, 1.0, -1.0, f32::MIN_POSITIVE, 1e-45, f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 0.1];
    let ix = [0i8, 1, -1, 127, -128, -127, 64, 2, -2, 100, -100, 3];
    let len = c.tier.pick(3, 4);
    for x in 0..12usize.pow(len) {
        if !mine() {
            continue;
        }
        let d = digits(x, 12, len as usize);
        c.case(|| format!("scalars {:?} of {:?}", d, fx), |c| {
            let f: Vec<f32> = d.iter().map(|&i| fx[i]).collect();
            let q: Vec<i8> = d.iter().map(|&i| ix[i]).collect();
            angular_trip(&f, 1, &dir, false)?;
            angular_trip(&f, len as usize, &dir, false)?;
            int_trip(&q, 1, &dir, false)?;
            int_trip(&q, len as usize, &dir, false)?;
            c.distinct(1_000_000 + x as u64);
            Ok(())
        });
    }
    if mine() {
        c.case(|| "all byte values".into(), |_| int_trip(&(0..=255u8).map(|b| b as i8).collect::<Vec<_>>(), 16, &dir, true));
    }
    // term lists
    let ids = [0usize, 1, 255, 256, 257, 65_535, 65_536, 65_537, (1 << 23), (1 << 24) - 2, (1 << 24) - 1];
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    for l in 1..=3u32 {
        for x in 0..11usize.pow(l) {
            lists.push(digits(x, 11, l as usize).into_iter().map(|i| ids[i]).collect());
        }
    }
    for (i, t) in lists.iter().enumerate() {
        if !mine() {
            continue;
        }
        c.case(|| format!("terms {:?}", t), |c| {
            let other = &lists[(i * 7 + 3) % lists.len()];
            sums_trip(&[vec![1.0, -2.0], vec![f32::MAX, 1e-45]], &[t.clone()], &dir)?;
            sums_trip(&[], &[t.clone(), vec![], other.clone(), t.clone()], &dir)?;
            c.distinct(hash_str(&format!("{:?}", t)));
            Ok(())
        });
    }
    // long lists and wide vectors
    for len in [4usize, 15, 16, 17, 60, 100, 127, 128, 255, 256, 257, 1000, 9_999, 10_001, 21_845, 21_846, 65_535, 65_536, 70_001, 131_073, 1_048_577] {
        if !mine() {
            continue;
        }
        c.case(|| format!("an element of {} terms, embeddings and vectors of dimension {}", len, len), |c| {
            let t: Vec<usize> = (0..len).map(|j| (j * 7_919 + len) % (1 << 24)).collect();
            let emb: Vec<Vec<f32>> = (0..3).map(|i| (0..len).map(|j| (i * len + j) as f32 * 0.3 - 1.0).collect()).collect();
            sums_trip(&emb, &[t.clone(), vec![3], t.clone(), vec![], t[1..].to_vec()], &dir)?;
            angular_trip(&emb.concat(), len, &dir, len < 1000)?;
            int_trip(&(0..3 * len).map(|i| (i * 37 % 253) as u8 as i8).collect::<Vec<_>>(), len, &dir, len < 1000)?;
            c.distinct(len as u64 + 99_000_000);
            Ok(())
        });
    }
    for n in [0usize, 1, 2, 3, 59, 60, 61, 99, 100, 101, 255, 256, 257, 300, 1000, 9_999, 10_001, 22_000, 65_537, 70_001, 131_073, 1_048_577] {
        for dim in [1usize, 2, 3, 31, 32, 33, 64, 65] {
            if n > 300 && dim > 3 || n > 70_001 && dim > 1 || !mine() {
                continue;
            }
            c.case(|| format!("{} elements, embeddings of dimension {}", n, dim), |c| {
                let emb: Vec<Vec<f32>> = (0..5).map(|i| (0..dim).map(|j| (i * dim + j) as f32 * 0.3 - 1.0).collect()).collect();
                let terms: Vec<Vec<usize>> = (0..n).map(|i| (0..i % 4).map(|j| (i * 3 + j * 7_919) % (1 << 24)).collect()).collect();
                sums_trip(&emb, &terms, &dir)?;
                sums_trip(&[], &terms, &dir)?;
                sums_trip(&emb[..1], &[], &dir)?;
                if n > 0 {
                    c.distinct((n * 100 + dim) as u64 + 77_000_000);
                }
                Ok(())
            });
        }
    }
    // collections that no 32 bit number of bytes, coordinates or terms describes
    for (n, dim) in [((1usize << 30) + (1 << 20), 1usize), ((1 << 31) + 7, 3), (4200, 1 << 18)] {
        if mine() {
            c.case(|| format!("{} float vectors of dimension {} in a sparse file", n, dim), |_| crate::fw::with_large_maps(|| huge_angular(n, dim, &dir)));
        }
    }
    for (n, dim) in [((1usize << 32) - 2, 1usize), ((1 << 31) + 7, 3), (9000, 500_000)] {
        if mine() {
            c.case(|| format!("{} quantized vectors of dimension {} in a sparse file", n, dim), |_| crate::fw::with_large_maps(|| huge_int(n, dim, &dir)));
        }
    }
    if mine() {
        c.case(|| "sums of embeddings in sparse files".into(), |_| crate::fw::with_large_maps(|| huge_sums(&dir)));
    }
}

/// Positions of interest in a file of items of `width` bytes: those around every power of two of bytes from 2^31 on.
fn far(n: usize, width: usize) -> Vec<usize> {
    let mut v = vec![0, 1, n / 2, n - 2, n - 1];
    for k in 31..40 {
        for at in [(1usize << k) / width, 1 << k] {
            for x in [at.wrapping_sub(1), at, at + 1] {
                if x < n {
                    v.push(x);
                }
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}
fn in_bytes<T: Copy>(v: &[T]) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(v)) }.to_vec()
}
macro_rules! huge_vectors {
    ($name:ident, $m:ident, $t:ty) => {
        /// A collection of more than 4 GiB, of which only some elements are not zero.
        fn $name(n: usize, dim: usize, dir: &Scratch) -> Res {
            let ids = far(n, dim * std::mem::size_of::<$t>());
            let values: Vec<Vec<$t>> = (0..ids.len()).map(|k| (0..dim).map(|j| ((k * 7 + j * 3) % 100 + 1) as $t).collect()).collect();
            let small = $m::Vectors::from_vec(values.concat(), dim);
            let all = wrote(|o| small.write(o), "write")?;
            let head = &all[..all.len() - values.len() * dim * std::mem::size_of::<$t>()];
            let at = |i: usize| (head.len() + i * dim * std::mem::size_of::<$t>()) as u64;
            let bytes: Vec<Vec<u8>> = values.iter().map(|v| in_bytes(v)).collect();
            let mut parts: Vec<(u64, &[u8])> = vec![(0, head)];
            parts.extend(ids.iter().zip(&bytes).map(|(&i, b)| (at(i), &b[..])));
            let f = sparse_file(dir, "huge", at(n), &parts);
            let map = Mapped::new(&f);
            let check = |v: &$m::Vectors, what: &str| -> Res {
                if v.len() != n || v.dim() != dim {
                    return Err(format!("{}: {} elements of dimension {}", what, v.len(), v.dim()));
                }
                for (k, &i) in ids.iter().enumerate() {
                    crate::fw::beat();
                    if v.get_element(i).as_slice() != &values[k][..] || v.get(i).as_slice() != &values[k][..] {
                        return Err(format!("{}: element {} is {:?}...", what, i, &v.get_element(i).as_slice()[..dim.min(5)]));
                    }
                    for z in [i.wrapping_sub(1), i + 1] {
                        if z < n && !ids.contains(&z) && v.get_element(z).as_slice().iter().any(|&x| x != 0 as $t) {
                            return Err(format!("{}: element {} is not zero", what, z));
                        }
                    }
                    let k2 = (k + 3) % ids.len();
                    let d = small.dist(k, k2);
                    if v.dist(i, ids[k2]) != d || v.dist_to_element(i, &small.get(k2)) != d || v.dists(i, &[ids[k2]]) != [d] {
                        return Err(format!("{}: distance of elements {} and {}", what, i, ids[k2]));
                    }
                }
                let mut h = Head::new(head.len());
                let w = v.write(&mut h).map_err(|e| e.to_string())?;
                if w as u64 != at(n) || h.len != at(n) || h.bytes != head {
                    return Err(format!("{}: {} bytes written, {} reported, instead of {}", what, h.len, w, at(n)));
                }
                Ok(())
            };
            let v = unsafe { $m::Vectors::from_file(&f) }.map_err(|e| e.to_string())?;
            check(&v, "from file")?;
            check(&v.borrow(), "borrow")?;
            check(&$m::Vectors::from_bytes(map.get()), "from bytes")
        }
    };
}
huge_vectors!(huge_angular, angular, f32);
huge_vectors!(huge_int, angular_int, i8);

/// Embeddings and term lists of more than 4 GiB each.
fn huge_sums(dir: &Scratch) -> Res {
    let (m, dim) = (1usize << 24, 300usize);
    let ids = far(m, dim * 4);
    let value = |k: usize| -> Vec<f32> { (0..dim).map(|j| ((k * 5 + j) % 17) as f32 - 8.0).collect() };
    let mut some = embeddings::SumEmbeddings::new();
    some.push_embedding(&value(0));
    let head = wrote(|o| some.write_embeddings(o), "write_embeddings")?;
    let head = &head[..head.len() - dim * 4];
    let at = |i: usize| (head.len() + i * dim * 4) as u64;
    let bytes: Vec<Vec<u8>> = (0..ids.len()).map(|k| in_bytes(&value(k))).collect();
    let mut parts: Vec<(u64, &[u8])> = vec![(0, head)];
    parts.extend(ids.iter().zip(&bytes).map(|(&i, b)| (at(i), &b[..])));
    let ef = sparse_file(dir, "huge-embeddings", at(m), &parts);

    // 2^32 terms and more: an element of interest has a few terms, any other some thousands
    let n = 1_100_000usize;
    let interesting = |i: usize| i % 4096 < 2 || i + 2 >= n || (1_048_000..1_049_200).contains(&i);
    let terms = |i: usize| -> Vec<usize> { (0..i % 4).map(|k| ids[(i * 31 + k * 7) % ids.len()]).collect() };
    let mut total = 0usize;
    let mut ends: Vec<u8> = vec![0; 5];
    let mut data: Vec<(usize, Vec<u8>)> = vec![];
    for i in 0..n {
        if interesting(i) {
            data.push((total, terms(i).iter().flat_map(|t| t.to_le_bytes()[..3].to_vec()).collect()));
            total += i % 4;
        } else if i == 1_047_999 {
            total = (1 << 32) - 20;
        } else {
            total += 4096 + i % 3;
        }
        ends.extend_from_slice(&total.to_le_bytes()[..5]);
    }
    let count = (n as u64).to_le_bytes();
    let start = (8 + ends.len()) as u64;
    let mut parts: Vec<(u64, &[u8])> = vec![(0, &count), (8, &ends)];
    parts.extend(data.iter().map(|(at, b)| (start + 3 * *at as u64, &b[..])));
    let len = start + 3 * total as u64;
    let tf = sparse_file(dir, "huge-terms", len, &parts);
    let (em, tm) = (Mapped::new(&ef), Mapped::new(&tf));
    let check = |e: &embeddings::SumEmbeddings, what: &str| -> Res {
        if e.len() != n || e.num_embeddings() != m {
            return Err(format!("{}: {} elements, {} embeddings", what, e.len(), e.num_embeddings()));
        }
        for (k, &i) in ids.iter().enumerate() {
            crate::fw::beat();
            if e.create_embedding(&[i]) != value(k) {
                return Err(format!("{}: embedding {} differs", what, i));
            }
        }
        for i in (0..n).filter(|&i| interesting(i)) {
            let t = terms(i);
            if e.get_terms(i) != t {
                return Err(format!("{}: terms of element {}: {:?} instead of {:?}", what, i, e.get_terms(i), t));
            }
            if i % 5 == 0 || i > 1_048_000 {
                crate::fw::beat();
                let mut sum = vec![0.0f32; if t.is_empty() { 0 } else { dim }];
                for x in &t {
                    let v = value(ids.binary_search(x).unwrap());
                    sum.iter_mut().zip(v).for_each(|(s, x)| *s += x);
                }
                let got = e.get_embedding(i);
                if !t.is_empty() && got != sum || got.iter().any(|x| t.is_empty() && *x != 0.0) {
                    return Err(format!("{}: embedding of element {}", what, i));
                }
            }
        }
        let mut h = Head::new(start as usize);
        let w = e.write(&mut h).map_err(|e| e.to_string())?;
        if w as u64 != len || h.len != len || h.bytes[..8] != count || h.bytes[8..] != ends[..] {
            return Err(format!("{}: {} bytes of elements written, {} reported, instead of {}", what, h.len, w, len));
        }
        let mut h = Head::new(head.len());
        let w = e.write_embeddings(&mut h).map_err(|e| e.to_string())?;
        if w as u64 != at(m) || h.len != at(m) || h.bytes != head {
            return Err(format!("{}: {} bytes of embeddings written, {} reported, instead of {}", what, h.len, w, at(m)));
        }
        Ok(())
    };
    let e = unsafe { embeddings::SumEmbeddings::from_files(&ef, Some(&tf)) }.map_err(|e| e.to_string())?;
    check(&e, "from files")?;
    check(&e.borrow(), "borrow")?;
    let _ = (em, tm);
    Ok(())
}

/// Element `i` lies at position `i` of a line.
struct Line(usize);
impl ElementContainer for Line {
    type Element = usize;
    fn get(&self, i: usize) -> usize {
        i
    }
    fn len(&self) -> usize {
        self.0
    }
    fn dist_to_element(&self, i: usize, q: &usize) -> NotNan<f32> {
        NotNan::new(i.abs_diff(*q) as f32).unwrap()
    }
}
/// An index whose layers have the given numbers of nodes of about 1000 bytes each. Only some nodes, linked to each
/// other, are really stored.
fn huge_index(layers: &[usize], dir: &Scratch) -> Res {
    const BYTES: usize = 1000;
    let mut meta_sizes = vec![];
    let mut stored: Vec<(u64, Vec<u8>)> = vec![];
    let mut links: Vec<Vec<(usize, Vec<u32>)>> = vec![];
    let mut pos = 1024u64;
    let mut ids: Vec<usize> = vec![];
    for &n in layers {
        crate::fw::beat();
        // every node of the layer above is one here, since searches continue from there
        for i in far(n, BYTES).into_iter().chain([2, 58, 59, 60, 61, 65_535, 65_536, 65_537]).chain(2_146_000..2_146_004).chain(4_292_000..4_292_004) {
            if i < n {
                ids.push(i);
            }
        }
        ids.sort_unstable();
        ids.dedup();
        let here: Vec<(usize, Vec<u32>)> = ids
            .iter()
            .enumerate()
            .map(|(k, &i)| {
                let m = ids.len();
                let mut l: Vec<u32> = (1..=3 + k % 40).map(|s| ids[(k + s) % m] as u32).chain([ids[(k + m - 1) % m] as u32]).filter(|&x| x != i as u32).collect();
                l.sort_unstable();
                l.dedup();
                (i, l)
            })
            .collect();
        let mut offs = Vec::with_capacity(n + 1);
        let mut total = 0;
        let mut lists = vec![];
        let mut k = 0;
        offs.push(0);
        for i in 0..n {
            if k < here.len() && here[k].0 == i {
                let b = encode_list(&here[k].1);
                lists.push((total, b.clone()));
                total += b.len();
                k += 1;
            } else {
                total += BYTES;
            }
            offs.push(total);
        }
        let o = encode_offsets(&offs);
        let start = pos + 8 + o.len() as u64;
        stored.push((pos, (o.len() as u64).to_le_bytes().to_vec()));
        stored.push((pos + 8, o));
        stored.extend(lists.into_iter().map(|(at, b)| (start + at as u64, b)));
        meta_sizes.push(start + total as u64 - pos);
        pos = start + total as u64;
        links.push(here);
    }
    let meta = serde_json::json!({
        "granne_version": "0.5.2", "version": 2, "num_elements": layers.last().unwrap(), "num_layers": layers.len(),
        "num_neighbors": 20, "layer_counts": layers, "layer_sizes": meta_sizes, "compressed": true,
    });
    let mut head = format!("granne{}", meta).into_bytes();
    head.resize(1024, b' ');
    stored.push((0, head));
    let parts: Vec<(u64, &[u8])> = stored.iter().map(|(a, b)| (*a, &b[..])).collect();
    let f = sparse_file(dir, "huge-index", pos, &parts);
    let map = Mapped::new(&f);
    let check = |g: &Granne<Line>, what: &str| -> Res {
        if g.num_layers() != layers.len() || g.len() != *layers.last().unwrap() {
            return Err(format!("{}: {} layers, {} elements", what, g.num_layers(), g.len()));
        }
        for (l, here) in links.iter().enumerate() {
            if g.layer_len(l) != layers[l] {
                return Err(format!("{}: layer {} has {} nodes", what, l, g.layer_len(l)));
            }
            for (i, nb) in here {
                let mut got = g.get_neighbors(*i, l);
                got.sort_unstable();
                if got != nb.iter().map(|&x| x as usize).collect::<Vec<_>>() {
                    return Err(format!("{}: layer {} node {} has neighbours {:?} instead of {:?}", what, l, i, got, nb));
                }
            }
        }
        let last: Vec<usize> = links.last().unwrap().iter().map(|x| x.0).collect();
        for q in &last {
            crate::fw::beat();
            let mut want: Vec<(usize, f32)> = last.iter().map(|&i| (i, i.abs_diff(*q) as f32)).collect();
            want.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
            let got = g.search(q, 1000, 1000);
            let d = |v: &[(usize, f32)]| v.iter().map(|x| x.1).collect::<Vec<_>>();
            if d(&got) != d(&want) || got.iter().any(|x| x.1 != x.0.abs_diff(*q) as f32) {
                return Err(format!("{}: search for {} gives {:?}...", what, q, &got[..got.len().min(5)]));
            }
        }
        let mut h = Head::new(1024);
        g.write_index(&mut h).map_err(|e| e.to_string())?;
        let m: serde_json::Value = serde_json::from_slice(&h.bytes[6..]).map_err(|e| e.to_string())?;
        if h.len != pos || m["layer_sizes"] != meta["layer_sizes"] || m["layer_counts"] != meta["layer_counts"] {
            return Err(format!("{}: {} bytes written instead of {}, {} instead of {}", what, h.len, pos, m, meta));
        }
        Ok(())
    };
    let n = *layers.last().unwrap();
    check(&unsafe { Granne::from_file(&f, Line(n)) }.map_err(|e| e.to_string())?, "from file")?;
    check(&Granne::from_bytes(map.get(), Line(n)), "from bytes")
}

// ---------------------------------------------------------------------------------------------
// I03

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    /// this operation fails, later ones work
    Once,
    /// this and all later operations fail
    From,
    /// a write accepts nothing
    Zero,
    /// a write is interrupted and works when tried again
    Interrupted,
    /// a write accepts this many bytes at most
    Short(usize),
    Half,
    AllButOne,
    /// no fault
    None,
}
const FAULTS: [Fault; 7] = [Fault::Once, Fault::From, Fault::Zero, Fault::Interrupted, Fault::Short(1), Fault::Half, Fault::AllButOne];

/// A sink that goes wrong at operation `at`.
struct Faulty {
    inner: Cursor<Vec<u8>>,
    ops: usize,
    at: usize,
    fault: Fault,
    every: bool,
    reached: bool,
    errors: usize,
    log: Vec<&'static str>,
}
impl Faulty {
    fn new(fault: Fault, at: usize) -> Self {
        Faulty { inner: Cursor::new(vec![]), ops: 0, at, fault, every: false, reached: false, errors: 0, log: vec![] }
    }
    fn hit(&mut self, what: &'static str) -> bool {
        let k = self.ops;
        self.ops += 1;
        self.log.push(what);
        let h = k == self.at || self.fault == Fault::From && k >= self.at || self.every && k >= self.at;
        self.reached |= h;
        h
    }
    fn err<T>(&mut self) -> std::io::Result<T> {
        self.errors += 1;
        Err(std::io::Error::new(std::io::ErrorKind::Other, "injected"))
    }
}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.hit("write") {
            match self.fault {
                Fault::Once | Fault::From => return self.err(),
                Fault::Zero => {
                    self.errors += 1;
                    return Ok(0);
                }
                Fault::Interrupted => {
                    // interrupt only once in a row
                    if !self.every || self.ops % 2 == 0 {
                        return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted"));
                    }
                }
                Fault::Short(n) => return self.inner.write(&b[..n.min(b.len())]),
                Fault::Half => return self.inner.write(&b[..(b.len() + 1) / 2]),
                Fault::AllButOne => return self.inner.write(&b[..(b.len() - 1).max(1)]),
                Fault::None => {}
            }
        }
        self.inner.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.hit("flush") && matches!(self.fault, Fault::Once | Fault::From) {
            return self.err();
        }
        Ok(())
    }
}
impl Seek for Faulty {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        if self.hit("seek") && matches!(self.fault, Fault::Once | Fault::From) {
            return self.err();
        }
        self.inner.seek(p)
    }
}

/// One way to save: writes to the sink and tells whether it succeeded.
type Saver = Box<dyn Fn(&mut Faulty) -> std::io::Result<()>>;
fn savers() -> Vec<(String, Saver)> {
    let mut v: Vec<(String, Saver)> = vec![];
    let build = |n: usize, nn: usize, mult: f32| {
        let mut b = GranneBuilder::new(BuildConfig::default().num_neighbors(nn).layer_multiplier(mult).max_search(20), Pts(pattern(6, n)));
        b.build();
        b
    };
    for (n, nn, mult) in [(0usize, 3usize, 2.0f32), (1, 3, 2.0), (5, 2, 2.0), (9, 4, 15.0), (70, 5, 4.0), (130, 30, 10.0), (700, 30, 15.0)] {
        v.push((format!("index of {} built elements, {} neighbours, multiplier {}", n, nn, mult), {
            let b = build(n, nn, mult);
            Box::new(move |s| b.write_index(s))
        }));
        v.push((format!("loaded index of {} elements, {} neighbours, multiplier {}", n, nn, mult), {
            let bytes: &'static [u8] = Box::leak(write_index_vec(&build(n, nn, mult)).unwrap().into_boxed_slice());
            Box::new(move |s| Granne::from_bytes(bytes, Pts::default()).write_index(s))
        }));
    }
    for n in [0usize, 1, 3, 2500] {
        let f: angular::Vectors = (0..n).map(|i| angular::Vector::from(vec![i as f32, 1.0, 2.0])).collect();
        v.push((format!("{} vectors", n), {
            let f = f.clone();
            Box::new(move |s| f.write(s).map(|_| ()))
        }));
        v.push((format!("{} vectors of a builder", n), {
            let b = GranneBuilder::new(BuildConfig::default(), f.clone());
            Box::new(move |s| b.write_elements(s).map(|_| ()))
        }));
        v.push((format!("{} vectors of an index", n), {
            let g = GranneBuilder::new(BuildConfig::default(), f).get_index().to_owned();
            Box::new(move |s| g.write_elements(s).map(|_| ()))
        }));
        let q: angular_int::Vectors = (0..n).map(|i| angular_int::Vector::from(vec![i as f32, 1.0, 2.0])).collect();
        v.push((format!("{} quantized vectors", n), Box::new(move |s| q.write(s).map(|_| ()))));
        let mut e = embeddings::SumEmbeddings::new();
        for i in 0..n {
            e.push_embedding(&[i as f32, 1.0]);
            e.push(vec![i, i / 2]);
        }
        let e2 = e.clone();
        v.push((format!("{} sums of embeddings", n), Box::new(move |s| e.write(s).map(|_| ()))));
        v.push((format!("{} embeddings", n), Box::new(move |s| e2.write_embeddings(s).map(|_| ()))));
    }
    for (n, nn) in [(0usize, 3usize), (1, 3), (4, 2), (40, 5), (300, 30)] {
        let make = move || {
            let b = GranneBuilder::new(BuildConfig::default().num_neighbors(nn).layer_multiplier(3.0).reinsert_elements(false), Pts::default());
            let rw = RwGranneBuilder::new(b, 1000, 1);
            rw.insert_batch(pattern(6, n));
            rw
        };
        v.push((format!("index of a concurrent builder with {} elements", n), {
            let rw = make();
            Box::new(move |s| rw.write(s, std::io::sink()))
        }));
        v.push((format!("elements of a concurrent builder with {} elements", n), {
            let rw = make();
            Box::new(move |s| rw.write(Cursor::new(vec![]), s))
        }));
    }
    // more elements than fit in any buffer
    v.push(("many elements of a concurrent builder".into(), {
        let cfg = BuildConfig::default().num_neighbors(2).max_search(2).reinsert_elements(false);
        let rw = RwGranneBuilder::new(GranneBuilder::new(cfg, Pts(pattern(6, 5000))), 5000, 1);
        Box::new(move |s| rw.write(Cursor::new(vec![]), s))
    }));
    v.push(("many vectors of a concurrent builder".into(), {
        let cfg = BuildConfig::default().num_neighbors(2).max_search(2).reinsert_elements(false);
        let f: angular::Vectors = (0..2500).map(|i| angular::Vector::from(vec![(i as f32).sin(), 1.0, 2.0])).collect();
        let rw = RwGranneBuilder::new(GranneBuilder::new(cfg, f), 2500, 1);
        Box::new(move |s| rw.write(Cursor::new(vec![]), s))
    }));
    v
}

fn i03(c: &mut Ctx) {
    let part = c.job;
    let sv = savers();
    let mut k = 0usize;
    let mut mine = move || {
        k += 1;
        k % 32 == part
    };
    for (name, save) in &sv {
        let mut good = Faulty::new(Fault::None, usize::MAX);
        if let Err(e) = save(&mut good) {
            c.case(|| format!("{}: no fault", name), |_| Err(format!("fails: {}", e)));
            continue;
        }
        let (ops, want) = (good.ops, good.inner.into_inner());
        let log = good.log;
        c.max("sink_operations", ops as u64);
        // positions: all if few, otherwise the first and last 200 and every 7th between
        let at: Vec<usize> = (0..ops + 2).filter(|&i| ops < 3000 || i < 200 || i + 200 > ops || i % 7 == 0).collect();
        for fault in FAULTS {
            for &at in &at {
                if !mine() {
                    continue;
                }
                c.case(
                    || format!("{}: {:?} at operation {} ({}) of {}", name, fault, at, log.get(at).unwrap_or(&"beyond the last"), ops),
                    |c| {
                        let mut s = Faulty::new(fault, at);
                        let r = guard(|| save(&mut s)).map_err(|e| format!("the save panics: {}", e))?;
                        let got = s.inner.into_inner();
                        match r {
                            Ok(()) if s.errors > 0 => Err(format!("the save reports success although operation {} failed{}", at, if got == want { "" } else { " and the file is incomplete" })),
                            Ok(()) if got != want => Err(format!("the save reports success but stored {} bytes that differ from the {} of a complete file", got.len(), want.len())),
                            Err(e) if s.errors == 0 => Err(format!("the save fails without a failing operation: {}", e)),
                            _ => {
                                if s.reached {
                                    c.nontrivial();
                                }
                                Ok(())
                            }
                        }
                    },
                );
            }
        }
        // every operation from some point on
        for fault in [Fault::Short(1), Fault::Short(3), Fault::Half, Fault::AllButOne, Fault::Interrupted] {
            for at in [0usize, 1, 2, 3] {
                if !mine() {
                    continue;
                }
                c.case(|| format!("{}: {:?} from operation {} on", name, fault, at), |c| {
                    let mut s = Faulty::new(fault, at);
                    s.every = true;
                    let r = guard(|| save(&mut s)).map_err(|e| format!("the save panics: {}", e))?;
                    if let Err(e) = r {
                        return Err(format!("the save fails: {}", e));
                    }
                    if s.inner.into_inner() != want {
                        return Err("the stored bytes differ".into());
                    }
                    c.nontrivial();
                    Ok(())
                });
            }
        }
    }
    // path based savers against every file size limit
    super::corpus::limits(c, part);
}

// ---------------------------------------------------------------------------------------------
// I04

/// Records what reaches the sink.
#[derive(Default)]
struct Recorder {
    pos: u64,
    len: u64,
    writes: Vec<(u64, Vec<u8>)>,
}
impl Write for Recorder {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.writes.push((self.pos, b.to_vec()));
        self.pos += b.len() as u64;
        self.len = self.len.max(self.pos);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Recorder {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.pos = match p {
            SeekFrom::Start(x) => x,
            SeekFrom::Current(d) => (self.pos as i64 + d) as u64,
            SeekFrom::End(d) => (self.len as i64 + d) as u64,
        };
        Ok(self.pos)
    }
}

/// A copy of `bytes` that ends where readable memory ends.
fn fenced(bytes: &[u8]) -> &'static [u8] {
    const ROOM: usize = 1 << 20;
    thread_local!(static FENCE: usize = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), ROOM + (1 << 16), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        if p == libc::MAP_FAILED || libc::mprotect((p as usize + ROOM) as *mut _, 1 << 16, libc::PROT_NONE) != 0 {
            panic!("HARNESS: no guarded memory");
        }
        p as usize + ROOM
    });
    assert!(bytes.len() <= ROOM, "HARNESS: image too large");
    // valid until the next call on this thread
    FENCE.with(|end| unsafe {
        let at = (end - bytes.len()) as *mut u8;
        std::ptr::copy_nonoverlapping(bytes.as_ptr(), at, bytes.len());
        std::slice::from_raw_parts(at, bytes.len())
    })
}

/// Loads an image and, if it loads, compares everything with the complete index.
fn image(bytes: &[u8], s: &Snap, els: &Pts, a: &Answers, qs: &[P], dir: Option<&Scratch>) -> Result<bool, String> {
    // an access beyond the end of the image ends the process
    let bytes = fenced(bytes);
    let verify = |g: &Granne<Pts>| -> Result<bool, String> {
        match guard(|| (g.len(), g.num_layers())) {
            Ok((n, l)) if (n, l) != (s.last().map_or(0, |l| l.len()), s.len()) => return Err(format!("loads with {} elements in {} layers", n, l)),
            Ok(_) => {}
            // refused as soon as the layers are looked at
            Err(_) => return Ok(false),
        }
        for (l, layer) in s.iter().enumerate() {
            match guard(|| g.layer_len(l)) {
                Ok(n) if n != layer.len() => return Err(format!("loads with {} nodes in layer {}", n, l)),
                Ok(_) => {}
                Err(e) => return Err(format!("loads, but the length of layer {} cannot be read: {}", l, e)),
            }
            for (i, want) in layer.iter().enumerate() {
                match guard(|| g.get_neighbors(i, l)) {
                    Ok(mut x) => {
                        x.sort_unstable();
                        if x != *want {
                            return Err(format!("loads, but layer {} node {} has neighbours {:?} instead of {:?}", l, i, x, want));
                        }
                    }
                    Err(e) => return Err(format!("loads, but the neighbours of node {} in layer {} cannot be read: {}", i, l, e)),
                }
            }
        }
        match guard(|| answers(g, qs)) {
            Ok(x) if x != *a => Err("loads, but a search gives another answer".into()),
            Ok(_) => Ok(true),
            Err(e) => Err(format!("loads, but cannot be searched: {}", e)),
        }
    };
    let loaded = match guard(|| Granne::from_bytes(bytes, els.clone())) {
        Ok(g) => verify(&g)?,
        Err(_) => false,
    };
    let builder = match guard(|| GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(254), bytes, els.clone())) {
        Ok(b) => verify(&b.get_index().to_owned())?,
        Err(_) => false,
    };
    if builder != loaded {
        return Err(format!("as an index the image is {}, for a builder it is {}", if loaded { "complete" } else { "refused" }, if builder { "complete" } else { "refused" }));
    }
    if let Some(d) = dir {
        let f = file_with(d, "img", bytes);
        let mapped = match guard(|| unsafe { Granne::from_file(&f, els.clone()) }) {
            Ok(Ok(g)) => verify(&g)?,
            _ => false,
        };
        if mapped != loaded {
            return Err(format!("from bytes the image is {}, from a file {}", if loaded { "complete" } else { "refused" }, if mapped { "complete" } else { "refused" }));
        }
    }
    Ok(loaded)
}

fn i04(c: &mut Ctx) {
    let part = c.job;
    let dir = Scratch::new("i04");
    let mut k = 0usize;
    let mut mine = move || {
        k += 1;
        k % 24 == part
    };
    let qs = [p(0, 0), p(40, 40)];
    for (n, nn, mult) in [(0usize, 3usize, 2.0f32), (1, 3, 2.0), (2, 1, 15.0), (3, 2, 2.0), (6, 2, 2.0), (5, 8, 15.0), (12, 3, 3.0), (20, 5, 2.5), (61, 4, 15.0), (130, 6, 12.0), (1500, 10, 15.0), (4000, 9, 16.0)] {
        let els = Pts(pattern(6, n));
        let mut b = GranneBuilder::new(BuildConfig::default().num_neighbors(nn).layer_multiplier(mult).max_search(20), els.clone());
        b.build();
        let s = sorted(&snap(&b));
        let a = answers(&b.get_index(), &qs);
        let complete = write_index_vec(&b).unwrap();
        let records: Vec<(&str, Recorder)> = {
            let mut r1 = Recorder::default();
            b.write_index(&mut r1).unwrap();
            let mut r2 = Recorder::default();
            Granne::from_bytes(&complete, els.clone()).write_index(&mut r2).unwrap();
            // a sink that cuts writes into pieces
            let mut r3 = Recorder::default();
            struct Cut<'a>(&'a mut Recorder);
            impl Write for Cut<'_> {
                fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                    self.0.write(&b[..b.len().min(7)])
                }
                fn flush(&mut self) -> std::io::Result<()> {
                    Ok(())
                }
            }
            impl Seek for Cut<'_> {
                fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
                    self.0.seek(p)
                }
            }
            b.write_index(&mut Cut(&mut r3)).unwrap();
            vec![("builder", r1), ("loaded index", r2), ("builder, short writes", r3)]
        };
        for (what, r) in &records {
            if !mine() {
                continue;
            }
            c.case(|| format!("{} elements, {} neighbours, multiplier {}, saved by a {}: every crash point", n, nn, mult, what), |c| {
                let mut img: Vec<u8> = vec![];
                let total: usize = r.writes.iter().map(|w| w.1.len()).sum();
                let mut done = 0;
                let mut seen_ok = false;
                let step = if c.tier.thorough() { 1 } else { 1 + total / 6000 };
                for (op, (pos, data)) in r.writes.iter().enumerate() {
                    for cut in 0..=data.len() {
                        // the image after `cut` bytes of this write
                        if cut > 0 {
                            let at = *pos as usize + cut - 1;
                            if img.len() <= at {
                                img.resize(at + 1, 0);
                            }
                            img[at] = data[cut - 1];
                            done += 1;
                        }
                        if cut % step != 0 && cut != data.len() {
                            continue;
                        }
                        let full = done == total;
                        let ok = image(&img, &s, &els, &a, &qs, if cut % 16 == 0 || full { Some(&dir) } else { None })
                            .map_err(|e| format!("crash after {} bytes of write {} ({} of {} bytes): {}", cut, op, done, total, e))?;
                        if full && !ok {
                            return Err("the complete image is refused".into());
                        }
                        if ok && !seen_ok {
                            seen_ok = true;
                            // only padding may be missing
                            if done < total && complete[img.len().min(complete.len())..].iter().any(|&b| b != b' ') {
                                return Err(format!("the image after {} of {} bytes counts as complete", done, total));
                            }
                        }
                        c.distinct(img.iter().fold(n as u64, |h, &b| (h ^ b as u64).wrapping_mul(0x100000001b3)));
                        c.count("images", 1);
                    }
                }
                if img != complete {
                    return Err("the recorded writes do not add up to the file".into());
                }
                Ok(())
            });
        }
        if mine() {
            c.case(|| format!("{} elements, {} neighbours, multiplier {}: every truncation", n, nn, mult), |c| {
                let step = if c.tier.thorough() { 1 } else { 1 + complete.len() / 6000 };
                for len in (0..=complete.len()).rev() {
                    if len % step != 0 && len + 200 < complete.len() && len > 1100 {
                        continue;
                    }
                    let ok = image(&complete[..len], &s, &els, &a, &qs, if len % 16 == 0 { Some(&dir) } else { None }).map_err(|e| format!("truncated to {} of {} bytes: {}", len, complete.len(), e))?;
                    if ok && complete[len..].iter().any(|&b| b != b' ') {
                        return Err(format!("truncated to {} of {} bytes, the file counts as complete", len, complete.len()));
                    }
                    c.count("images", 1);
                    c.distinct((len as u64) << 32 | n as u64);
                }
                Ok(())
            });
        }
    }
    // the concurrent builder
    for n in [0usize, 1, 2, 7, 40] {
        if !mine() {
            continue;
        }
        c.case(|| format!("concurrent builder with {} elements: every crash point", n), |c| {
            let els = Pts(pattern(6, n));
            let rw = RwGranneBuilder::new(GranneBuilder::new(BuildConfig::default().num_neighbors(4).layer_multiplier(3.0).reinsert_elements(false), Pts::default()), 60, 1);
            rw.insert_batch(els.0.clone());
            let mut full = Cursor::new(vec![]);
            rw.write(&mut full, std::io::sink()).map_err(|e| e.to_string())?;
            let complete = full.into_inner();
            let g = Granne::from_bytes(&complete, els.clone());
            let (s, a) = (snap(&g), answers(&g, &qs));
            let mut r = Recorder::default();
            rw.write(&mut r, std::io::sink()).map_err(|e| e.to_string())?;
            let mut img: Vec<u8> = vec![];
            for (op, (pos, data)) in r.writes.iter().enumerate() {
                for (j, &b) in data.iter().enumerate() {
                    let at = *pos as usize + j;
                    if img.len() <= at {
                        img.resize(at + 1, 0);
                    }
                    img[at] = b;
                    let last = op + 1 == r.writes.len() && j + 1 == data.len();
                    let ok = image(&img, &s, &els, &a, &qs, if j % 16 == 0 { Some(&dir) } else { None }).map_err(|e| format!("crash after {} bytes of write {}: {}", j + 1, op, e))?;
                    if last && !ok {
                        return Err("the complete image is refused".into());
                    }
                    c.count("images", 1);
                }
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------------------------------------
// I05

/// Sizes at which a growing index is built, and the expected number of elements.
fn growths(thorough: bool) -> Vec<(Vec<usize>, usize)> {
    let top = if thorough { 17 } else { 12 };
    let mut v = vec![];
    for a in 0..=top {
        for b in a..=top {
            for m in 0..=top + 2 {
                v.push((vec![a, b, top], m));
            }
        }
    }
    let m = if thorough { 400 } else { 130 };
    for e in [1, 2, 16, 59, 60, 61, m - 1, m, m + 1, 10 * m] {
        v.push(((1..=m).step_by(7).chain(Some(m)).collect(), e));
        v.push((vec![m / 4, m / 3, m], e));
        v.push((vec![1, m - 1, m], e));
        v.push((vec![60, 61, m], e));
    }
    v
}

fn i05(c: &mut Ctx) {
    let part = c.job;
    let dir = Scratch::new("i05");
    let mut k = 0usize;
    let mut mine = move || {
        k += 1;
        k % 16 == part
    };
    let top = c.tier.pick(14usize, 26);
    let mut sizes: Vec<usize> = (1..=top).collect();
    // around the constants of the file format
    sizes.extend([59, 60, 61, 119, 120, 256, 257, 1000]);
    if c.tier.thorough() {
        sizes.extend([58, 62, 121, 179, 180, 181, 255, 3000, 10_001]);
    }
    for n in sizes {
        for pat in 0..super::build::PATTERNS {
            for (nn, mult) in if n < 300 { vec![(1usize, 2.0f32), (4, 2.0), (6, 3.0), (30, 15.0)] } else { vec![(4, 15.0), (30, 5.0)] } {
                for re in [false, true] {
                    if n > 26 && pat % 3 != (n + nn) % 3 {
                        continue;
                    }
                    if !mine() {
                        continue;
                    }
                    c.case(|| format!("{} elements in pattern {}, {} neighbours, multiplier {}, reinsert {}", n, pat, nn, mult, re), |c| {
                        let els = Pts(pattern(pat, n));
                        let qs = [p(0, 0), p(7, 3)];
                        let cfg = |nn: usize| BuildConfig::default().num_neighbors(nn).max_search(12).layer_multiplier(mult).reinsert_elements(re);
                        let firsts: Vec<usize> = match n {
                            0..=26 => (0..=n).collect(),
                            27..=299 => vec![1, 7, 58, 59, 60, 61, 119, 120, 121, n / 2, n - 1, n],
                            _ => vec![1, 60, n / 3, n / 2, n - 1, n],
                        };
                        for first in firsts.into_iter().filter(|&k| k <= n) {
                            crate::fw::beat();
                            let mut b = GranneBuilder::new(cfg(nn), els.clone());
                            b.build_partial(first);
                            let stored = sorted(&snap(&b));
                            let bytes = write_index_vec(&b)?;
                            let f = file_with(&dir, "part", &bytes);
                            let want = {
                                let g = b.get_index();
                                answers(&g, &qs)
                            };
                            for limit in [1usize, nn.saturating_sub(1).max(1), nn, nn + 1, 2 * nn + 3] {
                                let load = |file: bool| {
                                    if file {
                                        GranneBuilder::from_file(cfg(limit), &f, els.clone()).map_err(|e| e.to_string())
                                    } else {
                                        Ok(GranneBuilder::from_bytes(cfg(limit), Aligned::new(&bytes, first % 16).get(), els.clone()))
                                    }
                                };
                                let e = |m: String| format!("saved with {} elements, resumed with limit {}: {}", first, limit, m);
                                let mut r = load(first % 2 == 0)?;
                                let got = sorted(&snap(&r));
                                if r.len() != first || r.num_elements() != n || r.get_elements() != &els {
                                    return Err(e(format!("{} of {} elements", r.len(), r.num_elements())));
                                }
                                if limit >= nn {
                                    if got != stored {
                                        return Err(e(format!("links {:?} instead of {:?}", got, stored)));
                                    }
                                    if answers(&r.get_index(), &qs) != want {
                                        return Err(e("a search gives another answer".into()));
                                    }
                                } else {
                                    wellformed(&got, limit).map_err(e)?;
                                    for (l, layer) in stored.iter().enumerate() {
                                        for (i, x) in layer.iter().enumerate() {
                                            let y = &got[l][i];
                                            if y.len() != x.len().min(limit) || y.iter().any(|z| !x.contains(z)) {
                                                return Err(e(format!("layer {} node {} has {:?}, stored were {:?}", l, i, y, x)));
                                            }
                                        }
                                    }
                                }
                                // continue, in one or two steps, the second again from a save
                                for second in [n, (first + n) / 2] {
                                    if second < n {
                                        r = load(first % 2 == 1)?;
                                        r.build_partial(second);
                                        let bytes2 = write_index_vec(&r)?;
                                        r = GranneBuilder::from_bytes(cfg(limit), &bytes2, els.clone());
                                        if r.len() != second {
                                            return Err(e(format!("{} elements after continuing to {}", r.len(), second)));
                                        }
                                    }
                                    r.build();
                                    let s = snap(&r);
                                    wellformed(&s, limit).map_err(e)?;
                                    if r.get_elements() != &els || r.len() != n {
                                        return Err(e("elements changed".into()));
                                    }
                                    check_sizes(&s.iter().map(|l| l.len()).collect::<Vec<_>>(), n, mult).map_err(e)?;
                                    if s.iter().flatten().any(|l| !l.is_empty()) {
                                        c.distinct(hash_snap(&s));
                                    }
                                    c.count("resumed_builds", 1);
                                }
                                // small indexes stay exact when nothing was cut
                                if limit >= nn && n - 1 <= nn / 4 && n <= 12 {
                                    super::build::exact_search(&r, &r.get_index(), &|i| !els.0[i].dead, &els.0).map_err(e)?;
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // growing towards (or past) an announced number of elements, with a save and a resumed build after every step
    for (k, (steps, expected)) in growths(c.tier.thorough()).into_iter().enumerate() {
        if k % 16 != part {
            continue;
        }
        c.case(|| format!("builds of {:?} elements, {} expected", steps, expected), |c| {
            let all = pattern(k % super::build::PATTERNS, *steps.last().unwrap());
            for (nn, mult) in [(1usize, 2.0f32), (5, 3.0), (6, 15.0), (4, 1.5)] {
                for re in [false, true] {
                    crate::fw::beat();
                    let cfg = BuildConfig::default().num_neighbors(nn).max_search(10).layer_multiplier(mult).reinsert_elements(re).expected_num_elements(expected);
                    let mut whole = GranneBuilder::new(cfg, Pts(vec![]));
                    let mut r = GranneBuilder::new(cfg, Pts(vec![]));
                    let mut had = 0;
                    for (step, &n) in steps.iter().enumerate() {
                        for x in &all[had..n] {
                            whole.push(*x);
                            r.push(*x);
                        }
                        had = n;
                        whole.build();
                        r.build();
                        let want: Vec<usize> = (0..whole.num_layers()).map(|l| whole.layer_len(l)).collect();
                        let got: Vec<usize> = (0..r.num_layers()).map(|l| r.layer_len(l)).collect();
                        if got != want {
                            return Err(format!("limit {}, multiplier {}, reinsert {}: layers {:?} after build {}, without saves {:?}", nn, mult, re, got, step, want));
                        }
                        let s = snap(&r);
                        wellformed(&s, nn)?;
                        if s.iter().flatten().any(|l| !l.is_empty()) {
                            c.distinct(hash_snap(&s));
                        }
                        let bytes = write_index_vec(&r)?;
                        let els = Pts(all[..n].to_vec());
                        let stored = sorted(&s);
                        r = if step % 2 == 0 {
                            GranneBuilder::from_bytes(cfg, Aligned::new(&bytes, step % 16).get(), els)
                        } else {
                            GranneBuilder::from_file(cfg, &file_with(&dir, "grown", &bytes), els).map_err(|e| e.to_string())?
                        };
                        if sorted(&snap(&r)) != stored || r.num_elements() != n {
                            return Err(format!("limit {}, multiplier {}, reinsert {}: save {} is read back differently", nn, mult, re, step));
                        }
                        c.count("resumed_builds", 1);
                    }
                }
            }
            Ok(())
        });
    }
}
