//! R01, R02: reordering.
use super::build::pattern;
use super::Check;
use crate::fw::{guard, Ctx, Res, Tier};
use crate::util::*;
use granne::embeddings::{compute_keys_for_reordering, SumEmbeddings};
use granne::*;
use ordered_float::NotNan;
use std::cmp::Ordering;
use std::collections::BTreeSet;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            name: "R01",
            level: "exploration",
            rule: "a case is one index (every layered digraph up to the bound with every placement of its elements, or one built) reordered twice, each time compared with the original; \
                   distinct non-trivial cases are distinct pairs of index and non-identical order",
            bound: |t| format!("all layered digraphs {:?} x all placements of the elements on a line, compressed and fixed-width; indexes of 0 to {} elements with up to 12 layers and of up to {} elements around the chunk size", shapes(t), t.pick(1100, 5000), t.pick(1_048_577, 4_000_401)),
            assumptions: &["worker tasks run one after the other, in both orders (they share nothing)"],
            jobs: |_| 16,
            run: only!("R01", r01),
        },
        Check {
            name: "R02",
            level: "exploration",
            rule: "a case is one index and one key vector (all key vectors over four values up to the bound), reordered by the keys and compared with the original, or one list of term lists whose keys are compared pairwise; \
                   distinct non-trivial cases are distinct pairs of index and non-identical order, and distinct term lists",
            bound: |t| format!("all layered digraphs {:?} x all key vectors over four values (three for four elements); indexes of up to {} elements; keys for all pairs of term lists of up to {} terms over 6 embeddings and of up to 300 terms over up to 2^24 embeddings", shapes(t), t.pick(1_048_577, 4_000_401), t.pick(3, 4)),
            assumptions: &["worker tasks run one after the other, in both orders (they share nothing)"],
            jobs: |_| 16,
            run: only!("R02", r02),
        },
    ]
}

fn shapes(t: Tier) -> Vec<Vec<usize>> {
    let mut v = vec![vec![1], vec![2], vec![3], vec![1, 1], vec![1, 2], vec![2, 2], vec![1, 3], vec![2, 3], vec![1, 2, 3], vec![1, 1, 1], vec![2, 2, 3], vec![3, 3], vec![4], vec![1, 4]];
    if t.thorough() {
        v.push(vec![2, 4]);
        v.push(vec![1, 2, 4]);
        v.push(vec![3, 4]);
    }
    v
}

/// Points on a line that remember who they are.
#[derive(Clone, Debug, PartialEq)]
struct Line(Vec<(u32, f32)>);
impl ElementContainer for Line {
    type Element = f32;
    fn get(&self, i: usize) -> f32 {
        self.0[i].1
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn dist_to_element(&self, i: usize, e: &f32) -> NotNan<f32> {
        nn((self.0[i].1 - e).abs())
    }
}
impl Permutable for Line {
    fn permute(&mut self, perm: &[usize]) {
        assert_eq!(perm.len(), self.0.len());
        self.0 = perm.iter().map(|&j| self.0[j]).collect();
    }
}

/// Checks the permutation and the structure of the index reordered from `old`.
fn structure(order: &[usize], old: &Snap, new: &Snap) -> Res {
    let n = old.last().map_or(0, |l| l.len());
    if order.len() != n || order.iter().collect::<BTreeSet<_>>().len() != n || order.iter().any(|&j| j >= n) {
        return Err(format!("not a permutation of {} positions: {:?}", n, &order[..order.len().min(40)]));
    }
    if new.len() != old.len() || new.iter().zip(old).any(|(a, b)| a.len() != b.len()) {
        return Err(format!("layer sizes {:?} became {:?}", old.iter().map(|l| l.len()).collect::<Vec<_>>(), new.iter().map(|l| l.len()).collect::<Vec<_>>()));
    }
    let mut inv = vec![0; n];
    for (i, &j) in order.iter().enumerate() {
        inv[j] = i;
    }
    for (l, layer) in old.iter().enumerate() {
        if let Some(i) = (0..layer.len()).find(|&i| order[i] >= layer.len()) {
            return Err(format!("position {} of layer {} ({} nodes) holds {}", i, l, layer.len(), order[i]));
        }
        for i in 0..layer.len() {
            let mut want: Vec<usize> = layer[order[i]].iter().map(|&j| inv[j]).collect();
            let mut got = new[l][i].clone();
            want.sort_unstable();
            got.sort_unstable();
            if want != got {
                return Err(format!("layer {}: {} (was {}) links to {:?} instead of {:?}", l, i, order[i], got, want));
            }
        }
    }
    Ok(())
}
fn same_answers(order: &[usize], old: &[(usize, f32)], new: &[(usize, f32)]) -> Res {
    let m: Vec<(usize, f32)> = new.iter().map(|&(i, d)| (order[i], d)).collect();
    if m != old {
        return Err(format!("{:?} instead of {:?}", m, old));
    }
    Ok(())
}

fn line_check(c: &mut Ctx, ix: &Granne<Line>, order: &[usize], re: &Granne<Line>, queries: &[f32]) -> Res {
    structure(order, &snap(ix), &snap(re))?;
    let want: Vec<_> = order.iter().map(|&j| ix.get_elements().0[j]).collect();
    if re.get_elements().0 != want {
        return Err(format!("elements {:?} instead of {:?}", &re.get_elements().0[..want.len().min(20)], &want[..want.len().min(20)]));
    }
    let n = ix.len();
    for q in queries {
        // distances are distinct for these queries
        for ms in [1, 2, n + 1] {
            let (a, b) = (ix.search(q, ms, n + 1), re.search(q, ms, n + 1));
            same_answers(order, &a, &b).map_err(|e| format!("search {} with max_search {}: {}", q, ms, e))?;
            c.count("searches_compared", 1);
        }
    }
    Ok(())
}

fn load(bytes: &[u8], fixed: bool, els: &Line) -> Granne<'static, Line> {
    let cfg = BuildConfig::default().num_neighbors(8);
    if fixed {
        GranneBuilder::from_bytes(cfg, bytes, els.clone()).get_index().to_owned()
    } else {
        Granne::from_bytes(bytes, els).to_owned()
    }
}

fn r01(c: &mut Ctx) {
    let mut turn = 0;
    for shape in shapes(c.tier) {
        let n = *shape.last().unwrap();
        let bits: usize = shape.iter().map(|n| n * (n - 1)).sum();
        let places = permutations(n);
        for x in 0..1usize << bits {
            turn += 1;
            if turn % 16 != c.job {
                continue;
            }
            c.case(
                || format!("layers {:?}, graph {}, every placement", shape, x),
                |c| {
                    let g: Snap = {
                        let mut x = x;
                        shape
                            .iter()
                            .map(|&n| {
                                let b = n * (n - 1);
                                let g = digraph(x & ((1 << b) - 1), n);
                                x >>= b;
                                g
                            })
                            .collect()
                    };
                    let bytes = encode_snap(&g);
                    for pl in &places {
                        let els = Line(pl.iter().enumerate().map(|(i, &x)| (i as u32, (x * x) as f32)).collect());
                        let queries = [-1.0, 0.625, 2.125, 9.5, 3.1875];
                        for fixed in [false, true] {
                            let ix = load(&bytes, fixed, &els);
                            if sorted(&snap(&ix)) != sorted(&g) {
                                return Err(format!("HARNESS: loaded {:?}", snap(&ix)));
                            }
                            let mut re = load(&bytes, fixed, &els);
                            let order = re.reorder(false);
                            let e = |e: String| format!("placement {:?}, fixed width {}, order {:?}: {}", pl, fixed, order, e);
                            line_check(c, &ix, &order, &re, &queries).map_err(e)?;
                            if order.iter().enumerate().any(|(i, &j)| i != j) {
                                c.distinct(mcsched::mix(hash_snap(&g), hash_str(&format!("{:?}", order))));
                            }
                            // once more, and after a round trip
                            let again = re.get_elements().clone();
                            let b2 = write_index_vec(&re)?;
                            let re2 = Granne::from_bytes(&b2, again.clone());
                            if sorted(&snap(&re2)) != sorted(&snap(&re)) {
                                return Err(e("a reordered index differs after saving and loading".into()));
                            }
                            let mut re3 = load(&b2, fixed, &again);
                            let o3 = re3.reorder(false);
                            line_check(c, &re, &o3, &re3, &queries).map_err(|e| format!("placement {:?}, second time, order {:?}: {}", pl, o3, e))?;
                            // with the progress shown now and then
                            let o4 = re.reorder(fixed && pl == &places[0]);
                            if o3 != o4 || sorted(&snap(&re3)) != sorted(&snap(&re)) || re.get_elements() != re3.get_elements() {
                                return Err(e(format!("reordering a loaded index gives {:?}, reordering the index itself {:?}", o3, o4)));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // no element at all
    if c.job == 0 {
        c.case(
            || "empty index".to_string(),
            |_| {
                for fixed in [false, true] {
                    let mut ix = load(&encode_snap(&vec![]), fixed, &Line(vec![]));
                    let o = guard(|| ix.reorder(fixed))?;
                    if !o.is_empty() || ix.len() != 0 || !ix.search(&1.0, 3, 3).is_empty() {
                        return Err(format!("order {:?}, {} elements", o, ix.len()));
                    }
                    let o = guard(|| ix.reorder_by_keys(&[0u32; 0], fixed))?;
                    if !o.is_empty() {
                        return Err(format!("order {:?}", o));
                    }
                }
                Ok(())
            },
        );
    }
    // built indexes
    let top = c.tier.pick(1100, 5000);
    let mut sizes: Vec<usize> = (1..=40).collect();
    sizes.extend([63, 64, 65, 100, 255, 256, 257, 300, 513, 1024, 1100, 4096, 5000].iter().filter(|&&n| n <= top));
    for (k, &n) in sizes.iter().enumerate() {
        for (m, mult) in [2.0f32, 3.0, 15.0].into_iter().enumerate() {
            if (k * 3 + m) % 16 != c.job {
                continue;
            }
            c.case(
                || format!("{} built elements on a line, multiplier {}", n, mult),
                |c| {
                    let els = Line((0..n).map(|i| (i as u32, ((i * 7919 + 13) % 4099) as f32)).collect());
                    let mut b = GranneBuilder::new(BuildConfig::default().num_neighbors(6).max_search(10).layer_multiplier(mult), els);
                    b.build();
                    let queries: Vec<f32> = (0..20).map(|i| 0.3125 + (i * 211) as f32).collect();
                    for reverse in [false, true] {
                        let ix = b.get_index().to_owned();
                        let mut re = b.get_index().to_owned();
                        mcsched::set_uncontrolled_reverse(reverse);
                        let o = re.reorder(reverse);
                        mcsched::set_uncontrolled_reverse(false);
                        c.max("layers", ix.num_layers() as u64);
                        line_check(c, &ix, &o, &re, &queries)?;
                        c.distinct(hash_str(&format!("{:?}{}", o, mult)));
                        let mut re2 = Granne::from_bytes(&write_index_vec(&re)?, re.get_elements()).to_owned();
                        let o2 = re2.reorder(false);
                        line_check(c, &re, &o2, &re2, &queries)?;
                    }
                    Ok(())
                },
            );
        }
    }
    // real vectors
    for n in [1usize, 2, 5, 30, 70] {
        if n % 16 != c.job {
            continue;
        }
        c.case(
            || format!("{} angular vectors and sums of embeddings", n),
            |c| {
                let coords = |i: usize| vec![1.0 + (i as f32) * 0.37, ((i * i) as f32) * 0.11 - 3.0, (i % 7) as f32];
                let v: angular::Vectors = (0..n).map(|i| angular::Vector::from(coords(i))).collect();
                let vi: angular_int::Vectors = (0..n).map(|i| angular_int::Vector::from(coords(i))).collect();
                let mut s = SumEmbeddings::new();
                for i in 0..n {
                    s.push_embedding(&coords(i));
                }
                for i in 0..n {
                    s.push((0..=i % 3).map(|k| (i + k * 5) % n).collect::<Vec<_>>());
                }
                let cfg = BuildConfig::default().num_neighbors(8).max_search(20).layer_multiplier(3.0);
                real(c, cfg, v, |v, i| v.get_element(i).into_vec().into_iter().map(|x| x.to_bits() as u64).collect())?;
                real(c, cfg, vi, |v, i| v.get_element(i).into_vec().into_iter().map(|x| x as u8 as u64).collect())?;
                real(c, cfg, s, |v, i| v.get_terms(i).into_iter().map(|x| x as u64).collect())?;
                Ok(())
            },
        );
    }
    // around the chunk size
    for (k, (shape, fixed)) in BIG.iter().flat_map(|s| [(s, false), (s, true)]).enumerate() {
        if k % 16 != c.job {
            continue;
        }
        c.case(
            || format!("layers of {:?} nodes, fixed width {}", shape, fixed),
            |c| {
                let (bytes, els) = big(shape);
                let ix = load(&bytes, fixed, &els);
                let mut re = load(&bytes, fixed, &els);
                let o = re.reorder(!fixed);
                line_check(c, &ix, &o, &re, &[0.3125, 777.3125])?;
                c.distinct(hash_str(&format!("{:?}", shape)));
                Ok(())
            },
        );
    }
    for (k, shape) in BIG.iter().enumerate() {
        if k + 10 == c.job {
            real_big(c, shape, false);
        }
    }
    larger(c, false);
}

/// Layers beyond the sizes of counters and where the number of nodes renamed at once grows with the layer.
fn larger(c: &mut Ctx, by_keys: bool) {
    let shapes: &[&[usize]] = c.tier.pick(&[&[7, 65_537], &[40, 262_145], &[9_000, 1_048_577]], &[&[7, 65_537], &[40, 262_145], &[70_000, 1_048_577], &[5, 4_000_401]]);
    for (k, (shape, fixed)) in shapes.iter().flat_map(|s| [(s, false), (s, true)]).enumerate() {
        if (k + 2) % 16 != c.job {
            continue;
        }
        c.case(
            || format!("large layers of {:?} nodes, fixed width {}, by keys: {}", shape, fixed, by_keys),
            |c| {
                let (bytes, els) = big(shape);
                crate::fw::beat();
                let ix = load(&bytes, fixed, &els);
                let mut re = load(&bytes, fixed, &els);
                crate::fw::beat();
                let n = ix.len();
                let o = if by_keys {
                    let keys: Vec<usize> = (0..n).map(|i| (i * 7919 + 5) % 20011 % 1000).collect();
                    let o = re.reorder_by_keys(&keys, fixed);
                    by_key(&o, shape, &keys)?;
                    o
                } else {
                    re.reorder(!fixed)
                };
                crate::fw::beat();
                line_check(c, &ix, &o, &re, &[-1.0])?;
                c.distinct(hash_str(&format!("{:?}", shape)));
                Ok(())
            },
        );
    }
}

fn real<'a, E>(c: &mut Ctx, cfg: BuildConfig, els: E, id: impl Fn(&E, usize) -> Vec<u64>) -> Res
where
    E: ElementContainer + Permutable + Sync + Send + Clone + 'static,
{
    let mut b = GranneBuilder::new(cfg, els);
    b.build();
    let ix = b.get_index().to_owned();
    let mut re = b.get_index().to_owned();
    let o = re.reorder(false);
    structure(&o, &snap(&ix), &snap(&re))?;
    for i in 0..ix.len() {
        if id(re.get_elements(), i) != id(ix.get_elements(), o[i]) {
            return Err(format!("element {} is not the former {}", i, o[i]));
        }
    }
    for q in 0..ix.len() {
        let q = ix.get_element(q);
        let ds: Vec<_> = (0..ix.len()).map(|i| ix.get_elements().dist_to_element(i, &q)).collect();
        if (0..ds.len()).any(|i| ds[..i].contains(&ds[i])) {
            continue;
        }
        for ms in [1, 5, ix.len() + 1] {
            same_answers(&o, &ix.search(&q, ms, 10), &re.search(&q, ms, 10))?;
            c.count("searches_compared", 1);
        }
    }
    c.distinct(hash_str(&format!("{:?}{}", o, std::any::type_name::<E>())));
    Ok(())
}

const BIG: [&[usize]; 6] = [&[10_000], &[3, 9_999], &[5, 10_001], &[2, 20_001], &[9_999, 10_001], &[10_001, 20_000]];
fn big(shape: &[usize]) -> (Vec<u8>, Line) {
    let g: Snap = shape
        .iter()
        .map(|&n| {
            (0..n)
                .map(|i| {
                    let mut l: Vec<usize> = (1..=i % 6).map(|k| (i * 31 + k * 4973 + 1) % n).filter(|&j| j != i).collect();
                    l.sort();
                    l.dedup();
                    l
                })
                .collect()
        })
        .collect();
    let n = *shape.last().unwrap();
    (encode_snap(&g), Line((0..n).map(|i| (i as u32, ((i * 7919) % if n <= 20_011 { 20_011 } else { 1 << 22 }) as f32)).collect()))
}

/// `real_big(shape, by_keys)`: the containers of the library at the sizes where they are permuted in several parts.
fn real_big(c: &mut Ctx, shape: &[usize], by_keys: bool) {
    let (bytes, line) = big(shape);
    let n = line.len();
    let coords = |i: usize| vec![1.0 + (i % 131) as f32, (i / 131) as f32 - 40.0, (i % 7) as f32];
    let bits = |v: Vec<f32>| v.into_iter().map(|x| x.to_bits() as u64).collect::<Vec<_>>();
    c.case(
        || format!("angular vectors in layers of {:?} nodes, by keys: {}", shape, by_keys),
        |c| {
            let v: angular::Vectors = (0..n).map(|i| angular::Vector::from(coords(i))).collect();
            whole(c, &bytes, v, by_keys, |v, i| bits(v.get_element(i).into_vec()))
        },
    );
    c.case(
        || format!("angular_int vectors in layers of {:?} nodes, by keys: {}", shape, by_keys),
        |c| {
            let v: angular_int::Vectors = (0..n).map(|i| angular_int::Vector::from(coords(i))).collect();
            whole(c, &bytes, v, by_keys, |v, i| v.get_element(i).into_vec().into_iter().map(|x| x as u8 as u64).collect())
        },
    );
    c.case(
        || format!("sums of embeddings in layers of {:?} nodes, by keys: {}", shape, by_keys),
        |c| {
            let mut s = SumEmbeddings::new();
            for i in 0..500 {
                s.push_embedding(&coords(i));
            }
            for i in 0..n {
                let mut t = vec![i % 211, 211 + i / 211];
                t.resize(2 + i % 3, i % 89);
                s.push(if i % 1000 == 999 { vec![] } else { t });
            }
            whole(c, &bytes, s, by_keys, |v, i| v.get_terms(i).into_iter().map(|x| x as u64).collect())
        },
    );
}

fn whole<E>(c: &mut Ctx, bytes: &[u8], els: E, by_keys: bool, id: impl Fn(&E, usize) -> Vec<u64>) -> Res
where
    E: ElementContainer + Permutable + Sync + Send + Clone + 'static,
{
    for fixed in [false, true] {
        let make = || {
            if fixed {
                GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(8), bytes, els.clone()).get_index().to_owned()
            } else {
                Granne::from_bytes(bytes, &els).to_owned()
            }
        };
        let ix = make();
        let mut re = make();
        let o = if by_keys {
            let keys: Vec<usize> = (0..ix.len()).map(|i| (i * 7919 + 5) % 20011).collect();
            re.reorder_by_keys(&keys, fixed)
        } else {
            re.reorder(fixed)
        };
        structure(&o, &snap(&ix), &snap(&re))?;
        if re.get_elements().len() != els.len() {
            return Err(format!("{} elements became {}", els.len(), re.get_elements().len()));
        }
        for i in 0..ix.len() {
            if id(re.get_elements(), i) != id(&els, o[i]) {
                return Err(format!("element {} is not the former {}", i, o[i]));
            }
        }
        c.count("elements_followed", ix.len() as u64);
        c.distinct(hash_str(&format!("{:?}{}", &o[..100], std::any::type_name::<E>())));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// R02

/// Within the elements first appearing in each layer, keys must be non-decreasing.
fn by_key<K: Ord>(order: &[usize], sizes: &[usize], keys: &[K]) -> Res {
    if order.first().map_or(false, |&j| j != 0) {
        return Err(format!("{} became the first element", order[0]));
    }
    let mut a = 0;
    for &b in sizes {
        // the first element stays first
        for i in a.max(1) + 1..b {
            if keys[order[i - 1]] > keys[order[i]] {
                return Err(format!("positions {} and {} (formerly {} and {}) are not in the order of their keys", i - 1, i, order[i - 1], order[i]));
            }
        }
        if let Some(i) = (a..b).find(|&i| order[i] < a || order[i] >= b) {
            return Err(format!("{} moved to {}, out of the {}..{} its layer adds", order[i], i, a, b));
        }
        a = b;
    }
    Ok(())
}
fn r02(c: &mut Ctx) {
    let mut turn = 0;
    for shape in shapes(c.tier) {
        let n = *shape.last().unwrap();
        let bits: usize = shape.iter().map(|n| n * (n - 1)).sum();
        for x in 0..1usize << bits {
            turn += 1;
            if turn % 16 != c.job {
                continue;
            }
            c.case(
                || format!("layers {:?}, graph {}, every key vector", shape, x),
                |c| {
                    let g: Snap = {
                        let mut x = x;
                        shape
                            .iter()
                            .map(|&n| {
                                let b = n * (n - 1);
                                let g = digraph(x & ((1 << b) - 1), n);
                                x >>= b;
                                g
                            })
                            .collect()
                    };
                    let bytes = encode_snap(&g);
                    let els = Line((0..n).map(|i| (i as u32, ((i * 5 + 3) % 7) as f32)).collect());
                    let base = if n < 4 { 4 } else { 3 };
                    for k in 0..(base as usize).pow(n as u32) {
                        let keys = digits(k, base, n);
                        for fixed in [false, true] {
                            let ix = load(&bytes, fixed, &els);
                            let mut re = load(&bytes, fixed, &els);
                            let order = re.reorder_by_keys(&keys, false);
                            let e = |e: String| format!("keys {:?}, fixed width {}, order {:?}: {}", keys, fixed, order, e);
                            line_check(c, &ix, &order, &re, &[-1.0, 0.625, 2.125, 9.5]).map_err(e)?;
                            by_key(&order, &shape, &keys).map_err(e)?;
                            if order.iter().enumerate().any(|(i, &j)| i != j) {
                                c.distinct(mcsched::mix(hash_snap(&g), hash_str(&format!("{:?}", order))));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    for (k, (shape, fixed)) in BIG.iter().flat_map(|s| [(s, false), (s, true)]).enumerate() {
        if k % 16 != c.job {
            continue;
        }
        c.case(
            || format!("layers of {:?} nodes by keys, fixed width {}", shape, fixed),
            |c| {
                let (bytes, els) = big(shape);
                let n = els.len();
                let ix = load(&bytes, fixed, &els);
                for m in [1, 3, 1 << 20] {
                    let keys: Vec<usize> = (0..n).map(|i| (i * 7919 + 5) % 20011 % m).collect();
                    let mut re = load(&bytes, fixed, &els);
                    let o = re.reorder_by_keys(&keys, m == 3);
                    line_check(c, &ix, &o, &re, &[0.3125, 777.3125])?;
                    by_key(&o, shape, &keys)?;
                    c.distinct(hash_str(&format!("{:?}{}", shape, m)));
                }
                Ok(())
            },
        );
    }
    for (k, shape) in BIG.iter().enumerate() {
        if k + 10 == c.job {
            real_big(c, shape, true);
        }
    }
    larger(c, true);
    if c.job == 1 {
        c.case(
            || "a number of keys different from the number of elements".into(),
            |_| {
                let els = Line((0..3).map(|i| (i as u32, i as f32)).collect());
                for k in [0, 2, 4] {
                    let mut ix = load(&encode_snap(&vec![vec![vec![]], vec![vec![1], vec![2], vec![0]]]), false, &els);
                    let keys: Vec<usize> = (0..k).collect();
                    if guard(|| ix.reorder_by_keys(&keys, false)).is_ok() {
                        return Err(format!("{} keys were accepted for 3 elements", k));
                    }
                    if ix.get_elements() != &els {
                        return Err("the elements changed".into());
                    }
                }
                Ok(())
            },
        );
    }
    keys_of_sums(c);
    built_by_keys(c);
}

/// Embeddings with distinct norms, not in order.
const EMB: [[f32; 2]; 6] = [[0.5, 0.0], [3.0, 4.0], [0.0, 0.0], [-1.0, 1.0], [0.0, -9.0], [2.0, 0.25]];
/// The same, with several ideas of what is large ordering them differently.
fn tables() -> Vec<Vec<Vec<f32>>> {
    let other = vec![vec![3.0, 3.0], vec![5.0, 0.0], vec![4.5, 1.0], vec![-6.0, 0.5], vec![-1.0, -0.5], vec![0.9, 0.9]];
    let scaled = |k: f32| other.iter().map(|v: &Vec<f32>| v.iter().map(|x| x * k).collect()).collect();
    let long = |f: &dyn Fn(usize) -> f32| (0..9).map(f).collect::<Vec<f32>>();
    vec![
        EMB.iter().map(|e| e.to_vec()).collect(),
        other.clone(),
        scaled(1e15),
        scaled(1e-9),
        vec![
            long(&|_| 1.0),
            long(&|i| if i < 3 { 2.0 } else { 0.0 }),
            long(&|i| if i == 8 { 4.0 } else { 0.0 }),
            long(&|i| [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -3.2, 1.0][i]),
            long(&|i| if i % 2 == 1 { -1.6 } else { 0.0 }),
            long(&|i| [-2.5, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 2.5][i]),
        ],
        (0..6).map(|t| vec![[-0.5, 3.0, 1.0, -4.0, 0.0, 2.0][t]]).collect(),
    ]
}

/// What the keys must be ordered like; None if the statement leaves it open.
fn reference(a: &[usize], b: &[usize], norm2: &dyn Fn(usize) -> f32) -> Option<Ordering> {
    let f = |t: &[usize]| {
        let mut t = t.to_vec();
        t.sort_by(|&x, &y| norm2(y).partial_cmp(&norm2(x)).unwrap());
        t.truncate(8);
        t
    };
    let (x, y) = (f(a), f(b));
    if x == y {
        return Some(Ordering::Equal);
    }
    if x.starts_with(&y) || y.starts_with(&x) {
        return None;
    }
    Some(x.cmp(&y))
}

fn keys_of_sums(c: &mut Ctx) {
    let top = c.tier.pick(3, 4);
    let mut lists: Vec<Vec<usize>> = vec![];
    for len in 0..=top {
        for x in 0..6usize.pow(len as u32) {
            lists.push(digits(x, 6, len));
        }
    }
    // more than eight terms
    for k in 0..6 {
        for len in [7, 8, 9, 10, 12] {
            lists.push((0..len).map(|i| (i * 5 + k) % 6).collect());
            lists.push((0..len).map(|i| if i < 8 { 4 } else { k }).collect());
            lists.push((0..len).map(|i| if i < len - 1 { k } else { 4 }).collect());
        }
    }
    let lists = &lists;
    for (k, table) in tables().iter().enumerate() {
    let mut s = SumEmbeddings::new();
    for e in table {
        s.push_embedding(e);
    }
    for l in lists {
        s.push(l.clone());
    }
    let s = &s;
    c.case(
        || format!("keys of {} term lists over {:?}, compared in pairs", lists.len(), table),
        |c| {
            let keys = compute_keys_for_reordering(s);
            if keys.len() != lists.len() {
                return Err(format!("{} keys", keys.len()));
            }
            for i in (c.job..lists.len()).step_by(16) {
                for j in 0..lists.len() {
                    if let Some(w) = reference(&lists[i], &lists[j], &|t| table[t].iter().map(|x| x * x).sum::<f32>()) {
                        if keys[i].cmp(&keys[j]) != w {
                            return Err(format!("keys of {:?} and {:?} compare {:?} instead of {:?}", lists[i], lists[j], keys[i].cmp(&keys[j]), w));
                        }
                    }
                }
                c.count("key_comparisons", lists.len() as u64);
                c.distinct(hash_str(&format!("{} {:?}", k, lists[i])));
            }
            // they depend on nothing else: reversed, and alone
            let mut t = SumEmbeddings::new();
            for e in table {
                t.push_embedding(e);
            }
            for l in lists.iter().rev() {
                t.push(l.clone());
            }
            mcsched::set_uncontrolled_reverse(true);
            let rk = compute_keys_for_reordering(&t);
            mcsched::set_uncontrolled_reverse(false);
            for i in (c.job..lists.len()).step_by(16) {
                for j in 0..lists.len() {
                    if keys[i].cmp(&keys[j]) != rk[lists.len() - 1 - i].cmp(&rk[lists.len() - 1 - j]) {
                        return Err(format!("keys of {:?} and {:?} depend on their position", lists[i], lists[j]));
                    }
                }
            }
            Ok(())
        },
    );
    }
    // long lists over many embeddings of other dimensions, the terms that matter anywhere in them
    for (k, (ne, dim)) in [(40usize, 1usize), (300, 3), (70_000, 2), (257, 33), (20, 100), (1 << 24, 1)].into_iter().enumerate() {
        if k + 4 != c.job {
            continue;
        }
        c.case(
            || format!("keys of lists of up to 300 terms over {} embeddings of dimension {}", ne, dim),
            |c| {
                // the norm of embedding t is proportional to rank(t), all different
                let step = if ne % 7 == 0 { 11 } else { 7 };
                let rank = |t: usize| (t * step + 3) % ne + 1;
                let mut s = SumEmbeddings::new();
                for t in 0..ne {
                    s.push_embedding(&(0..dim).map(|j| if j == t % dim { rank(t) as f32 * if t % 2 == 0 { -0.5 } else { 0.5 } } else { 0.0 }).collect::<Vec<f32>>());
                }
                let top: Vec<usize> = {
                    let mut v: Vec<usize> = (0..ne).collect();
                    v.sort_by_key(|&t| ne - rank(t));
                    v
                };
                let mut lists = vec![vec![], vec![top[0]], vec![top[0], top[0]]];
                for len in [5usize, 8, 9, 15, 16, 17, 20, 24, 25, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300] {
                    let base: Vec<usize> = (0..len).map(|i| top[ne - 1 - i % (ne - 9)]).collect();
                    for at in [0, 7, 8, len / 2, len - 1] {
                        let mut l = base.clone();
                        l[at.min(len - 1)] = top[at % 9];
                        lists.push(l.clone());
                        l[len - 1] = top[3];
                        lists.push(l);
                    }
                    lists.push(base);
                }
                for l in &lists {
                    s.push(l.clone());
                }
                let keys = compute_keys_for_reordering(&s);
                for i in 0..lists.len() {
                    for j in 0..lists.len() {
                        if let Some(w) = reference(&lists[i], &lists[j], &|t| rank(t) as f32) {
                            if keys[i].cmp(&keys[j]) != w {
                                return Err(format!("keys of {:?} and {:?} compare {:?} instead of {:?}", lists[i], lists[j], keys[i].cmp(&keys[j]), w));
                            }
                        }
                    }
                    c.distinct(hash_str(&format!("{} {:?}", ne, lists[i])));
                }
                Ok(())
            },
        );
    }
    if c.job == 2 {
        c.case(
            || "keys of no elements".into(),
            |_| {
                let mut t = SumEmbeddings::new();
                for _ in 0..2 {
                    if compute_keys_for_reordering(&t).len() != 0 {
                        return Err("keys for no elements".into());
                    }
                    t.push_embedding(&EMB[0]);
                }
                t.push(vec![]);
                t.push(vec![]);
                let k = compute_keys_for_reordering(&t);
                if k.len() != 2 || k[0] != k[1] {
                    return Err("two empty elements get different keys".into());
                }
                Ok(())
            },
        );
    }
}

/// Small built indexes reordered by the keys of their elements: still exact.
fn built_by_keys(c: &mut Ctx) {
    let n = 6;
    let len = c.tier.pick(3, 4);
    for x in (c.job..7usize.pow(len as u32)).step_by(16) {
        // the first element has one term, the others all combinations of 0, 1 or 3 terms
        let pick = |k: usize| -> Vec<usize> { [vec![4], vec![1, 4], vec![5, 0, 3], vec![0], vec![3], vec![1], vec![1, 1]][k].clone() };
        let d = digits(x, 7, len);
        let mut s = SumEmbeddings::new();
        for e in &EMB {
            s.push_embedding(e);
        }
        s.push(vec![5]);
        for &k in &d {
            s.push(pick(k));
        }
        let s = &s;
        for mult in [2.0, 15.0] {
            c.case(
                || format!("sums of embeddings {:?}, multiplier {}, reordered by their keys", (0..s.len()).map(|i| s.get_terms(i)).collect::<Vec<_>>(), mult),
                |c| {
                    let cfg = BuildConfig::default().num_neighbors(4 * n).max_search(n).layer_multiplier(mult);
                    let mut b = GranneBuilder::new(cfg, s.clone());
                    b.build();
                    let ix = b.get_index().to_owned();
                    let mut re = b.get_index().to_owned();
                    let keys = compute_keys_for_reordering(re.get_elements());
                    let o = re.reorder_by_keys(&keys, false);
                    structure(&o, &snap(&ix), &snap(&re))?;
                    by_key(&o, &(0..ix.num_layers()).map(|l| ix.layer_len(l)).collect::<Vec<_>>(), &keys)?;
                    for i in 0..ix.len() {
                        if re.get_elements().get_terms(i) != ix.get_elements().get_terms(o[i]) {
                            return Err(format!("element {} has terms {:?} instead of {:?}", i, re.get_elements().get_terms(i), ix.get_elements().get_terms(o[i])));
                        }
                    }
                    found_again(&ix, &re, &o)?;
                    if o.iter().enumerate().any(|(i, &j)| i != j) {
                        c.distinct(hash_str(&format!("{:?}{:?}", o, d)));
                    }
                    Ok(())
                },
            );
        }
    }
    // an element without links must not become the one that all searches start from
    if c.job == 3 {
        c.case(
            || "terms [[0], [], [1]] reordered by their keys".into(),
            |_| {
                let mut s = SumEmbeddings::new();
                for e in &EMB {
                    s.push_embedding(e);
                }
                s.push(vec![5]);
                s.push(vec![]);
                s.push(vec![1]);
                let mut b = GranneBuilder::new(BuildConfig::default(), s);
                b.build();
                let ix = b.get_index().to_owned();
                let mut re = b.get_index().to_owned();
                let keys = compute_keys_for_reordering(re.get_elements());
                let o = re.reorder_by_keys(&keys, false);
                structure(&o, &snap(&ix), &snap(&re))?;
                by_key(&o, &[3], &keys)?;
                found_again(&ix, &re, &o)
            },
        );
    }
    // larger ones with user elements
    for (k, n) in [5usize, 9, 17, 40, 100].into_iter().enumerate() {
        for (m, mult) in [2.0f32, 4.0].into_iter().enumerate() {
            if (k * 2 + m) % 16 != c.job {
                continue;
            }
            c.case(
                || format!("{} elements of pattern 0 by keys, multiplier {}", n, mult),
                |c| {
                    let els = Pts(pattern(0, n));
                    let mut b = GranneBuilder::new(BuildConfig::default().num_neighbors(4 * n).max_search(n).layer_multiplier(mult), els);
                    b.build();
                    let ix = b.get_index().to_owned();
                    for m in [2, 5, 1000] {
                        let keys: Vec<usize> = (0..n).map(|i| (i * 37 + 11) % 101 % m).collect();
                        let mut re = b.get_index().to_owned();
                        let o = re.reorder_by_keys(&keys, false);
                        structure(&o, &snap(&ix), &snap(&re))?;
                        by_key(&o, &(0..ix.num_layers()).map(|l| ix.layer_len(l)).collect::<Vec<_>>(), &keys)?;
                        found_again(&ix, &re, &o)?;
                        c.distinct(hash_str(&format!("{:?}", o)));
                    }
                    Ok(())
                },
            );
        }
    }
}

/// Searches with a budget covering everything find the same elements.
fn found_again<E: ElementContainer>(ix: &Granne<E>, re: &Granne<E>, o: &[usize]) -> Res {
    let n = ix.len();
    for q in 0..n {
        let q = ix.get_element(q);
        let d: Vec<_> = (0..n).map(|i| ix.get_elements().dist_to_element(i, &q)).collect();
        if (0..n).all(|i| !d[..i].contains(&d[i])) {
            for ms in [1, 2, n + 1] {
                same_answers(o, &ix.search(&q, ms, n), &re.search(&q, ms, n))?;
            }
        }
        let a: BTreeSet<usize> = ix.search(&q, n + 1, n + 1).iter().map(|x| x.0).collect();
        let b: BTreeSet<usize> = re.search(&q, n + 1, n + 1).iter().map(|x| o[x.0]).collect();
        if a != b {
            return Err(format!("search finds {:?} after reordering instead of {:?}", b, a));
        }
    }
    Ok(())
}
