//! C01: the stored form of neighbour lists.
use super::Check;
use crate::fw::{Ctx, Res};
use crate::util::*;
use granne::*;

pub fn checks() -> Vec<Check> {
    vec![Check {
        name: "C01",
        level: "exploration",
        rule: "a case is one collection of neighbour lists pushed through every path that stores lists (builder, loaded index, reordering, copy to owned) and read back; \
               distinct non-trivial cases are distinct collections with at least one link",
        bound: |t| format!(
            "all sets of up to {} ids from {} encoding boundaries; all gap sequences up to length {} over 4 byte widths and 9 over 2; every count 0..254 for 8 strides; every number of lists up to 190 (and around multiples of 60 up to 1201) in 8 patterns; all orders of up to 6 ids in a list, and lists of every length with any two neighbouring ids swapped; reordering of up to 70 000 lists",
            t.pick(5, 6), IDS.len(), t.pick(7, 8)
        ),
        assumptions: &["neighbour lists hold at most 254 ids"],
        jobs: |_| 16,
        run: only!("C01", c01),
    }]
}

const IDS: [u32; 17] =
    [0, 1, 127, 128, 255, 256, 257, 65534, 65535, 65536, 65537, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 1 << 31, u32::MAX - 2, u32::MAX - 1];

fn same(i: &impl Index, lists: &[Vec<u32>], what: &str) -> Res {
    if i.num_layers() != 1 || i.layer_len(0) != lists.len() || i.len() != lists.len() {
        return Err(format!("{}: {} layers, {} lists, expected one layer of {}", what, i.num_layers(), i.len(), lists.len()));
    }
    for (k, l) in lists.iter().enumerate() {
        let mut got = i.get_neighbors(k, 0);
        got.sort_unstable();
        if got.len() != l.len() || got.iter().zip(l).any(|(&a, &b)| a != b as usize) {
            return Err(format!("{}: list {} of {} comes back as {:?} instead of {:?}", what, k, lists.len(), short(&got), short(l)));
        }
    }
    Ok(())
}
fn short<T: std::fmt::Debug>(v: &[T]) -> String {
    if v.len() > 20 {
        format!("{:?}.. ({} ids)", &v[..20], v.len())
    } else {
        format!("{:?}", v)
    }
}

/// Sorted lists through every storing path that leaves ids alone.
fn store(lists: &[Vec<u32>], width: usize) -> Res {
    let start = encode_index(&[lists.to_vec()]);
    let cfg = BuildConfig::default().num_neighbors(width);
    let raw = Granne::from_bytes(&start, Zeros(0));
    same(&raw, lists, "uncompressed file")?;
    let b = GranneBuilder::from_bytes(cfg, &start, Zeros(0));
    same(&b, lists, "builder")?;
    let out = write_index_vec(&b)?;
    let g = Granne::from_bytes(&out, Zeros(0));
    same(&g, lists, "saved by a builder")?;
    let again = write_index_vec(&g)?;
    if again != out {
        return Err("saving the loaded index gives different bytes".into());
    }
    let z = Zeros(0);
    same(&Granne::from_bytes(&out, &z).to_owned(), lists, "copied to owned")?;
    let b2 = GranneBuilder::from_bytes(cfg, &out, Zeros(0));
    same(&b2, lists, "builder from the saved index")?;
    if write_index_vec(&b2)? != out {
        return Err("saving the resumed builder gives different bytes".into());
    }
    Ok(())
}

fn nontrivial(c: &mut Ctx, lists: &[Vec<u32>]) {
    if lists.iter().any(|l| !l.is_empty()) {
        let mut h = 3;
        for l in lists {
            h = mcsched::mix(h, l.len() as u64);
            for &x in l {
                h = mcsched::mix(h, x as u64);
            }
        }
        c.distinct(h);
    }
}

fn subsets(k: usize) -> Vec<Vec<u32>> {
    (0u32..1 << IDS.len())
        .filter(|m| m.count_ones() as usize <= k)
        .map(|m| (0..IDS.len()).filter(|i| m >> i & 1 == 1).map(|i| IDS[i]).collect())
        .collect()
}
/// Ids with the given first value and gaps, if they fit.
fn from_gaps(first: u32, gaps: &[u32]) -> Option<Vec<u32>> {
    let mut v = vec![first];
    for &g in gaps {
        let x = *v.last().unwrap() as u64 + g as u64;
        if x > u32::MAX as u64 - 1 {
            return None;
        }
        v.push(x as u32);
    }
    Some(v)
}

fn pattern_list(pat: usize, i: usize, n: usize) -> Vec<u32> {
    match pat {
        0 => vec![],
        1 => vec![i as u32],
        2 if i % 2 == 0 => vec![],
        2 => vec![0, 300, 70_000, 1 << 25],
        3 => (0..(i % 255) as u32).collect(),
        4 => (0..254u32).map(|k| k * 16_000_000).collect(),
        5 if i + 1 == n => (0..254u32).collect(),
        5 => vec![],
        6 if i % 60 == 59 => (0..30u32).map(|k| k * 257).collect(),
        6 => vec![i as u32 * 3 + 1, i as u32 * 70_000 + 5],
        _ => IDS[..1 + i % 17].to_vec(),
    }
}

fn c01(c: &mut Ctx) {
    let part = c.job;
    let mut k = 0usize;
    let mut mine = move || {
        k += 1;
        k % 16 == part
    };
    // sets of boundary ids, alone and surrounded
    let depth = c.tier.pick(5, 6);
    for s in subsets(depth) {
        if !mine() {
            continue;
        }
        c.case(|| format!("list {:?}", s), |c| {
            store(&[s.clone()], s.len().max(1))?;
            store(&[vec![7], s.clone(), vec![], s.clone(), vec![1, 2]], 254)?;
            nontrivial(c, &[s.clone()]);
            Ok(())
        });
    }
    // gap sequences
    let widths: [u32; 4] = [1, 256, 65_536, 1 << 24];
    let mut gaps: Vec<Vec<u32>> = vec![];
    for len in 1..=c.tier.pick(7, 8) {
        for x in 0..4usize.pow(len as u32) {
            gaps.push(digits(x, 4, len).into_iter().map(|d| widths[d]).collect());
        }
    }
    for pair in [[1u32, 65_536], [255, 1 << 24], [255, 256], [65_535, 65_536], [(1 << 24) - 1, 1 << 24]] {
        for len in 1..=9 {
            for x in 0..2usize.pow(len as u32) {
                gaps.push(digits(x, 2, len).into_iter().map(|d| pair[d]).collect());
            }
        }
    }
    for g in gaps {
        if !mine() {
            continue;
        }
        c.case(|| format!("ids with gaps {:?}", g), |c| {
            for first in [0u32, 1, 255, 256, 65_536, 1 << 24, (1 << 31) + 3] {
                if let Some(l) = from_gaps(first, &g) {
                    store(&[l.clone()], l.len())?;
                    nontrivial(c, &[l]);
                }
            }
            Ok(())
        });
    }
    // every count
    for count in 0..=254usize {
        for (first, stride) in [(0u32, 1u32), (5, 1), (0, 2), (0, 255), (1, 256), (3, 70_000), (0, 1 << 24), (9, 16_900_000)] {
            if !mine() {
                continue;
            }
            c.case(|| format!("{} ids from {} in steps of {}", count, first, stride), |c| {
                let l: Vec<u32> = (0..count as u64).map(|i| first as u64 + i * stride as u64).filter(|&x| x < u32::MAX as u64).map(|x| x as u32).collect();
                store(&[l.clone()], l.len().max(1))?;
                store(&[l.clone(), vec![0], l.clone()], 254)?;
                nontrivial(c, &[l]);
                Ok(())
            });
        }
    }
    // every number of lists
    let mut ns: Vec<usize> = (1..=190).collect();
    for m in 4..=20 {
        ns.extend([60 * m - 1, 60 * m, 60 * m + 1]);
    }
    for &n in &ns {
        for pat in 0..8 {
            if !mine() {
                continue;
            }
            c.case(|| format!("{} lists in pattern {}", n, pat), |c| {
                let lists: Vec<Vec<u32>> = (0..n).map(|i| pattern_list(pat, i, n)).collect();
                store(&lists, 254)?;
                nontrivial(c, &lists);
                Ok(())
            });
        }
    }
    // lists rebuilt one by one: reordering by equal keys and by reversing keys
    for n in [1usize, 2, 3, 59, 60, 61, 119, 120, 121, 256, 257, 300, 1000, 9_999, 10_000, 10_001, 20_001, 65_535, 65_537, 70_000] {
        for pat in 0..4 {
            if !mine() {
                continue;
            }
            c.case(|| format!("{} lists in pattern {} rebuilt by reordering", n, pat), |c| {
                let ids = [0usize, 1, 255, 256, 257, 9_999, 10_000, 65_535, 65_536, 69_999];
                let lists: Vec<Vec<u32>> = (0..n)
                    .map(|i| {
                        let mut l: Vec<u32> = match pat {
                            0 => ids.iter().filter(|&&x| x < n).map(|&x| x as u32).collect(),
                            1 => (0..i % 255).map(|k| ((i + k * 7) % n) as u32).collect(),
                            2 => vec![(n - 1 - i) as u32],
                            _ => (0..i % 7).map(|k| ((i * 31 + k * 9_973) % n) as u32).collect(),
                        };
                        l.sort_unstable();
                        l.dedup();
                        l
                    })
                    .collect();
                let bytes = encode_index(&[lists.clone()]);
                for rev in [false, true] {
                    let keys: Vec<usize> = (0..n).map(|i| if rev { n - i } else { i }).collect();
                    rebuilt(&bytes, &lists, &keys).map_err(|e| format!("{}, keys {}", e, if rev { "reversed" } else { "in order" }))?;
                }
                nontrivial(c, &lists);
                Ok(())
            });
        }
    }
    unsorted(c, &mut mine);
}

/// Reordering by `keys` of the index in `bytes` with one layer of `lists`.
fn rebuilt(bytes: &[u8], lists: &[Vec<u32>], keys: &[usize]) -> Res {
    let n = lists.len();
    let mut g = Granne::from_bytes(bytes, Moves(n));
    let order = g.reorder_by_keys(keys, false);
    // which permutation it is, is the business of R02
    let mut at = vec![usize::MAX; n];
    for (i, &j) in order.iter().enumerate() {
        if j >= n || at[j] != usize::MAX {
            return Err("the order is no permutation".into());
        }
        at[j] = i;
    }
    if order.len() != n {
        return Err("the order is no permutation".into());
    }
    let moved: Vec<Vec<u32>> = (0..n)
        .map(|i| {
            let mut l: Vec<u32> = lists[order[i]].iter().map(|&x| at[x as usize] as u32).collect();
            l.sort_unstable();
            l
        })
        .collect();
    same(&g, &moved, "reordered")?;
    let out = write_index_vec(&g)?;
    same(&Granne::from_bytes(&out, Zeros(0)), &moved, "reordered, saved and loaded")
}

/// Lists whose ids are in another order than that of their values, as builders have them.
fn store_unsorted(lists: &[Vec<u32>]) -> Res {
    let sorted: Vec<Vec<u32>> = lists
        .iter()
        .map(|l| {
            let mut l = l.clone();
            l.sort_unstable();
            l
        })
        .collect();
    let width = lists.iter().map(|l| l.len()).max().unwrap_or(0).max(1);
    let bytes = encode_index(&[lists.to_vec()]);
    let b = GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(width), &bytes, Zeros(0));
    same(&b, &sorted, "builder")?;
    let out = write_index_vec(&b)?;
    same(&Granne::from_bytes(&out, Zeros(0)), &sorted, "saved by a builder")?;
    if out != write_index_vec(&GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(width), &encode_index(&[sorted]), Zeros(0)))? {
        return Err("the saved bytes depend on the order of the ids".into());
    }
    Ok(())
}

fn unsorted(c: &mut Ctx, mine: &mut dyn FnMut() -> bool) {
    for ids in [&[0u32, 1, 255, 256, 65_536, 1 << 24][..], &[3, 4, 5, 6, 7, 8], &[0, 1 << 31, 70_000, u32::MAX - 1, 9, 10]] {
        for len in 2..=6 {
            for perm in permutations(len) {
                if !mine() {
                    continue;
                }
                let l: Vec<u32> = perm.iter().map(|&i| ids[i]).collect();
                c.case(|| format!("unsorted list {:?}", l), |c| {
                    store_unsorted(&[l.clone()])?;
                    store_unsorted(&[vec![2], l.clone(), vec![], l.clone()])?;
                    nontrivial(c, &[l.clone()]);
                    Ok(())
                });
            }
        }
    }
    for n in 2..=254usize {
        if !mine() {
            continue;
        }
        c.case(|| format!("unsorted lists of {} ids", n), |c| {
            let mut perms: Vec<Vec<usize>> = super::elements::structured(n).into_iter().map(|(_, p)| p).collect();
            for at in 0..n - 1 {
                for to in [at + 1, n - 1] {
                    let mut p: Vec<usize> = (0..n).collect();
                    p.swap(at, to);
                    perms.push(p);
                }
            }
            for stride in [1u32, 300] {
                let lists: Vec<Vec<u32>> = perms.iter().map(|p| p.iter().map(|&i| i as u32 * stride).collect()).collect();
                store_unsorted(&lists)?;
                nontrivial(c, &lists);
            }
            // all of them linked to one another and renamed
            let all: Vec<Vec<u32>> = (0..n as u32).map(|i| (0..n as u32).filter(|&j| j != i).collect()).collect();
            let bytes = encode_index(&[all.clone()]);
            let few = if n < 40 || n % 50 == 0 || c.tier.thorough() { perms.len() } else { 20 };
            for p in &perms[..few] {
                rebuilt(&bytes, &all, p).map_err(|e| format!("{}, keys {:?}", e, p))?;
                crate::fw::beat();
            }
            Ok(())
        });
    }
}

/// `n` elements without content that can be permuted.
struct Moves(usize);
impl ElementContainer for Moves {
    type Element = ();
    fn get(&self, _: usize) {}
    fn len(&self) -> usize {
        self.0
    }
    fn dist_to_element(&self, _: usize, _: &()) -> ordered_float::NotNan<f32> {
        nn(0.0)
    }
}
impl Permutable for Moves {
    fn permute(&mut self, _: &[usize]) {}
}
