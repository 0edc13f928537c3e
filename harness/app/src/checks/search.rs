//! S01, S02: every small graph (all links, all layer shapes), every distance order, every budget.
use super::Check;
use crate::fw::{Ctx, Res, Tier};
use crate::util::*;
use granne::*;
use std::collections::BTreeSet;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            name: "S01",
            level: "exploration",
            rule: "a case is one index (every digraph up to the bound, or one built from every small element list) searched with every query order, \
                   budget and result limit; distinct non-trivial cases are distinct (graph, results) with at least two results",
            bound: |t| format!("all layered digraphs {:?}; queries: all weak distance orders; max_search and num_neighbors 0/1..n+2; built indexes of angular, angular_int, SumEmbeddings and user elements over all sequences of a vector alphabet", shapes(t)),
            assumptions: &[],
            jobs: |t| plan(t).len() + BUILT_JOBS + 1,
            run: only!("S01", s01),
        },
        Check {
            name: "S02",
            level: "exploration",
            rule: "a case is one index (every layered digraph up to the bound, fixed-width and compressed form) searched with every distance order and every budget; \
                   distinct non-trivial cases are distinct (graph, result sets) where at least one search left a reachable element out",
            bound: |t| format!("all layered digraphs {:?} x all distance orders x max_search 1..n+1, plus chains, stars and trees of up to 70000 nodes and stepping stones through up to 17 layers of up to 131072 elements and through up to 100 layers of one link each", shapes(t)),
            assumptions: &[],
            jobs: |t| plan(t).len() + 1,
            run: only!("S02", s02),
        },
    ]
}

fn shapes(t: Tier) -> Vec<Vec<usize>> {
    let mut v = vec![vec![1], vec![2], vec![3], vec![1, 1], vec![1, 2], vec![2, 2], vec![2, 3], vec![3, 3], vec![1, 2, 3], vec![4], vec![1, 4], vec![2, 4], vec![1, 2, 4]];
    // many layers: every way to reach the other node of any one of them
    v.extend([vec![1, 1, 1, 1, 2], vec![1, 2, 2, 2, 2], vec![2; 6], vec![2, 2, 2, 3], vec![1, 2, 2, 2, 2, 3]]);
    if t.thorough() {
        v.push(vec![3, 4]);
        v.push(vec![1, 3, 4]);
        v.push(vec![5]);
        v.push(vec![2; 8]);
        v.push(vec![1, 2, 3, 3]);
        v.push(vec![2, 2, 3, 3]);
    }
    v
}
fn bits(s: &[usize]) -> usize {
    s.iter().map(|n| n * (n - 1)).sum()
}
/// (shape, first graph number, count)
fn plan(t: Tier) -> Vec<(Vec<usize>, usize, usize)> {
    let mut v = vec![];
    for s in shapes(t) {
        let total = 1usize << bits(&s);
        let chunk = if total > 1 << 19 { 1 << 13 } else { 1 << 10 };
        let mut a = 0;
        while a < total {
            v.push((s.clone(), a, chunk.min(total - a)));
            a += chunk;
        }
    }
    v
}
fn graph_of(shape: &[usize], mut x: usize) -> Snap {
    shape
        .iter()
        .map(|&n| {
            let b = n * (n - 1);
            let g = digraph(x & ((1 << b) - 1), n);
            x >>= b;
            g
        })
        .collect()
}

fn orders(n: usize, ties: bool) -> Vec<Vec<usize>> {
    if ties && n <= 4 {
        weak_orders(n)
    } else {
        permutations(n)
    }
}
fn is_strict(r: &[f32]) -> bool {
    (0..r.len()).all(|i| (0..i).all(|j| r[i] != r[j]))
}
fn table(n: usize) -> Table {
    Table { n, rows: orders(n, true).into_iter().map(|r| r.into_iter().map(|k| 0.125 * k as f32).collect()).collect() }
}

fn reach(g: &Graph, from: usize) -> BTreeSet<usize> {
    let mut seen = BTreeSet::from([from]);
    let mut st = vec![from];
    while let Some(x) = st.pop() {
        for &y in &g[x] {
            if seen.insert(y) {
                st.push(y);
            }
        }
    }
    seen
}
/// Steepest descent (distinct distances).
fn descend(g: &Graph, mut at: usize, d: &[f32]) -> usize {
    loop {
        let best = g[at].iter().copied().min_by(|&a, &b| d[a].partial_cmp(&d[b]).unwrap());
        match best {
            Some(b) if d[b] < d[at] => at = b,
            _ => return at,
        }
    }
}

/// What S01 says about one result.
pub fn genuine(r: &[(usize, f32)], len: usize, ms: usize, k: usize, dist: &dyn Fn(usize) -> f32) -> Res {
    if r.len() > k.min(ms) {
        return Err(format!("{} results with max_search {} and num_neighbors {}", r.len(), ms, k));
    }
    if len == 0 && !r.is_empty() {
        return Err("results from an empty index".into());
    }
    if len > 0 && ms > 0 && k > 0 && r.is_empty() {
        return Err("no result from a non-empty index".into());
    }
    let ids: BTreeSet<_> = r.iter().map(|x| x.0).collect();
    if ids.len() != r.len() {
        return Err(format!("an id is returned twice: {:?}", r));
    }
    for &(i, d) in r {
        if i >= len {
            return Err(format!("id {} is not indexed (length {})", i, len));
        }
        if d.to_bits() != dist(i).to_bits() {
            return Err(format!("id {} comes with distance {} but is at {}", i, d, dist(i)));
        }
    }
    if r.windows(2).any(|w| w[0].1 > w[1].1) {
        return Err(format!("not sorted: {:?}", r));
    }
    Ok(())
}
fn prefix(a: &[(usize, f32)], full: &[(usize, f32)], k: usize) -> Res {
    if a != &full[..full.len().min(k)] {
        return Err(format!("num_neighbors {} gives {:?}, not a prefix of {:?}", k, a, full));
    }
    Ok(())
}

/// What S02 says about one full result list.
fn optimal(links: &Snap, d: &[f32], ms: usize, r: &[(usize, f32)]) -> Res {
    let last = links.last().unwrap();
    let ids: BTreeSet<usize> = r.iter().map(|x| x.0).collect();
    if r.is_empty() {
        return Err("no result".into());
    }
    let worst = r.last().unwrap().1;
    for &i in &ids {
        for &j in &last[i] {
            if ids.contains(&j) {
                continue;
            }
            if r.len() < ms {
                return Err(format!("{:?} is not full (max_search {}) but {} linked from {} is missing", r, ms, j, i));
            }
            if d[j] < worst {
                return Err(format!("{:?} is not a local optimum: {} linked from {} is closer ({})", r, j, i, d[j]));
            }
        }
    }
    // reachability from one start
    let start_ok = |e: usize| {
        let re = reach(last, e);
        if r.len() < ms {
            re == ids
        } else {
            ids.is_subset(&re)
        }
    };
    if links.len() == 1 {
        if !start_ok(0) {
            return Err(format!("{:?} with max_search {}: reachable from 0 are {:?}", r, ms, reach(last, 0)));
        }
    } else if !(0..last.len()).any(start_ok) {
        return Err(format!("{:?} is not what is reachable from any single start", r));
    }
    if r[0].1 > d[0] {
        return Err(format!("best result {:?} is worse than element 0 at {}", r[0], d[0]));
    }
    if is_strict(d) {
        let mut ep = 0;
        for g in links {
            ep = descend(g, ep, d);
        }
        if r[0].1 > d[ep] {
            return Err(format!("best result {:?} is worse than the greedy descent, which ends at {} at {}", r[0], ep, d[ep]));
        }
    }
    Ok(())
}

fn s02(c: &mut Ctx) {
    let pl = plan(c.tier);
    if c.job >= pl.len() {
        large(c, true);
        return;
    }
    let (shape, first, count) = pl[c.job].clone();
    let n = *shape.last().unwrap();
    let tab = table(n);
    for x in first..first + count {
        c.case(
            || format!("layers {:?}", graph_of(&shape, x)),
            |c| {
                let links = graph_of(&shape, x);
                let bytes = encode_snap(&links);
                let ix = Granne::from_bytes(&bytes, &tab);
                let cfg = BuildConfig::default().num_neighbors((n - 1).max(1));
                let fixed = GranneBuilder::from_bytes(cfg, &bytes, &tab);
                let fixed = fixed.get_index();
                let mut partial = false;
                let mut h = x as u64;
                for (q, d) in tab.rows.iter().enumerate() {
                    for ms in 1..=n + 1 {
                        let r = ix.search(&q, ms, n + 1);
                        optimal(&links, d, ms, &r).map_err(|e| format!("query distances {:?}, max_search {}: {}", d, ms, e))?;
                        if n < 5 {
                            let f = fixed.search(&q, ms, n + 1);
                            optimal(&links, d, ms, &f).map_err(|e| format!("fixed-width form, query distances {:?}, max_search {}: {}", d, ms, e))?;
                            if is_strict(d) && f != r {
                                return Err(format!("query distances {:?}, max_search {}: compressed gives {:?}, fixed-width {:?}", d, ms, r, f));
                            }
                        }
                        c.count("searches", 1);
                        partial |= r.len() == ms && r.len() < reach(links.last().unwrap(), 0).len();
                        h = r.iter().fold(h, |h, x| mcsched::mix(h, x.0 as u64 + 1));
                    }
                }
                if partial {
                    c.distinct(h);
                }
                Ok(())
            },
        );
    }
}

/// One dimensional positions: element i sits at `pos(i)`, the query at 0.
struct Line<'a>(Vec<f32>, std::marker::PhantomData<&'a ()>);
impl<'a> ElementContainer for Line<'a> {
    type Element = f32;
    fn get(&self, i: usize) -> f32 {
        self.0[i]
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn dist_to_element(&self, i: usize, e: &f32) -> ordered_float::NotNan<f32> {
        nn((self.0[i] - e).abs())
    }
}

/// Long lists and many nodes: counters, sets and ids beyond one and two bytes.
fn large(c: &mut Ctx, optimality: bool) {
    let run = |c: &mut Ctx, name: String, links: Snap, pos: Vec<f32>, queries: Vec<f32>, budgets: Vec<usize>| {
        c.case(
            || name.clone(),
            |c| {
                let n = pos.len();
                let bytes = encode_snap(&links);
                let line = Line(pos, std::marker::PhantomData);
                let most = links.iter().flatten().map(|l| l.len()).max().unwrap_or(0).max(1);
                let builder = GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(most), &bytes, &line);
                for (ix, q) in [Granne::from_bytes(&bytes, &line), builder.get_index().to_owned()].iter().flat_map(|ix| queries.iter().map(move |&q| (ix, q))) {
                    crate::fw::beat();
                    if ix.len() != n {
                        return Err(format!("length {} instead of {}", ix.len(), n));
                    }
                    let d: Vec<f32> = line.0.iter().map(|x| (x - q).abs()).collect();
                    for &ms in &budgets {
                        let r = ix.search(&q, ms, usize::MAX);
                        genuine(&r, n, ms, usize::MAX, &|i| d[i]).map_err(|e| format!("query {} max_search {}: {}", q, ms, e))?;
                        if optimality {
                            large_optimal(&links, &d, ms, &r).map_err(|e| format!("query {} max_search {}: {}", q, ms, e))?;
                        }
                        for k in [0, 1, 2, 254, 255, 256, 257] {
                            prefix(&ix.search(&q, ms, k), &r, k)?;
                        }
                        c.count("searches", 8);
                        if r.len() > 1 {
                            c.distinct(mcsched::mix(r.len() as u64, (q.to_bits() as u64) << 20 ^ ms as u64));
                        }
                    }
                }
                Ok(())
            },
        );
    };
    // stars: 0 linked to everything in one list
    for leaves in [1usize, 19, 20, 21, 127, 128, 253, 254] {
        let links = vec![std::iter::once((1..=leaves).collect()).chain((1..=leaves).map(|_| vec![0])).collect()];
        let pos = (0..=leaves).map(|i| ((i * 37) % (leaves + 1)) as f32).collect();
        run(c, format!("star with {} leaves", leaves), links, pos, vec![0.0, 3.0, leaves as f32], vec![1, 2, 3, leaves, leaves + 1, leaves + 2, 300]);
    }
    // chains and rings, id order and scrambled
    for n in [255usize, 256, 257, 65535, 65536, 65537, 70000] {
        let chain: Graph = (0..n).map(|i| (i.saturating_sub(1)..(i + 2).min(n)).filter(|&j| j != i).collect()).collect();
        run(c, format!("chain of {}", n), vec![chain.clone()], (0..n).map(|i| i as f32).collect(), vec![0.0, (n - 1) as f32, (n / 2) as f32], vec![1, 2, 50, 500, n]);
        if n < 1000 {
            run(c, format!("chain of {} under three layers", n), vec![chain[..1].iter().map(|_| vec![]).collect(), trim(&chain, 5), trim(&chain, 60), chain.clone()], (0..n).map(|i| i as f32).collect(), vec![0.0, (n - 1) as f32, 57.0], vec![1, 2, 50, 500]);
        }
    }
    // many layers, every one needed to get near the query: layer l has a chain of stepping stones over its own part,
    // the last layer has links between neighbouring pairs only
    for depth in [4usize, 7, 8, 9, 10, 12, 16, 17] {
        let n = 1 << depth;
        let mut links: Snap = (1..depth).map(|l| (0..1usize << l).map(|i| (i.saturating_sub(1)..(i + 2).min(1 << l)).filter(|&j| j != i).collect()).collect()).collect();
        links.push((0..n).map(|i| if i ^ 1 < n { vec![i ^ 1] } else { vec![] }).collect());
        run(c, format!("{} layers, a last layer of pairs", depth), links, (0..n).map(|i| i as f32 * 1.01).collect(), vec![0.2, 1e6, n as f32 / 4.0 + 0.3], vec![1, 2, 3, 10, n]);
    }
    // still more layers: each has one link, from the last but one of its elements to its last
    for depth in [18usize, 33, 65, 100] {
        let mut links: Snap = (0..depth - 1)
            .map(|l| (0..l + 2).map(|i| if i == l { vec![l + 1] } else if i == l + 1 { vec![l] } else { vec![] }).collect())
            .collect();
        let n = depth + 1;
        links.push((0..n).map(|i| if i + 2 == n { vec![i + 1] } else if i + 1 == n { vec![i - 1] } else { vec![] }).collect());
        run(c, format!("{} layers of one link each", depth), links, (0..n).map(|i| i as f32 * 1.01).collect(), vec![0.2, 1e6, n as f32 / 4.0 + 0.3], vec![1, 2, 3, n]);
    }
    // binary tree (children larger), distance by bit-reversal
    for n in [1023usize, 40000] {
        let tree: Graph = (0..n)
            .map(|i| {
                let mut v = vec![2 * i + 1, 2 * i + 2];
                if i > 0 {
                    v.push((i - 1) / 2);
                }
                v.retain(|&j| j < n);
                v
            })
            .collect();
        let pos: Vec<f32> = (0..n).map(|i| ((i * 7919) % 100_003) as f32).collect();
        run(c, format!("binary tree of {}", n), vec![tree], pos, vec![0.0, 50000.0], vec![1, 5, 100, 1000, n]);
    }
}
fn trim(g: &Graph, n: usize) -> Graph {
    g[..n].iter().map(|l| l.iter().copied().filter(|&x| x < n).collect()).collect()
}
fn large_optimal(links: &Snap, d: &[f32], ms: usize, r: &[(usize, f32)]) -> Res {
    let last = links.last().unwrap();
    let mut inr = vec![false; d.len()];
    for x in r {
        inr[x.0] = true;
    }
    let worst = r.last().unwrap().1;
    for x in r {
        for &j in &last[x.0] {
            if !inr[j] && r.len() < ms {
                return Err(format!("{} results, not full, but {} linked from {} is missing", r.len(), j, x.0));
            }
            if !inr[j] && d[j] < worst {
                return Err(format!("not a local optimum: {} linked from {} is closer ({} < {})", j, x.0, d[j], worst));
            }
        }
    }
    if links.len() > 1 {
        let mut ep = 0;
        for g in links {
            ep = descend(g, ep, d);
        }
        let mut sorted = d.to_vec();
        sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if sorted.windows(2).all(|w| w[0] < w[1]) && r[0].1 > d[ep] {
            return Err(format!("best result {:?} is worse than the greedy descent, which ends at {} at {}", r[0], ep, d[ep]));
        }
    }
    // links go both ways in all these graphs
    if ms >= d.len() {
        let re = reach(last, r[0].0);
        if r.len() != re.len() || (links.len() == 1 && !re.contains(&0)) {
            return Err(format!("budget {} but only {} of {} connected elements returned", ms, r.len(), re.len()));
        }
    }
    if r[0].1 > d[0] {
        return Err("worse than the start".into());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// S01

const BUILT_JOBS: usize = 16;

fn s01(c: &mut Ctx) {
    let pl = plan(c.tier);
    if c.job >= pl.len() + BUILT_JOBS {
        empty_and_large(c);
        return;
    }
    if c.job >= pl.len() {
        let j = c.job - pl.len();
        built(c, j);
        return;
    }
    let (shape, first, count) = pl[c.job].clone();
    let n = *shape.last().unwrap();
    let tab = table(n);
    for x in first..first + count {
        c.case(
            || format!("layers {:?}", graph_of(&shape, x)),
            |c| {
                let links = graph_of(&shape, x);
                let bytes = encode_snap(&links);
                let ix = Granne::from_bytes(&bytes, &tab);
                let mut h = x as u64;
                let mut multi = false;
                for (q, d) in tab.rows.iter().enumerate() {
                    for ms in 1..=n + 1 {
                        let full = ix.search(&q, ms, n + 1);
                        genuine(&full, n, ms, n + 1, &|i| d[i]).map_err(|e| format!("query distances {:?}, max_search {}: {}", d, ms, e))?;
                        multi |= full.len() > 1;
                        h = full.iter().fold(h, |h, x| mcsched::mix(h, x.0 as u64 + 1));
                        c.count("searches", 1);
                        // fewer neighbours: rotate through the limits, all of them for the larger orders
                        for k in 0..=n + 2 {
                            if n < 4 || (k + q + ms) % 5 == 0 {
                                let r = ix.search(&q, ms, k);
                                prefix(&r, &full, k).map_err(|e| format!("query distances {:?}, max_search {}: {}", d, ms, e))?;
                                c.count("searches", 1);
                            }
                        }
                    }
                }
                if multi {
                    c.distinct(h);
                }
                Ok(())
            },
        );
    }
}

fn check_index<E, Q>(c: &mut Ctx, ix: &Granne<E>, queries: &[Q], dist: &dyn Fn(&E, usize, &Q) -> f32, to_el: &dyn Fn(&Q) -> E::Element, h: u64) -> Res
where
    E: ElementContainer,
    Q: std::fmt::Debug,
{
    let len = ix.len();
    let mut h = h;
    let mut multi = false;
    for q in queries {
        let el = to_el(q);
        for ms in [1, 2, len.max(1), len + 3] {
            let full = ix.search(&el, ms, len + 5);
            genuine(&full, len, ms, len + 5, &|i| dist(ix.get_elements(), i, q)).map_err(|e| format!("query {:?} max_search {}: {}", q, ms, e))?;
            for k in 0..=len + 1 {
                prefix(&ix.search(&el, ms, k), &full, k)?;
            }
            multi |= full.len() > 1;
            h = full.iter().fold(h, |h, x| mcsched::mix(mcsched::mix(h, x.0 as u64 + 1), x.1.to_bits() as u64));
            c.count("searches", 2 + len as u64);
        }
        // limits far beyond the index
        let all = ix.search(&el, len + 3, len + 5).len();
        for ms in [1 << 31, 1 << 40, usize::MAX] {
            let r = ix.search(&el, ms, usize::MAX - 1);
            genuine(&r, len, ms, usize::MAX - 1, &|i| dist(ix.get_elements(), i, q)).map_err(|e| format!("query {:?} max_search {}: {}", q, ms, e))?;
            if r.len() != all {
                return Err(format!("query {:?}: {} results with max_search {}, {} with {}", q, r.len(), ms, all, len + 3));
            }
        }
    }
    if multi {
        c.distinct(h);
    }
    Ok(())
}

/// Indexes built by the library over every sequence of a small alphabet, for every element type.
fn built(c: &mut Ctx, j: usize) {
    let alpha: [[f32; 2]; 5] = [[1.0, 0.0], [0.0, 0.0], [3.0, 4.0], [-1.0, 0.25], [0.6, -0.8]];
    let maxlen = c.tier.pick(5, 6);
    for len in 0..=maxlen {
        let total = 5usize.pow(len as u32);
        for x in (j..total).step_by(BUILT_JOBS) {
            let seq = digits(x, 5, len);
            c.case(
                || format!("elements {:?} of {:?}, all element types", seq, alpha),
                |c| {
                    let cfg = BuildConfig::default().num_neighbors(2 + x % 3).max_search(3).layer_multiplier(2.0);
                    let queries: Vec<[f32; 2]> = alpha.iter().copied().chain([[0.1, 0.9], [-0.7, -0.7]]).collect();
                    // partial builds too: fewer elements indexed than stored
                    for built in [len, len / 2] {
                        let els: angular::Vectors = seq.iter().map(|&k| angular::Vector::from(alpha[k].to_vec())).collect();
                        let mut b = GranneBuilder::new(cfg, els);
                        b.build_partial(built);
                        check_index(c, &b.get_index(), &queries, &|e, i, q| e.get_element(i).dist(&angular::Vector::from(q.to_vec())).into_inner(), &|q| angular::Vector::from(q.to_vec()), x as u64)
                            .map_err(|e| format!("angular, {} of {} built: {}", built, len, e))?;

                        let els: angular_int::Vectors = seq.iter().map(|&k| angular_int::Vector(quantized(&alpha[k]).into())).collect();
                        let mut b = GranneBuilder::new(cfg, els);
                        b.build_partial(built);
                        check_index(c, &b.get_index(), &queries, &|e, i, q| e.get_element(i).dist(&angular_int::Vector(quantized(q).into())).into_inner(), &|q| angular_int::Vector(quantized(q).into()), x as u64)
                            .map_err(|e| format!("angular_int, {} of {} built: {}", built, len, e))?;

                        let mut els = embeddings::SumEmbeddings::new();
                        for a in &alpha {
                            els.push_embedding(a);
                        }
                        for (p, &k) in seq.iter().enumerate() {
                            if p % 2 == 0 {
                                els.push([k]);
                            } else {
                                els.push([k, (k + p) % 5]);
                            }
                        }
                        let mut b = GranneBuilder::new(cfg, els);
                        b.build_partial(built);
                        check_index(c, &b.get_index(), &queries, &|e, i, q| angular::Vector::from(e.get_embedding(i)).dist(&angular::Vector::from(q.to_vec())).into_inner(), &|q| angular::Vector::from(q.to_vec()), x as u64)
                            .map_err(|e| format!("SumEmbeddings, {} of {} built: {}", built, len, e))?;

                        let pts = [p(0, 0), DEAD, p(3, 4), p(-1, 0), p(3, 4)];
                        let mut b = GranneBuilder::new(cfg, Pts(seq.iter().map(|&k| pts[k]).collect()));
                        b.build_partial(built);
                        let qs = [p(0, 0), p(2, 2), p(-3, 1)];
                        check_index(c, &b.get_index(), &qs, &|e, i, q| e.0[i].d(q), &|q| *q, x as u64).map_err(|e| format!("user elements, {} of {} built: {}", built, len, e))?;
                    }
                    Ok(())
                },
            );
        }
    }
}
/// Quantized by the harness (zero stays zero), so that this check does not depend on E02.
pub fn quantized(v: &[f32]) -> Vec<i8> {
    let m = v.iter().fold(0.0f32, |m, x| m.max(x.abs()));
    v.iter().map(|x| if m == 0.0 { 0 } else { (x * 127.0 / m) as i8 }).collect()
}

fn empty_and_large(c: &mut Ctx) {
    c.case(
        || "empty indexes, every element type and way to get one".into(),
        |_| {
            let q = angular::Vector::from(vec![1.0, 0.0]);
            let mut b = GranneBuilder::new(BuildConfig::default(), angular::Vectors::new());
            for ms in [1, 2, 200, usize::MAX] {
                for k in [0, 1, 30, usize::MAX] {
                    genuine(&b.get_index().search(&q, ms, k), 0, ms, k, &|_| 0.0)?;
                }
            }
            b.build();
            let bytes = write_index_vec(&b)?;
            let ix = Granne::from_bytes(&bytes, angular::Vectors::new());
            genuine(&ix.search(&q, 10, 10), 0, 10, 10, &|_| 0.0)?;
            // elements present, none indexed
            let els: angular::Vectors = (0..3).map(|i| angular::Vector::from(vec![1.0, i as f32])).collect();
            let ix = Granne::from_bytes(&bytes, els.clone());
            genuine(&ix.search(&q, 10, 10), 0, 10, 10, &|_| 0.0)?;
            let b = GranneBuilder::new(BuildConfig::default(), els);
            genuine(&b.get_index().search(&q, 10, 10), 0, 10, 10, &|_| 0.0)?;
            Ok(())
        },
    );
    large(c, false);
}
