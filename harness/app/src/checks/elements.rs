//! E01 - E05: element types.
use super::Check;
use crate::fw::{guard, Ctx, Res};
use crate::util::*;
use granne::embeddings::SumEmbeddings;
use granne::*;
use ordered_float::NotNan;
use std::borrow::Cow;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            name: "E01",
            level: "exploration",
            rule: "a case is one vector (or one coordinate of one dimension) compared with every other of the enumeration; distinct non-trivial cases are distinct non-zero vectors",
            bound: |t| format!("all pairs of vectors over 5 coordinate values in dimensions 1..={}, in 5 scales; every coordinate of every dimension up to {} and around 256, 300 and 1000; every pair of coordinates of dimensions up to 70; {} coordinates of dimensions up to 1048577", t.pick(3, 4), t.pick(140, 300), t.pick(600, 4000)),
            assumptions: &["squared lengths between 1e-30 and 1e36", "the code path for this processor (AVX2 and FMA) only"],
            jobs: |_| 16,
            run: only!("E01", e01),
        },
        Check {
            name: "E02",
            level: "exploration",
            rule: "a case is one vector quantized, or one pair of integer vectors; distinct non-trivial cases are distinct non-zero vectors",
            bound: |t| format!("all vectors over 19 extreme coordinate values in dimensions 1..=3, all fractions i/j up to {}; all pairs of integers in dimension 1, all pairs of vectors over 7 integers in dimensions 2 and 3, every coordinate of every dimension up to {}, dimensions up to 100000 at the extremes", t.pick(300, 800), t.pick(140, 300)),
            assumptions: &["the code path for this processor (AVX2) only"],
            jobs: |_| 16,
            run: only!("E02", e02),
        },
        Check {
            name: "E03",
            level: "exploration",
            rule: "a case is one collection in one kind of container, all ways of getting a distance compared for every pair and every batch; distinct non-trivial cases are distinct collections with at least two elements",
            bound: |_| "all collections of up to 3 vectors over 8 vectors, as angular, angular_int and SumEmbeddings containers, vectors and slices of elements, user elements, and references to each; every batch of up to 3 indexes; collections of 70 vectors of dimensions around 32 and 64; batches of every length up to 130 and up to 4097; collections of up to 66000".into(),
            assumptions: &[],
            jobs: |_| 16,
            run: only!("E03", e03),
        },
        Check {
            name: "E04",
            level: "exploration",
            rule: "a case is one sequence of operations on a vector collection compared with a list after every operation; distinct non-trivial cases are distinct sequences of at least two operations",
            bound: |t| format!("all sequences of up to {} of 13 operations, for float and integer vectors of dimension 1, 2, 3 and 33; all permutations of up to {} vectors, eleven structured ones of up to 1048577", t.pick(4, 5), t.pick(7, 8)),
            assumptions: &[],
            jobs: |_| 16,
            run: only!("E04", e04),
        },
        Check {
            name: "E05",
            level: "exploration",
            rule: "a case is one sequence of operations on sums of embeddings compared with a list after every operation, or one term list; distinct non-trivial cases are distinct sequences of at least two operations and distinct term lists",
            bound: |t| format!("all sequences of up to {} of 9 operations; all term lists of up to {} terms over 5 embeddings in 5 dimensions; all lists of up to 3 of 11 boundary ids; all permutations of up to {} elements, eleven structured ones of up to 1048577, one of 4000401; lists of up to 70000 terms, 17 million terms in total, up to 2^24 embeddings, dimensions up to 65537", t.pick(4, 5), t.pick(4, 6), t.pick(6, 7)),
            assumptions: &[],
            jobs: |_| 16,
            run: only!("E05", e05),
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// E01

fn len64(x: &[f32]) -> f64 {
    x.iter().map(|&a| a as f64 * a as f64).sum::<f64>().sqrt()
}
fn cos64(x: &[f32], y: &[f32]) -> f64 {
    let d: f64 = x.iter().zip(y).map(|(&a, &b)| a as f64 * b as f64).sum();
    d / (len64(x) * len64(y))
}
/// How far rounding may take a sum over a dimension.
fn tol(dim: usize) -> f64 {
    1e-6 + dim as f64 * 2.5e-8
}

/// A vector made from x must have its direction and unit length.
fn check_made(x: &[f32], v: &angular::Vector) -> Res {
    if v.len() != x.len() || v.as_slice().len() != x.len() {
        return Err(format!("dimension {} instead of {}", v.len(), x.len()));
    }
    let l = len64(x);
    if l == 0.0 {
        if v.as_slice().iter().any(|&a| a != 0.0) {
            return Err(format!("zero became {:?}", v.as_slice()));
        }
        return Ok(());
    }
    for (i, (&a, &b)) in x.iter().zip(v.as_slice()).enumerate() {
        let w = a as f64 / l;
        if !((w - b as f64).abs() <= 1e-6 * w.abs() + 1e-7 * 0.0 + tol(x.len()) * w.abs()) {
            return Err(format!("coordinate {} of {:?} is {} instead of {}", i, &x[..x.len().min(8)], b, w));
        }
    }
    if (len64(v.as_slice()) - 1.0).abs() > tol(x.len()) {
        return Err(format!("length {}", len64(v.as_slice())));
    }
    Ok(())
}
fn check_angular(x: &[f32], y: &[f32], vx: &angular::Vector, vy: &angular::Vector) -> Res {
    let d = vx.dist(vy).into_inner();
    let zero = len64(x) == 0.0 || len64(y) == 0.0;
    let want = if zero { 1.0 } else { 1.0 - cos64(x, y) };
    let e = |m: &str| Err(format!("distance of {:?} and {:?}: {} ({}, expected {})", &x[..x.len().min(8)], &y[..y.len().min(8)], d, m, want));
    if !(d >= 0.0) || !d.is_finite() {
        return e("not a non-negative number");
    }
    if (d as f64 - want).abs() > 2.0 * tol(x.len()) || d as f64 > 2.0 + tol(x.len()) {
        return e("wrong");
    }
    if zero && d != 1.0 {
        return e("not one to a zero vector");
    }
    let b = vy.dist(vx).into_inner();
    if (d as f64 - b as f64).abs() > 2e-7 {
        return Err(format!("distance of {:?} and {:?} is {} one way and {} the other", x, y, d, b));
    }
    Ok(())
}

const SCALES: [f32; 5] = [1.0, 1e-10, 0.003, 7.0, 1e12];
const COORDS: [f32; 5] = [0.0, 1.0, -2.0, 0.5, -0.3];

fn e01(c: &mut Ctx) {
    for dim in 1..=c.tier.pick(3, 4) {
        let all: Vec<Vec<f32>> = (0..5usize.pow(dim as u32)).map(|x| digits(x, 5, dim).iter().map(|&k| COORDS[k]).collect()).collect();
        let made: Vec<Vec<angular::Vector>> = all.iter().map(|x| SCALES.iter().map(|s| x.iter().map(|a| a * s).collect()).collect()).collect();
        for i in (c.job..all.len()).step_by(16) {
            c.case(
                || format!("dimension {}, {:?} against all others", dim, all[i]),
                |c| {
                    for (k, s) in SCALES.iter().enumerate() {
                        let x: Vec<f32> = all[i].iter().map(|a| a * s).collect();
                        check_made(&x, &made[i][k])?;
                        check_made(&x, &angular::Vector::from(x.clone()))?;
                        check_made(&x, &x.iter().copied().collect::<angular::Vector>())?;
                    }
                    for j in 0..all.len() {
                        for (k, l) in [(0, 0), (1, 0), (2, 3), (4, 1), (4, 4)] {
                            check_angular(&all[i], &all[j], &made[i][k], &made[j][l])?;
                        }
                        c.count("distances", 5);
                    }
                    if len64(&all[i]) > 0.0 {
                        let d = made[i][0].dist(&made[i][4]).into_inner();
                        if d as f64 > tol(dim) {
                            return Err(format!("distance {} to a multiple of itself", d));
                        }
                        c.distinct(hash_str(&format!("{:?}", all[i])));
                    }
                    Ok(())
                },
            );
        }
    }
    // every coordinate counts once, whatever the dimension
    let mut dims: Vec<usize> = (1..=c.tier.pick(140, 300)).collect();
    dims.extend([255, 256, 257, 300, 511, 1000, 1023, 1024, 1025]);
    if c.tier.thorough() {
        dims.extend([2047, 2048, 2049, 4096]);
    }
    dims.sort();
    dims.dedup();
    for (k, &dim) in dims.iter().enumerate() {
        if k % 16 != c.job {
            continue;
        }
        c.case(
            || format!("every coordinate in dimension {}", dim),
            |c| {
                let ramp: Vec<f32> = (0..dim).map(|i| 1.0 + i as f32 * if i % 2 == 0 { 0.37 } else { -0.53 }).collect();
                let ones = vec![-3.0f32; dim];
                let (vr, vo) = (angular::Vector::from(ramp.clone()), angular::Vector::from(ones.clone()));
                check_made(&ramp, &vr)?;
                check_made(&ones, &vo)?;
                check_angular(&ramp, &ones, &vr, &vo)?;
                check_angular(&ramp, &ramp, &vr, &vr)?;
                let neg: Vec<f32> = ramp.iter().map(|x| -5.0 * x).collect();
                check_angular(&ramp, &neg, &vr, &angular::Vector::from(neg.clone()))?;
                let z = vec![0.0f32; dim];
                check_angular(&z, &ramp, &angular::Vector::from(z.clone()), &vr)?;
                check_angular(&z, &z, &angular::Vector::from(z.clone()), &angular::Vector::from(z.clone()))?;
                let unit = |i: usize| {
                    let mut u = vec![0.0f32; dim];
                    u[i] = if i % 2 == 0 { 4.0 } else { -0.25 };
                    u
                };
                let us: Vec<Vec<f32>> = (0..dim).map(unit).collect();
                let vs: Vec<angular::Vector> = us.iter().map(|u| angular::Vector::from(u.clone())).collect();
                for i in 0..dim {
                    check_made(&us[i], &vs[i])?;
                    check_angular(&us[i], &us[i], &vs[i], &vs[i])?;
                    check_angular(&us[i], &ramp, &vs[i], &vr)?;
                    check_angular(&us[i], &ones, &vs[i], &vo)?;
                    // all but one coordinate
                    let mut w = ramp.clone();
                    w[i] = 0.0;
                    let vw = angular::Vector::from(w.clone());
                    check_made(&w, &vw)?;
                    if dim > 1 {
                        check_angular(&w, &ramp, &vw, &vr)?;
                    }
                    check_angular(&us[i], &w, &vs[i], &vw)?;
                    if dim <= 70 {
                        for j in 0..dim {
                            check_angular(&us[i], &us[j], &vs[i], &vs[j])?;
                        }
                    }
                }
                c.count("distances", 4 * dim as u64);
                c.distinct(dim as u64);
                Ok(())
            },
        );
    }
    // large dimensions: one coordinate against itself, its opposite and all others
    for (k, dim) in [2048usize, 4097, 16_385, 65_535, 65_536, 65_537, 131_073, 1_048_577].into_iter().enumerate() {
        if k + 8 != c.job {
            continue;
        }
        c.case(
            || format!("coordinates in dimension {}", dim),
            |c| {
                let spread: Vec<f32> = (0..dim).map(|i| if i % 3 == 0 { 2.0 } else { -1.0 }).collect();
                let vs = angular::Vector::from(spread.clone());
                check_made(&spread, &vs)?;
                check_angular(&spread, &spread, &vs, &vs)?;
                let step = c.tier.pick(dim / 500, dim / 4000).max(1);
                for i in (0..dim).filter(|&i| i < 70 || i + 70 > dim || i % step == 0 || i.is_power_of_two() || (i + 1).is_power_of_two()) {
                    if i % 64 == 0 {
                        crate::fw::beat();
                    }
                    let mut u = vec![0.0f32; dim];
                    u[i] = if i % 2 == 0 { 4.0 } else { -0.25 };
                    let vu = angular::Vector::from(u.clone());
                    check_made(&u, &vu)?;
                    check_angular(&u, &u, &vu, &vu)?;
                    // two coordinates against one
                    let mut w = u.clone();
                    w[(i + dim / 2) % dim] = -u[i];
                    let vw = angular::Vector::from(w.clone());
                    check_made(&w, &vw)?;
                    check_angular(&u, &w, &vu, &vw)?;
                    check_angular(&w, &w, &vw, &vw)?;
                    check_angular(&u, &spread, &vu, &vs)?;
                    c.count("distances", 4);
                }
                c.distinct(dim as u64);
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------------------------------------
// E02

fn check_quantized(x: &[f32]) -> Res {
    let v = angular_int::Vector::from(x.to_vec());
    let w: angular_int::Vector = x.iter().copied().collect();
    if v.as_slice() != w.as_slice() || v.len() != x.len() {
        return Err(format!("{:?} becomes {:?} and {:?}", x, v.as_slice(), w.as_slice()));
    }
    let max = x.iter().fold(0.0f32, |m, a| m.max(a.abs())) as f64;
    for (i, (&a, &q)) in x.iter().zip(v.as_slice()).enumerate() {
        let e = |m: &str| Err(format!("coordinate {} of {:?}: {} ({})", i, &x[..x.len().min(8)], q, m));
        let q = q as f64;
        if max == 0.0 {
            if q != 0.0 {
                return e("not zero");
            }
            continue;
        }
        let t = a as f64 / max * 127.0;
        if a.abs() as f64 == max && q != t {
            return e("not the extreme value");
        }
        if q * t < 0.0 {
            return e("other sign");
        }
        // proportional, within one step, not past it
        if q.abs() > t.abs() + 1e-4 || q.abs() < t.abs() - 1.0 - 1e-4 {
            return Err(format!("coordinate {} of {:?}: {} for {}", i, &x[..x.len().min(8)], q, t));
        }
    }
    Ok(())
}
fn check_int(x: &[i8], y: &[i8]) -> Res {
    let (vx, vy) = (angular_int::Vector(Cow::Borrowed(x)), angular_int::Vector(Cow::Borrowed(y)));
    let d = vx.dist(&vy).into_inner();
    let dot = |a: &[i8], b: &[i8]| a.iter().zip(b).map(|(&a, &b)| a as i64 * b as i64).sum::<i64>() as f64;
    let (r, nx, ny) = (dot(x, y), dot(x, x), dot(y, y));
    let zero = nx == 0.0 || ny == 0.0;
    let want = if zero { 1.0 } else { 1.0 - r / (nx.sqrt() * ny.sqrt()) };
    let e = |m: &str| Err(format!("distance of {:?} and {:?} (dimension {}): {} ({}, expected {})", &x[..x.len().min(8)], &y[..y.len().min(8)], x.len(), d, m, want));
    if !(d >= 0.0) || !d.is_finite() {
        return e("not a non-negative number");
    }
    if (d as f64 - want).abs() > 1e-6 || d > 2.000001 {
        return e("wrong");
    }
    if zero && d != 1.0 {
        return e("not one to a zero vector");
    }
    if (vy.dist(&vx).into_inner() - d).abs() > 2e-7 {
        return e("not symmetric");
    }
    Ok(())
}

fn e02(c: &mut Ctx) {
    let vals: [f32; 19] = [
        0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.9999999, -0.33333334, 126.99999, 127.0, -128.0, 1e-3, 1e-45, -1e-44, 1.2e-38, 1e36, -2.5e36, 3.4e38, -3.3e38,
    ];
    for dim in 1..=3 {
        for x in (c.job..19usize.pow(dim as u32)).step_by(16) {
            let v: Vec<f32> = digits(x, 19, dim).iter().map(|&k| vals[k]).collect();
            c.case(
                || format!("quantizing {:?}", v),
                |c| {
                    check_quantized(&v)?;
                    if v.iter().any(|&a| a != 0.0) {
                        c.distinct(hash_str(&format!("{:?}", v)));
                    }
                    Ok(())
                },
            );
        }
    }
    let top = c.tier.pick(300, 800);
    for j in 1..=top {
        if j % 16 != c.job {
            continue;
        }
        c.case(
            || format!("quantizing fractions of {}", j),
            |c| {
                for i in 0..=j {
                    for s in [1.0f32, 1e-20, 0.1, 3e30] {
                        check_quantized(&[j as f32 * s, i as f32 * s, -(i as f32) * s])?;
                    }
                    // multiples of a step must come back exactly
                    let m = j as f32 * 0.25;
                    let v: Vec<f32> = (0..=127).map(|k| k as f32 * m).collect();
                    if i == 0 {
                        let q = angular_int::Vector::from(v.clone());
                        for (k, &a) in q.as_slice().iter().enumerate() {
                            if a as usize != k {
                                return Err(format!("{} steps of {} become {}", k, m, a));
                            }
                        }
                    }
                }
                c.count("vectors", 4 * j as u64);
                c.distinct(j as u64);
                Ok(())
            },
        );
    }
    // distances
    for a in -128..=127i32 {
        if (a + 128) as usize % 16 != c.job {
            continue;
        }
        c.case(
            || format!("distances of [{}]", a),
            |c| {
                for b in -128..=127i32 {
                    check_int(&[a as i8], &[b as i8])?;
                    check_int(&[a as i8, b as i8], &[b as i8, a as i8])?;
                    check_int(&[a as i8, 1, b as i8], &[127, b as i8, -128])?;
                }
                c.count("distances", 3 * 256);
                c.distinct(hash_str(&format!("[{}]", a)));
                Ok(())
            },
        );
    }
    let few: [i8; 7] = [0, 1, -1, 5, 127, -127, -128];
    for dim in 2..=3 {
        let all: Vec<Vec<i8>> = (0..7usize.pow(dim as u32)).map(|x| digits(x, 7, dim).iter().map(|&k| few[k]).collect()).collect();
        for i in (c.job..all.len()).step_by(16) {
            c.case(
                || format!("distances of {:?}", all[i]),
                |c| {
                    for y in &all {
                        check_int(&all[i], y)?;
                    }
                    c.count("distances", all.len() as u64);
                    c.distinct(hash_str(&format!("{:?}", all[i])));
                    Ok(())
                },
            );
        }
    }
    let mut dims: Vec<usize> = (0..=c.tier.pick(140, 300)).collect();
    dims.extend([255, 256, 257, 300, 1000, 4096, 33_000, 66_000, 100_000]);
    dims.sort();
    dims.dedup();
    for (k, &dim) in dims.iter().enumerate() {
        if k % 16 != c.job {
            continue;
        }
        c.case(
            || format!("every coordinate in dimension {}", dim),
            |c| {
                let ramp: Vec<i8> = (0..dim).map(|i| (i * 37 % 251) as u8 as i8).collect();
                let lo = vec![-128i8; dim];
                let hi = vec![127i8; dim];
                for a in [&ramp, &lo, &hi] {
                    for b in [&ramp, &lo, &hi] {
                        check_int(a, b)?;
                    }
                }
                for i in if dim <= 300 { (0..dim).collect() } else { vec![0, 31, dim - 1] } {
                    let mut u = vec![0i8; dim];
                    u[i] = if i % 2 == 0 { 127 } else { -128 };
                    let mut w = ramp.clone();
                    w[i] = w[i].wrapping_add(100);
                    check_int(&u, &ramp)?;
                    check_int(&u, &w)?;
                    check_int(&w, &ramp)?;
                    // quantizing, too
                    let f: Vec<f32> = w.iter().map(|&x| x as f32 * 0.7).collect();
                    check_quantized(&f)?;
                }
                c.distinct(dim as u64);
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------------------------------------
// E03

/// All ways to get distances must give those of `want`.
fn check_container<E: ElementContainer>(what: &str, e: &E, same: &dyn Fn(&E::Element, usize) -> bool, want: &dyn Fn(usize, usize) -> f32, others: &[E::Element], to_other: &dyn Fn(usize, usize) -> f32, batches: &[Vec<usize>]) -> Res {
    let n = e.len();
    let close = |a: f32, b: f32| (a - b).abs() <= 3e-7 * (1.0 + a.abs().max(b.abs()));
    if e.is_empty() != (n == 0) {
        return Err(format!("{}: is_empty {} with {}", what, e.is_empty(), n));
    }
    for i in 0..n {
        let x = e.get(i);
        if !same(&x, i) {
            return Err(format!("{}: get({}) is another element", what, i));
        }
        for j in 0..n {
            let w = want(i, j);
            for (how, d) in [("dist", e.dist(i, j)), ("dist_to_element", e.dist_to_element(j, &x)), ("dists", e.dists(i, &[j])[0])] {
                if !close(d.into_inner(), w) {
                    return Err(format!("{}: {} of {} and {}: {} instead of {}", what, how, i, j, d, w));
                }
            }
        }
        for (k, o) in others.iter().enumerate() {
            let d = e.dist_to_element(i, o).into_inner();
            if !close(d, to_other(i, k)) {
                return Err(format!("{}: distance of {} to another element: {} instead of {}", what, i, d, to_other(i, k)));
            }
        }
        for b in batches {
            if b.iter().any(|&j| j >= n) {
                continue;
            }
            let got = e.dists(i, b);
            if got.len() != b.len() || got.iter().zip(b).any(|(d, &j)| !close(d.into_inner(), want(i, j))) {
                return Err(format!("{}: dists({}, {:?}) = {:?}", what, i, b, got));
            }
        }
    }
    Ok(())
}

#[derive(Clone, PartialEq, Debug)]
struct Num(f32);
impl Dist<Num> for Num {
    fn dist(&self, o: &Num) -> NotNan<f32> {
        nn((self.0 - o.0).abs())
    }
}

fn all_containers(vs: &[Vec<f32>], others: &[Vec<f32>], batches: &[Vec<usize>]) -> Res {
    let n = vs.len();
    let a: Vec<angular::Vector<'static>> = vs.iter().map(|v| angular::Vector::from(v.clone())).collect();
    let ao: Vec<angular::Vector<'static>> = others.iter().map(|v| angular::Vector::from(v.clone())).collect();
    let same = |x: &angular::Vector<'static>, i: usize| floats_eq(x.as_slice(), a[i].as_slice());
    let want = |i: usize, j: usize| a[i].dist(&a[j]).into_inner();
    let too = |i: usize, k: usize| a[i].dist(&ao[k]).into_inner();
    let av: angular::Vectors = a.iter().cloned().collect();
    if av.len() != n {
        return Err("length".into());
    }
    macro_rules! on {
        ($w:expr, $e:expr, $same:expr, $want:expr, $o:expr, $too:expr) => {
            check_container($w, $e, $same, $want, $o, $too, batches)?;
            check_container(concat!("a reference to ", $w), &$e, $same, $want, $o, $too, batches)?;
        };
    }
    on!("angular::Vectors", &av, &same, &want, &ao, &too);
    let b = av.borrow();
    on!("borrowed angular::Vectors", &b, &same, &want, &ao, &too);
    on!("a vector of angular vectors", &a, &same, &want, &ao, &too);
    let sl = &a[..];
    on!("a slice of angular vectors", &sl, &same, &want, &ao, &too);
    let q: Vec<angular_int::Vector<'static>> = vs.iter().map(|v| angular_int::Vector::from(v.clone())).collect();
    let qo: Vec<angular_int::Vector<'static>> = others.iter().map(|v| angular_int::Vector::from(v.clone())).collect();
    let qs = |x: &angular_int::Vector<'static>, i: usize| x.as_slice() == q[i].as_slice();
    let qw = |i: usize, j: usize| q[i].dist(&q[j]).into_inner();
    let qt = |i: usize, k: usize| q[i].dist(&qo[k]).into_inner();
    let qv: angular_int::Vectors = q.iter().cloned().collect();
    on!("angular_int::Vectors", &qv, &qs, &qw, &qo, &qt);
    on!("a vector of angular_int vectors", &q, &qs, &qw, &qo, &qt);
    let qsl = &q[..];
    on!("a slice of angular_int vectors", &qsl, &qs, &qw, &qo, &qt);
    let u: Vec<Num> = vs.iter().map(|v| Num(v.iter().enumerate().map(|(i, x)| x * (i + 1) as f32).sum())).collect();
    let uo: Vec<Num> = others.iter().map(|v| Num(v[0])).collect();
    let us = |x: &Num, i: usize| *x == u[i];
    let uw = |i: usize, j: usize| u[i].dist(&u[j]).into_inner();
    let ut = |i: usize, k: usize| u[i].dist(&uo[k]).into_inner();
    on!("a vector of user elements", &u, &us, &uw, &uo, &ut);
    let usl = &u[..];
    on!("a slice of user elements", &usl, &us, &uw, &uo, &ut);
    // sums: element i is embedding i plus embedding 0
    let mut s = SumEmbeddings::new();
    for v in vs {
        s.push_embedding(v);
    }
    for i in 0..n {
        s.push(if i == 0 { vec![0] } else { vec![i, 0] });
    }
    let sv: Vec<angular::Vector> = (0..n).map(|i| if i == 0 { vs[0].clone() } else { vs[i].iter().zip(&vs[0]).map(|(x, y)| x + y).collect() }).map(angular::Vector::from).collect();
    let ss = |x: &angular::Vector<'static>, i: usize| x.as_slice().iter().zip(sv[i].as_slice()).all(|(a, b)| (a - b).abs() < 1e-6);
    let sw = |i: usize, j: usize| sv[i].dist(&sv[j]).into_inner();
    let st = |i: usize, k: usize| sv[i].dist(&ao[k]).into_inner();
    on!("SumEmbeddings", &s, &ss, &sw, &ao, &st);
    Ok(())
}

/// The ways agree for the elements `at` of large containers.
fn many_containers(n: usize, at: &[usize]) -> Res {
    let val = |i: usize| vec![((i * 37) % 101) as f32 - 50.5, ((i / 7 * 11) % 89) as f32 - 44.5];
    let batch: Vec<usize> = at.iter().chain(at.iter().rev()).copied().collect();
    fn go<E: ElementContainer>(what: &str, e: &E, n: usize, at: &[usize], batch: &[usize], make: &dyn Fn(usize) -> E::Element) -> Res
    where
        E::Element: Dist<E::Element>,
    {
        let close = |a: f32, b: f32| (a - b).abs() <= 3e-7 * (1.0 + a.abs().max(b.abs()));
        if e.len() != n {
            return Err(format!("{}: length {}", what, e.len()));
        }
        for &i in at {
            let x = make(i);
            for &j in at {
                let w = x.dist(&make(j)).into_inner();
                for (how, d) in [("dist", e.dist(i, j)), ("dist_to_element", e.dist_to_element(j, &x)), ("get", e.get(i).dist(&e.get(j))), ("dists", e.dists(i, &[j])[0])] {
                    if !close(d.into_inner(), w) {
                        return Err(format!("{}: {} of {} and {}: {} instead of {}", what, how, i, j, d, w));
                    }
                }
            }
            let got = e.dists(i, batch);
            if got.len() != batch.len() || got.iter().zip(batch).any(|(d, &j)| !close(d.into_inner(), x.dist(&make(j)).into_inner())) {
                return Err(format!("{}: dists({}, {:?}) = {:?}", what, i, batch, got));
            }
        }
        Ok(())
    }
    let a: Vec<angular::Vector<'static>> = (0..n).map(|i| angular::Vector::from(val(i))).collect();
    let av: angular::Vectors = a.iter().cloned().collect();
    go("angular::Vectors", &av, n, at, &batch, &|i| angular::Vector::from(val(i)))?;
    go("borrowed angular::Vectors", &av.borrow(), n, at, &batch, &|i| angular::Vector::from(val(i)))?;
    go("a vector of angular vectors", &a, n, at, &batch, &|i| angular::Vector::from(val(i)))?;
    go("a slice of angular vectors", &&a[..], n, at, &batch, &|i| angular::Vector::from(val(i)))?;
    let q: Vec<angular_int::Vector<'static>> = (0..n).map(|i| angular_int::Vector::from(val(i))).collect();
    let qv: angular_int::Vectors = q.iter().cloned().collect();
    go("angular_int::Vectors", &qv, n, at, &batch, &|i| angular_int::Vector::from(val(i)))?;
    go("a vector of angular_int vectors", &q, n, at, &batch, &|i| angular_int::Vector::from(val(i)))?;
    let u: Vec<Num> = (0..n).map(|i| Num(val(i)[0])).collect();
    go("a vector of user elements", &u, n, at, &batch, &|i| Num(val(i)[0]))?;
    let mut s = SumEmbeddings::new();
    for i in 0..n {
        s.push_embedding(&val(i));
    }
    for i in 0..n {
        s.push(vec![i, (i + 1) % n]);
    }
    go("SumEmbeddings", &s, n, at, &batch, &|i| angular::Vector::from(val(i).iter().zip(val((i + 1) % n)).map(|(x, y)| x + y).collect::<Vec<f32>>()))
}

fn e03(c: &mut Ctx) {
    let pool: [[f32; 3]; 8] = [[1.0, 0.0, 0.0], [0.0, 0.0, 0.0], [1.0, 1.0, 1.0], [-2.0, 0.5, 0.1], [0.3, -0.4, 0.0], [2.0, 0.0, 0.0], [0.0, 5.0, -5.0], [-1.0, -1.0, 3.0]];
    let mut batches = vec![vec![]];
    for len in 1..=3 {
        for x in 0..3usize.pow(len as u32) {
            batches.push(digits(x, 3, len));
        }
    }
    let others: Vec<Vec<f32>> = pool.iter().map(|p| p.to_vec()).collect();
    for len in 0..=3 {
        for x in (c.job..8usize.pow(len as u32)).step_by(16) {
            let d = digits(x, 8, len);
            c.case(
                || format!("vectors {:?} of {:?}", d, pool),
                |c| {
                    let vs: Vec<Vec<f32>> = d.iter().map(|&k| pool[k].to_vec()).collect();
                    all_containers(&vs, &others, &batches)?;
                    if len > 1 {
                        c.distinct(x as u64);
                    }
                    Ok(())
                },
            );
        }
    }
    for (k, dim) in [1usize, 2, 31, 32, 33, 63, 64, 65, 100].into_iter().enumerate() {
        if k != c.job {
            continue;
        }
        c.case(
            || format!("70 vectors of dimension {}", dim),
            |c| {
                let vs: Vec<Vec<f32>> = (0..70).map(|i| (0..dim).map(|j| ((i * 31 + j * 17 + 5) % 23) as f32 - 11.0).collect()).collect();
                let b = vec![(0..70).collect::<Vec<_>>(), (0..70).rev().collect(), (0..140).map(|i| i / 2).collect(), vec![69, 0, 69]];
                all_containers(&vs, &vs[..3], &b)?;
                c.distinct(dim as u64 + 1000);
                Ok(())
            },
        );
    }
    // batches of every length, and repeated, far and scattered indexes in them
    for (k, dim) in [1usize, 3, 33, 70].into_iter().enumerate() {
        if k + 10 != c.job {
            continue;
        }
        c.case(
            || format!("batches of up to 130 among 40 vectors of dimension {}", dim),
            |c| {
                let vs: Vec<Vec<f32>> = (0..40).map(|i| (0..dim).map(|j| ((i * 31 + j * 17 + 5) % 23) as f32 - 11.0).collect()).collect();
                let mut b: Vec<Vec<usize>> = (0..=130).map(|n| (0..n).map(|i| (i * 7 + n) % 40).collect()).collect();
                for n in [199usize, 200, 255, 256, 257, 999, 1000, 1001, 1024, 4097] {
                    b.push((0..n).map(|i| (i * 13 + i / 40 + n) % 40).collect());
                }
                all_containers(&vs, &vs[..2], &b)?;
                c.distinct(dim as u64 + 2000);
                Ok(())
            },
        );
    }
    // ids beyond one and two bytes
    if c.job >= 14 {
        let n = [300usize, 66_000][c.job - 14];
        c.case(
            || format!("{} vectors of dimension 2", n),
            |c| {
                let at: Vec<usize> = [0, 1, 127, 128, 254, 255, 256, 257, 299, 300, 32_767, 32_768, 65_535, 65_536, 65_537, 65_999].into_iter().filter(|&i| i < n).collect();
                many_containers(n, &at)?;
                c.distinct(n as u64 + 3000);
                Ok(())
            },
        );
    }
    if c.job == 9 {
        c.case(
            || "default distances of a user container".into(),
            |_| {
                let p = Pts(vec![p(0, 0), p(3, 4), DEAD, p(-1, 2), p(3, 4)]);
                let v = p.0.clone();
                let others = [crate::util::p(1, 1), DEAD];
                check_container("user container", &p, &|x, i| *x == v[i], &|i, j| v[i].d(&v[j]), &others, &|i, k| v[i].d(&others[k]), &[vec![], vec![4, 0, 0, 2], vec![1, 1]])?;
                check_container("a reference to it", &&p, &|x, i| *x == v[i], &|i, j| v[i].d(&v[j]), &others, &|i, k| v[i].d(&others[k]), &[vec![], vec![4, 0, 0, 2], vec![1, 1]])
            },
        );
    }
}

// ---------------------------------------------------------------------------------------------
// E04

/// Buffers that collections of a sequence borrow from.
struct Arena {
    bufs: Vec<(Box<Aligned>, Vec<u8>)>,
    dir: Scratch,
    files: usize,
}
impl Arena {
    fn new() -> Arena {
        Arena { bufs: vec![], dir: Scratch::new("e04"), files: 0 }
    }
    /// The returned slice must not be used after the arena has been cleared.
    fn keep(&mut self, b: Vec<u8>, a: usize) -> &'static [u8] {
        let m = Box::new(Aligned::new(&b, a));
        let s: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(m.get()) };
        self.bufs.push((m, b));
        s
    }
    fn file(&mut self, b: &[u8]) -> (std::path::PathBuf, std::fs::File) {
        self.files += 1;
        let n = format!("f{}", self.files);
        let f = file_with(&self.dir, &n, b);
        (self.dir.path(&n), f)
    }
    /// Nothing that was loaded may have changed.
    fn untouched(&self) -> Res {
        for (m, b) in &self.bufs {
            if m.get() != &b[..] {
                return Err("the bytes a collection was loaded from changed".into());
            }
        }
        Ok(())
    }
    fn clear(&mut self) {
        self.bufs.clear();
    }
}

macro_rules! vectors_ops {
    ($run:ident, $perms:ident, $many:ident, $m:ident, $t:ty) => {
        fn $run(seq: &[usize], dim: usize, ar: &mut Arena) -> Res {
            let val = |k: usize| -> Vec<$t> { (0..dim).map(|i| ((k * 13 + i * 7) % 101) as $t).collect() };
            let vect = |k: usize| $m::Vector(Cow::Owned(val(k)));
            let check = |v: &$m::Vectors, l: &[Vec<$t>], what: &str| -> Res {
                if v.len() != l.len() || (l.len() > 0 && v.dim() != dim) {
                    return Err(format!("{}: {} vectors of dimension {} instead of {}", what, v.len(), v.dim(), l.len()));
                }
                if v.as_slice() != &l.concat()[..] {
                    return Err(format!("{}: {:?} instead of {:?}", what, v.as_slice(), l));
                }
                for (i, x) in l.iter().enumerate() {
                    if v.get_element(i).as_slice() != &x[..] || ElementContainer::get(v, i).into_vec() != *x {
                        return Err(format!("{}: vector {} is {:?} instead of {:?}", what, i, v.get_element(i).as_slice(), x));
                    }
                }
                Ok(())
            };
            let mut v: $m::Vectors<'static> = $m::Vectors::new();
            let mut l: Vec<Vec<$t>> = vec![];
            // copies made on the way with what they must hold
            let mut copies: Vec<($m::Vectors<'static>, Vec<Vec<$t>>)> = vec![];
            let mut files: Vec<(std::path::PathBuf, Vec<u8>)> = vec![];
            let mut fresh = 1;
            for (step, &op) in seq.iter().enumerate() {
                let mut extend = |v: &mut $m::Vectors<'static>, l: &mut Vec<Vec<$t>>, n: usize| {
                    let more: Vec<Vec<$t>> = (0..n).map(|k| val(fresh + k)).collect();
                    fresh += n;
                    if n == 0 {
                        v.extend($m::Vectors::new());
                    } else {
                        v.extend($m::Vectors::from_vec(more.concat(), dim));
                    }
                    l.extend(more);
                };
                match op {
                    0 => {
                        v.push(&vect(fresh));
                        l.push(val(fresh));
                        fresh += 1;
                    }
                    1 => {
                        ExtendableElementContainer::push(&mut v, vect(fresh));
                        l.push(val(fresh));
                        fresh += 1;
                    }
                    2 => extend(&mut v, &mut l, 0),
                    3 => extend(&mut v, &mut l, 2),
                    4 => {
                        // rotate
                        let n = l.len();
                        let perm: Vec<usize> = (0..n).map(|i| (i + 1) % n).collect();
                        v.permute(&perm);
                        l = perm.iter().map(|&j| l[j].clone()).collect();
                    }
                    5 => {
                        let n = l.len();
                        let perm: Vec<usize> = (0..n).rev().collect();
                        v.permute(&perm);
                        l.reverse();
                    }
                    6 => copies.push((v.clone(), l.clone())),
                    7 => {
                        // go on with the copy and keep the original
                        let o = std::mem::replace(&mut v, $m::Vectors::new());
                        v = o.clone();
                        copies.push((o, l.clone()));
                    }
                    8 => {
                        let mut b = vec![];
                        v.write(&mut b).map_err(|e| e.to_string())?;
                        v = $m::Vectors::from_bytes(ar.keep(b, step * 3 % 16));
                    }
                    9 => {
                        let mut b = vec![];
                        v.write(&mut b).map_err(|e| e.to_string())?;
                        let (path, f) = ar.file(&b);
                        files.push((path, b));
                        v = unsafe { $m::Vectors::from_file(&f) }.map_err(|e| e.to_string())?;
                    }
                    10 => v = v.into_owned(),
                    11 => {
                        // change a borrowed view
                        let mut b = v.borrow();
                        let mut bl = l.clone();
                        check(&b, &bl, "borrowed")?;
                        b.push(&vect(99));
                        bl.push(val(99));
                        b.permute(&(0..bl.len()).rev().collect::<Vec<_>>());
                        bl.reverse();
                        check(&b, &bl, "changed borrowed view")?;
                        let o = b.into_owned();
                        check(&o, &bl, "copy of the borrowed view")?;
                    }
                    _ => {
                        // through a plain slice
                        if !l.is_empty() {
                            let flat = l.concat();
                            let s = $m::Vectors::from_slice(&flat, dim);
                            check(&s, &l, "from a slice")?;
                            let mut o = s.clone();
                            o.push(&vect(98));
                            check(&s, &l, "from a slice, after changing its copy")?;
                            v = s.into_owned();
                        }
                        let it: $m::Vectors = l.iter().map(|x| $m::Vector(Cow::Borrowed(&x[..]))).collect();
                        check(&it, &l, "collected")?;
                    }
                }
                check(&v, &l, &format!("after operation {} ({})", step, op))?;
                for (w, m) in &copies {
                    check(w, m, "a copy made earlier")?;
                }
            }
            ar.untouched()?;
            for (path, b) in &files {
                if std::fs::read(path).map_err(|e| format!("HARNESS: {}", e))? != *b {
                    return Err("the file a collection was loaded from changed".into());
                }
                let _ = std::fs::remove_file(path);
            }
            Ok(())
        }
        fn $many(n: usize, dim: usize) -> Res {
            let val = |i: usize| ((i * 37 + i / 127 * 5 + i / 16129 * 11) % 127) as $t;
            let mut v = $m::Vectors::new();
            for i in 0..n / 2 {
                v.push(&$m::Vector(Cow::Owned((i * dim..(i + 1) * dim).map(val).collect())));
            }
            let rest: Vec<$t> = (n / 2 * dim..n * dim).map(val).collect();
            v.extend($m::Vectors::from_vec(rest, dim));
            let same = |v: &$m::Vectors, n: usize, what: &str| -> Res {
                if v.len() != n || v.as_slice().len() != n * dim {
                    return Err(format!("{}: {} vectors instead of {}", what, v.len(), n));
                }
                match (0..n * dim).find(|&i| v.as_slice()[i] != val(i)) {
                    Some(i) => Err(format!("{}: vector {} is wrong", what, i / dim)),
                    None => (0..n).step_by(97).chain(Some(n - 1)).find(|&i| v.get_element(i).as_slice() != &v.as_slice()[i * dim..(i + 1) * dim]).map_or(Ok(()), |i| Err(format!("{}: element {}", what, i))),
                }
            };
            same(&v, n, "pushed and extended")?;
            let mut copy = v.clone();
            copy.push(&$m::Vector(Cow::Owned((n * dim..(n + 1) * dim).map(val).collect())));
            same(&copy, n + 1, "copied and pushed to")?;
            same(&v, n, "after changing a copy")?;
            let mut b = v.borrow();
            b.extend($m::Vectors::from_vec((n * dim..(n + 3) * dim).map(val).collect(), dim));
            same(&b.into_owned(), n + 3, "borrowed, extended and owned")?;
            same(&v, n, "after changing a view")
        }
        fn $perms(n: usize, dim: usize, perm: &[usize], mapped: bool, ar: &mut Arena) -> Res {
            let data: Vec<$t> = (0..n * dim).map(|i| ((i * 37 + i / 127 * 5 + i / 16129 * 11) % 127) as $t).collect();
            let mut v = $m::Vectors::from_vec(data.clone(), dim);
            if mapped {
                let mut b = vec![];
                v.write(&mut b).map_err(|e| e.to_string())?;
                v = $m::Vectors::from_bytes(ar.keep(b, 3));
            }
            v.permute(perm);
            for (i, &j) in perm.iter().enumerate() {
                if v.get_element(i).as_slice() != &data[j * dim..(j + 1) * dim] {
                    return Err(format!("permutation {:?}: position {} holds {:?} instead of the former {}", &perm[..n.min(20)], i, v.get_element(i).as_slice(), j));
                }
            }
            if v.len() != n {
                return Err("length".into());
            }
            ar.untouched()
        }
    };
}
vectors_ops!(run_f32, perm_f32, many_f32, angular, f32);
vectors_ops!(run_i8, perm_i8, many_i8, angular_int, i8);

/// Permutations of `n` with a simple description.
pub fn structured(n: usize) -> Vec<(String, Vec<usize>)> {
    let id: Vec<usize> = (0..n).collect();
    let swapped = |a: usize, b: usize| {
        let mut p = id.clone();
        p.swap(a, b);
        p
    };
    let mut v = vec![
        ("as they are".to_string(), id.clone()),
        ("reversed".into(), (0..n).rev().collect()),
        ("rotated by one".into(), (0..n).map(|i| (i + 1) % n).collect()),
        ("rotated back by one".into(), (0..n).map(|i| (i + n - 1) % n).collect()),
        ("rotated by a third".into(), (0..n).map(|i| (i + n / 3) % n).collect()),
        ("first and last swapped".into(), swapped(0, n - 1)),
        ("last two swapped".into(), swapped(n - 2, n - 1)),
        ("neighbours swapped".into(), (0..n).map(|i| if i ^ 1 < n { i ^ 1 } else { i }).collect()),
        ("halves interleaved".into(), (0..n).map(|i| if i % 2 == 0 { i / 2 } else { (n + 1) / 2 + i / 2 }).collect()),
    ];
    for step in [7919usize, 20_011] {
        if n % step != 0 {
            v.push((format!("in steps of {}", step), (0..n).map(|i| (i * step + 3) % n).collect()));
        }
    }
    v
}

fn e04(c: &mut Ctx) {
    const OPS: usize = 13;
    let depth = c.tier.pick(4, 5);
    let mut ar = Arena::new();
    for len in 1..=depth {
        for x in (c.job..OPS.pow(len as u32)).step_by(16) {
            let seq = digits(x, OPS, len);
            for dim in if len <= 3 { vec![1usize, 2, 3, 33] } else { vec![2 + x % 2] } {
                c.case(
                    || format!("operations {:?}, dimension {}", seq, dim),
                    |c| {
                        run_f32(&seq, dim, &mut ar).map_err(|e| format!("angular: {}", e))?;
                        run_i8(&seq, dim, &mut ar).map_err(|e| format!("angular_int: {}", e))?;
                        if len > 1 {
                            c.distinct(mcsched::mix(x as u64, len as u64));
                        }
                        Ok(())
                    },
                );
                ar.clear();
            }
        }
    }
    for n in 1..=c.tier.pick(7usize, 8) {
        for (k, perm) in permutations(n).iter().enumerate() {
            if k % 16 != c.job {
                continue;
            }
            c.case(
                || format!("permutation {:?}", perm),
                |c| {
                    for dim in [1, 3] {
                        perm_f32(n, dim, perm, k % 2 == 1, &mut ar)?;
                        perm_i8(n, dim, perm, k % 2 == 0, &mut ar)?;
                    }
                    c.distinct(hash_str(&format!("{:?}", perm)));
                    Ok(())
                },
            );
            ar.clear();
        }
    }
    // larger ones, in every structured way
    for (k, n) in [61usize, 100, 128, 255, 256, 257, 1000, 4097, 9_999, 10_000, 10_001, 20_001, 32_769, 65_535, 65_536, 65_537, 70_001, 262_145, 1_048_577].into_iter().enumerate() {
        if k % 16 != c.job {
            continue;
        }
        for (what, perm) in structured(n) {
            c.case(
                || format!("permuting {} vectors: {}", n, what),
                |c| {
                    for (dim, rev) in [(1usize, false), (3, true), (2, false)] {
                        mcsched::set_uncontrolled_reverse(rev);
                        let r = perm_f32(n, dim, &perm, dim == 2, &mut ar).and_then(|_| perm_i8(n, dim, &perm, dim == 1, &mut ar));
                        mcsched::set_uncontrolled_reverse(false);
                        r?;
                    }
                    c.distinct(hash_str(&format!("{} {}", n, what)));
                    Ok(())
                },
            );
            ar.clear();
        }
        c.case(
            || format!("{} vectors pushed, extended, copied and changed", n),
            |c| {
                many_f32(n, 2)?;
                many_i8(n, 2)?;
                c.distinct(n as u64 + 99_000_000);
                Ok(())
            },
        );
    }
    if c.job == 0 {
        c.case(
            || "vectors of another dimension are refused".into(),
            |_| {
                let mut v = angular::Vectors::new();
                v.push(&angular::Vector::from(vec![1.0, 0.0]));
                for bad in [vec![1.0], vec![1.0, 0.0, 0.0], vec![]] {
                    if guard(|| v.push(&angular::Vector::from(bad.clone()))).is_ok() {
                        return Err(format!("a vector of dimension {} was accepted", bad.len()));
                    }
                }
                if guard(|| v.extend(angular::Vectors::from_vec(vec![1.0; 3], 3))).is_ok() {
                    return Err("a collection of dimension 3 was accepted".into());
                }
                if v.len() != 1 || v.as_slice() != &[1.0, 0.0][..] {
                    return Err("a refused vector changed the collection".into());
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------------------------------------
// E05

/// Integer valued embeddings: sums are exact.
fn embedding(k: usize, dim: usize) -> Vec<f32> {
    (0..dim).map(|i| (((k + 1) * 7 + i * 5) % 19) as f32 - 9.0).collect()
}

fn check_sums(s: &SumEmbeddings, emb: &[Vec<f32>], l: &[Vec<usize>], dim: usize) -> Res {
    if s.len() != l.len() || ElementContainer::len(s) != l.len() || s.num_embeddings() != emb.len() {
        return Err(format!("{} elements, {} embeddings instead of {}, {}", s.len(), s.num_embeddings(), l.len(), emb.len()));
    }
    for (k, e) in emb.iter().enumerate() {
        if s.create_embedding(&[k]) != *e {
            return Err(format!("embedding {} is {:?}", k, s.create_embedding(&[k])));
        }
    }
    for (i, t) in l.iter().enumerate() {
        if s.get_terms(i) != *t {
            return Err(format!("terms of {} are {:?} instead of {:?}", i, s.get_terms(i), t));
        }
        if t.iter().any(|&k| k >= emb.len()) {
            continue;
        }
        let mut want = vec![0.0f32; if emb.is_empty() { 0 } else { dim }];
        for &k in t {
            for (a, b) in want.iter_mut().zip(&emb[k]) {
                *a += b;
            }
        }
        let got = s.get_embedding(i);
        if got != want || s.create_embedding(t) != want {
            return Err(format!("vector of {:?} is {:?} / {:?} instead of {:?}", t, got, s.create_embedding(t), want));
        }
        let v = ElementContainer::get(s, i);
        check_made(&want, &v).map_err(|e| format!("element {:?}: {}", t, e))?;
    }
    Ok(())
}

/// The same with short messages.
fn check_sums_of(s: &SumEmbeddings, emb: &[Vec<f32>], l: &[Vec<usize>], dim: usize) -> Res {
    check_sums(s, emb, l, dim).map_err(|e| e.chars().take(400).collect())
}

fn e05(c: &mut Ctx) {
    let dirs = Scratch::new("e05");
    // operation sequences
    const OPS: usize = 9;
    let depth = c.tier.pick(4, 5);
    for len in 1..=depth {
        for x in (c.job..OPS.pow(len as u32)).step_by(16) {
            let seq = digits(x, OPS, len);
            for start in [0, 2] {
                c.case(
                    || format!("operations {:?} starting with {} embeddings", seq, start),
                    |c| {
                        let dim = 3;
                        let mut s: SumEmbeddings<'static> = SumEmbeddings::new();
                        let mut emb: Vec<Vec<f32>> = vec![];
                        let mut l: Vec<Vec<usize>> = vec![];
                        let mut copies: Vec<(SumEmbeddings<'static>, Vec<Vec<f32>>, Vec<Vec<usize>>)> = vec![];
                        for k in 0..start {
                            emb.push(embedding(k, dim));
                            s.push_embedding(&emb[k]);
                        }
                        for &op in &seq {
                            match op {
                                0 => {
                                    emb.push(embedding(emb.len(), dim));
                                    s.push_embedding(emb.last().unwrap());
                                }
                                1 => {
                                    s.push(Vec::<usize>::new());
                                    l.push(vec![]);
                                }
                                2 => {
                                    s.push([1usize]);
                                    l.push(vec![1]);
                                }
                                3 => {
                                    let t = vec![l.len() % 3, 0, 0];
                                    ExtendableElementContainer::push(&mut s, t.clone());
                                    l.push(t);
                                }
                                4 => {
                                    let n = l.len();
                                    let p: Vec<usize> = (0..n).map(|i| (i + 1) % n).collect();
                                    s.permute(&p);
                                    l = p.iter().map(|&j| l[j].clone()).collect();
                                }
                                5 => {
                                    s.permute(&(0..l.len()).rev().collect::<Vec<_>>());
                                    l.reverse();
                                }
                                6 => {
                                    copies.push((s.clone(), emb.clone(), l.clone()));
                                }
                                7 => {
                                    let (mut e, mut t) = (vec![], vec![]);
                                    s.write_embeddings(&mut e).map_err(|e| e.to_string())?;
                                    s.write(&mut t).map_err(|e| e.to_string())?;
                                    let (fe, ft) = (file_with(&dirs, "e", &e), file_with(&dirs, "t", &t));
                                    s = unsafe { SumEmbeddings::from_files(&fe, Some(&ft)) }.map_err(|e| e.to_string())?;
                                    // replace the files by new ones, not their contents
                                    let _ = std::fs::remove_file(dirs.path("e"));
                                    let _ = std::fs::remove_file(dirs.path("t"));
                                }
                                _ => {
                                    let mut b = s.borrow();
                                    check_sums(&b, &emb, &l, dim).map_err(|e| format!("borrowed: {}", e))?;
                                    b.push([0usize, 1]);
                                    let mut bl = l.clone();
                                    bl.push(vec![0, 1]);
                                    check_sums(&b, &emb, &bl, dim).map_err(|e| format!("changed borrowed view: {}", e))?;
                                }
                            }
                            check_sums(&s, &emb, &l, dim)?;
                            for (cs, ce, cl) in &copies {
                                check_sums(cs, ce, cl, dim).map_err(|e| format!("a copy made earlier: {}", e))?;
                            }
                        }
                        if len > 1 {
                            c.distinct(mcsched::mix(x as u64, (len * 3 + start) as u64));
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // term lists
    for (k, dim) in [1usize, 2, 31, 33, 64].into_iter().enumerate() {
        let top = c.tier.pick(4, 6);
        for len in 0..=top {
            for x in (c.job..5usize.pow(len as u32)).step_by(16) {
                let t = digits(x, 5, len);
                c.case(
                    || format!("terms {:?}, dimension {}", t, dim),
                    |c| {
                        let emb: Vec<Vec<f32>> = (0..5).map(|k| embedding(k, dim)).collect();
                        let mut s = SumEmbeddings::new();
                        for e in &emb {
                            s.push_embedding(e);
                        }
                        let l = vec![t.clone(), vec![], t.clone(), vec![4]];
                        for t in &l {
                            s.push(t.clone());
                        }
                        check_sums(&s, &emb, &l, dim)?;
                        if len > 0 {
                            c.distinct(mcsched::mix(x as u64, (len * 8 + k) as u64));
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    let ids = [0usize, 1, 254, 255, 256, 257, 65535, 65536, 65537, (1 << 24) - 2, (1 << 24) - 1];
    for len in 0..=3 {
        for x in (c.job..11usize.pow(len as u32)).step_by(16) {
            let t: Vec<usize> = digits(x, 11, len).iter().map(|&k| ids[k]).collect();
            c.case(
                || format!("ids {:?}", t),
                |c| {
                    let mut s = SumEmbeddings::new();
                    let l = vec![t.clone(), vec![3], t.clone()];
                    for t in &l {
                        s.push(t.clone());
                    }
                    s.permute(&[2, 0, 1]);
                    let l = vec![l[2].clone(), l[0].clone(), l[1].clone()];
                    check_sums(&s, &[], &l, 0)?;
                    if len > 0 {
                        c.distinct(mcsched::mix(x as u64, (len + 100) as u64));
                    }
                    Ok(())
                },
            );
        }
    }
    // long term lists, many embeddings, other dimensions
    for (k, (terms, embs, dim)) in [
        (5usize, 300usize, 3usize), (8, 70_000, 2), (9, 20, 65), (16, 257, 2), (17, 40, 5), (31, 7, 32), (32, 7, 33), (33, 5, 96), (63, 30, 2), (64, 30, 100), (65, 30, 3), (100, 3, 128),
        (127, 9, 2), (128, 9, 2), (129, 9, 2), (255, 256, 1), (256, 5, 256), (257, 5, 257), (20, 6, 1000), (10, 4, 4097), (5, 3, 65_537), (1000, 1000, 2), (9_999, 3, 2), (10_001, 3, 2), (21_845, 9, 1), (21_846, 9, 1), (65_535, 4, 2), (65_536, 4, 1), (65_537, 4, 1), (70_000, 66_000, 1),
    ].into_iter().enumerate() {
        if k % 16 != c.job {
            continue;
        }
        c.case(
            || format!("lists of about {} terms, {} embeddings of dimension {}", terms, embs, dim),
            |c| {
                // small integers: exact in any order of summation
                let emb: Vec<Vec<f32>> = (0..embs).map(|k| embedding(k, dim)).collect();
                let mut s = SumEmbeddings::new();
                for e in &emb {
                    s.push_embedding(e);
                }
                let list = |n: usize, a: usize| -> Vec<usize> { (0..n).map(|i| (i * 7 + a + i / embs) % embs).collect() };
                let mut l = vec![list(terms, 0), vec![], list(terms + 1, 1), list(1, embs - 1), list(terms - 1, embs / 2)];
                for t in &l {
                    s.push(t.clone());
                }
                check_sums_of(&s, &emb, &l, dim)?;
                s.permute(&[4, 1, 3, 0, 2]);
                l = [4, 1, 3, 0, 2].iter().map(|&i| l[i].clone()).collect();
                check_sums_of(&s, &emb, &l, dim)?;
                let (mut e, mut t) = (vec![], vec![]);
                s.write_embeddings(&mut e).map_err(|e| e.to_string())?;
                s.write(&mut t).map_err(|e| e.to_string())?;
                let (fe, ft) = (file_with(&dirs, "e", &e), file_with(&dirs, "t", &t));
                let s = unsafe { SumEmbeddings::from_files(&fe, Some(&ft)) }.map_err(|e| e.to_string())?;
                check_sums_of(&s, &emb, &l, dim).map_err(|e| format!("loaded: {}", e))?;
                let _ = std::fs::remove_file(dirs.path("e"));
                let _ = std::fs::remove_file(dirs.path("t"));
                c.distinct(88_000_000 + k as u64);
                Ok(())
            },
        );
    }
    // as many embeddings as ids can name
    if c.job == 11 {
        c.case(|| "2^24 embeddings".into(), |c| {
            let value = |t: usize| (t % 1009) as f32 - 504.0;
            let mut s = SumEmbeddings::new();
            for t in 0..1usize << 24 {
                s.push_embedding(&[value(t)]);
            }
            let ids: Vec<usize> = [0usize, 1, 255, 256, 65_535, 65_536, (1 << 20) - 1, 1 << 20, (1 << 22) + 3, (1 << 23) - 1, 1 << 23, (1 << 24) - 2, (1 << 24) - 1].to_vec();
            let mut lists: Vec<Vec<usize>> = vec![vec![]];
            for &a in &ids {
                lists.push(vec![a]);
                for &b in &ids {
                    lists.push(vec![a, b]);
                    lists.push(vec![a, b, a]);
                }
            }
            lists.push(ids.clone());
            for l in &lists {
                s.push(l);
            }
            let (mut e, mut t) = (vec![], vec![]);
            s.write_embeddings(&mut e).map_err(|e| e.to_string())?;
            s.write(&mut t).map_err(|e| e.to_string())?;
            crate::fw::beat();
            let (fe, ft) = (file_with(&dirs, "e", &e), file_with(&dirs, "t", &t));
            drop(e);
            let loaded = unsafe { SumEmbeddings::from_files(&fe, Some(&ft)) }.map_err(|e| e.to_string())?;
            for (what, s) in [("pushed", &s), ("loaded", &loaded)] {
                if s.num_embeddings() != 1 << 24 || s.len() != lists.len() {
                    return Err(format!("{}: {} embeddings, {} elements", what, s.num_embeddings(), s.len()));
                }
                for (i, l) in lists.iter().enumerate() {
                    let want: f32 = l.iter().map(|&t| value(t)).sum();
                    if s.get_terms(i) != *l || s.get_embedding(i) != [want] || s.create_embedding(l) != [want] {
                        return Err(format!("{}: element {:?} comes back as {:?} with the sum {:?} or {:?} instead of {}", what, l, s.get_terms(i), s.get_embedding(i), s.create_embedding(l), want));
                    }
                }
            }
            let _ = std::fs::remove_file(dirs.path("e"));
            let _ = std::fs::remove_file(dirs.path("t"));
            c.distinct(1 << 24);
            Ok(())
        });
    }
    // more terms in total than three bytes count
    if c.job == 7 {
        c.case(|| "17 million terms".into(), |c| {
            let lens: Vec<usize> = vec![60_000; 200].into_iter().chain([1 << 20, 0, (1 << 24) - 12_000_000 - (1 << 20) - 1, 1, 1, 5, 0, 65_537]).collect();
            let list = |i: usize| -> Vec<usize> { (0..lens[i]).map(|j| (j * 251 + i * 65_537) % (1 << 24)).collect() };
            let mut s = SumEmbeddings::new();
            s.push_embedding(&[1.0]);
            for i in 0..lens.len() {
                s.push(list(i));
            }
            let same = |s: &SumEmbeddings, order: &[usize], what: &str| -> Res {
                crate::fw::beat();
                if s.len() != order.len() {
                    return Err(format!("{}: {} elements instead of {}", what, s.len(), order.len()));
                }
                match order.iter().enumerate().find(|&(i, &j)| s.get_terms(i) != list(j)) {
                    Some((i, _)) => Err(format!("{}: element {} has other terms", what, i)),
                    None => Ok(()),
                }
            };
            let mut order: Vec<usize> = (0..lens.len()).collect();
            same(&s, &order, "pushed")?;
            same(&s.borrow(), &order, "borrowed")?;
            s.permute(&order.iter().rev().copied().collect::<Vec<_>>());
            order.reverse();
            same(&s, &order, "permuted")?;
            let (mut e, mut t) = (vec![], vec![]);
            s.write_embeddings(&mut e).map_err(|e| e.to_string())?;
            s.write(&mut t).map_err(|e| e.to_string())?;
            let (fe, ft) = (file_with(&dirs, "e", &e), file_with(&dirs, "t", &t));
            let mut s = unsafe { SumEmbeddings::from_files(&fe, Some(&ft)) }.map_err(|e| e.to_string())?;
            let _ = std::fs::remove_file(dirs.path("e"));
            let _ = std::fs::remove_file(dirs.path("t"));
            same(&s, &order, "loaded")?;
            s.push(list(3));
            order.push(3);
            same(&s, &order, "loaded and pushed to")?;
            c.distinct(17_000_000);
            Ok(())
        });
    }
    // permutations
    let mk = |n: usize| -> Vec<Vec<usize>> { (0..n).map(|i| (0..(i * 5 + 1) % 4).map(|k| (i * 7 + k) % 300).collect()).collect() };
    let fill = |l: &[Vec<usize>]| {
        let mut s = SumEmbeddings::new();
        for t in l {
            s.push(t.clone());
        }
        s
    };
    for n in 0..=c.tier.pick(6usize, 7) {
        for (k, perm) in permutations(n).iter().enumerate() {
            if k % 16 != c.job {
                continue;
            }
            c.case(
                || format!("permutation {:?}", perm),
                |c| {
                    let l = mk(n);
                    let mut s = fill(&l);
                    s.permute(perm);
                    check_sums(&s, &[], &perm.iter().map(|&j| l[j].clone()).collect::<Vec<_>>(), 0)?;
                    if n > 1 {
                        c.distinct(hash_str(&format!("{:?}", perm)));
                    }
                    Ok(())
                },
            );
        }
    }
    for (k, n) in [100usize, 256, 257, 9_999, 10_000, 10_001, 19_999, 20_000, 20_001, 65_536, 65_537, 70_001, 262_145, 1_048_577, 4_000_401].into_iter().enumerate() {
        for (m, (what, perm)) in structured(n).into_iter().enumerate() {
            if (k * 3 + m) % 16 != c.job || n > 2_000_000 && m != 4 {
                continue;
            }
            c.case(
                || format!("permuting {} elements: {}", n, what),
                |c| {
                    let l = mk(n);
                    for reverse in [false, true] {
                        let mut s = fill(&l);
                        mcsched::set_uncontrolled_reverse(reverse);
                        s.permute(&perm);
                        mcsched::set_uncontrolled_reverse(false);
                        check_sums(&s, &[], &perm.iter().map(|&j| l[j].clone()).collect::<Vec<_>>(), 0)?;
                    }
                    c.distinct((n * 100 + m) as u64);
                    Ok(())
                },
            );
        }
    }
}
