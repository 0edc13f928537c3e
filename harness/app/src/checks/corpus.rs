//! T01, T02: corpus tools. Also the part of I03 about savers that take paths.
use super::build::pattern;
use super::Check;
use crate::fw::{guard, Ctx, Res};
use crate::util::*;
use granne::embeddings::{parsing, SumEmbeddings};
use granne::*;
use std::collections::HashMap;
use std::io::Write;
use std::path::{Path, PathBuf};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            name: "T01",
            level: "exploration",
            rule: "a case is one corpus, cut into parts in one way, parsed and saved whole or as shards; distinct non-trivial cases are those with at least one known word and more than one line",
            bound: |t| format!("all corpora of up to {} lines over 12 lines, cut into up to 3 parts in every way, with 5 ways of storing the parts; every number of shards from 1 to two more than the number of lines; corpora of up to {} lines or words, lines of up to 70000 words, up to 12 parts, 1 to 3 reading threads, numbers of shards from 1 to 3000; every set of up to three of 14 part names in three directories, shards beside 8 kinds of names", t.pick(3, 4), t.pick(70_000, 300_000)),
            assumptions: &["lines and words are JSON strings, as the tools require"],
            jobs: |_| 32,
            run: only!("T01", t01),
        },
        Check {
            name: "T02",
            level: "exploration",
            rule: "a case is one collection whose vectors are computed and loaded; distinct non-trivial cases are those with more than one element",
            bound: |t| format!("every number of elements from 0 to {}, and around multiples of 100, 10000 and 65536, and 262145 and 1048577; dimensions 1, 2, 3, 32, 33, 100, 257 and 1000; element lengths 0 to 69 and 5000; 7 or 300 embeddings; 1 and 3 threads", t.pick(460, 1250)),
            assumptions: &["embeddings hold small integers, so that sums are exact in any order"],
            jobs: |_| 16,
            run: only!("T02", t02),
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// T01

const WORDS: [&str; 7] = ["a", "b", "ab", "é", "\"q\"", "A", "p"];

/// A line and, worked out by hand, the words to be found in it.
const LINES: [(&str, &[usize]); 12] = [
    ("", &[]),
    ("a", &[0]),
    ("b a", &[1, 0]),
    ("zzz", &[]),
    ("ab zzz a a", &[2, 0, 0]),
    ("p: a\nb", &[0, 1]),
    ("a:b", &[1]),
    ("x:a b : ab", &[2]),
    ("  é\t\"q\"\u{a0}\u{2003}", &[3, 4]),
    ("aa A B", &[5]),
    ("a:b:", &[]),
    ("p b p", &[6, 1, 6]),
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Form {
    Plain,
    /// no line end after the last line
    Open,
    /// carriage return before each line end
    Crlf,
    Gzip,
    /// one gzip member per line
    GzipMembers,
}
const FORMS: [Form; 5] = [Form::Plain, Form::Open, Form::Crlf, Form::Gzip, Form::GzipMembers];

fn gz(b: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
fn json(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
fn part_bytes(lines: &[String], form: Form) -> Vec<u8> {
    let end = if form == Form::Crlf { "\r\n" } else { "\n" };
    let mut text = String::new();
    for l in lines {
        text += l;
        text += end;
    }
    if form == Form::Open {
        text.truncate(text.trim_end_matches('\n').len());
    }
    match form {
        Form::Gzip => gz(text.as_bytes()),
        Form::GzipMembers => {
            let mut v = vec![];
            for l in lines {
                v.extend(gz(format!("{}\n", l).as_bytes()));
            }
            if lines.is_empty() {
                v = gz(b"");
            }
            v
        }
        _ => text.into_bytes(),
    }
}
fn ext(form: Form) -> &'static str {
    match form {
        Form::Gzip | Form::GzipMembers => "json.gz",
        _ => "json",
    }
}

struct World {
    dir: Scratch,
    words: PathBuf,
    embeddings: PathBuf,
}
impl World {
    fn new(tag: &str, words: &[String]) -> World {
        let dir = Scratch::new(tag);
        let wp = dir.path("words.json");
        let mut t = String::new();
        for w in words {
            t += &json(w);
            t += "\n";
        }
        std::fs::write(&wp, t).unwrap();
        let mut e = SumEmbeddings::new();
        for i in 0..words.len() {
            e.push_embedding(&[i as f32]);
        }
        let ep = dir.path("embeddings.bin");
        e.write_embeddings(&mut std::fs::File::create(&ep).unwrap()).unwrap();
        World { dir, words: wp, embeddings: ep }
    }
    fn load(&self, p: &Path) -> Result<Vec<Vec<usize>>, String> {
        let e = std::fs::File::open(&self.embeddings).unwrap();
        let f = std::fs::File::open(p).map_err(|e| format!("{} is missing: {}", p.display(), e))?;
        let s = guard(|| unsafe { SumEmbeddings::from_files(&e, Some(&f)) })
            .map_err(|e| format!("{} does not load: {}", p.display(), e))?
            .map_err(|e| format!("{} does not load: {}", p.display(), e))?;
        Ok((0..s.len()).map(|i| s.get_terms(i)).collect())
    }
}

/// Fills a file with elements that stay in use, by a collection that maps the file.
fn in_use(w: &World, p: &Path) -> (SumEmbeddings<'static>, Vec<Vec<usize>>) {
    let want: Vec<Vec<usize>> = (0..700).map(|i| (0..i % 5).map(|j| (i + j) % 3).collect()).collect();
    let mut s = SumEmbeddings::new();
    for t in &want {
        s.push(t);
    }
    s.write(&mut std::fs::File::create(p).unwrap()).unwrap();
    let e = std::fs::File::open(&w.embeddings).unwrap();
    (unsafe { SumEmbeddings::from_files(&e, Some(&std::fs::File::open(p).unwrap())) }.unwrap(), want)
}
fn still_the_same(u: &(SumEmbeddings<'static>, Vec<Vec<usize>>)) -> Res {
    if u.0.len() != u.1.len() || (0..u.1.len()).any(|i| u.0.get_terms(i) != u.1[i]) {
        return Err("a collection opened from the file's earlier version changes".into());
    }
    Ok(())
}

fn first_difference(got: &[Vec<usize>], want: &[Vec<usize>]) -> String {
    for i in 0..got.len().max(want.len()) {
        if got.get(i) != want.get(i) {
            return format!("element {} is {:?} instead of {:?} ({} elements instead of {})", i, got.get(i), want.get(i), got.len(), want.len());
        }
    }
    "equal".into()
}

fn check_corpus(w: &World, input: &Path, want: &[Vec<usize>], shards: &[usize], progress: bool) -> Res {
    let out = w.dir.path("all.bin");
    // something longer is there already
    std::fs::write(&out, vec![0xa5u8; 300]).unwrap();
    let used = if progress { Some(in_use(w, &out)) } else { None };
    let n = guard(|| parsing::parse_elements_and_save_to_disk(input, &w.words, &out, progress)).map_err(|e| format!("parsing fails: {}", e))?;
    used.map_or(Ok(()), |u| still_the_same(&u))?;
    if n != want.len() {
        return Err(format!("parsing reports {} elements instead of {}", n, want.len()));
    }
    let got = w.load(&out)?;
    if got != want {
        return Err(format!("after parsing, {}", first_difference(&got, want)));
    }
    for (k, &num) in shards.iter().enumerate() {
        // into a directory or beside a named file
        let sub = w.dir.path("shards");
        let _ = std::fs::remove_dir_all(&sub);
        std::fs::create_dir(&sub).unwrap();
        let (target, name): (PathBuf, Box<dyn Fn(usize) -> PathBuf>) = if k % 2 == 0 {
            let s = sub.clone();
            (sub.clone(), Box::new(move |i| s.join(format!("elements-{}.bin", i))))
        } else {
            let s = sub.clone();
            (sub.join("x.dat"), Box::new(move |i| s.join(format!("x-{}.dat", i))))
        };
        std::fs::write(name(0), vec![0xa5u8; 300]).unwrap();
        let used = if !progress && k == 0 { Some(in_use(w, &name(0))) } else { None };
        let n = guard(|| parsing::parse_elements_and_save_shards_to_disk(input, &w.words, &target, num, progress))
            .map_err(|e| format!("{} shards: fails: {}", num, e))?;
        used.map_or(Ok(()), |u| still_the_same(&u))?;
        if n != want.len() {
            return Err(format!("{} shards: reports {} elements instead of {}", num, n, want.len()));
        }
        let mut got = vec![];
        for i in 0..num {
            got.extend(w.load(&name(i)).map_err(|e| format!("{} shards: {}", num, e))?);
        }
        if got != want {
            return Err(format!("{} shards: {}", num, first_difference(&got, want)));
        }
        let files = std::fs::read_dir(&sub).unwrap().count();
        if files != num {
            return Err(format!("{} shards: {} files are written", num, files));
        }
    }
    Ok(())
}

/// Writes the parts in an order that depends on the content (by name, against it, or neither), as a directory may list
/// its files by age, newest or oldest first.
fn write_parts(dir: &Path, names: &[String], parts: &[Vec<u8>]) {
    let mut order: Vec<usize> = (0..parts.len()).collect();
    let h = parts.iter().flatten().fold(7u64, |h, &b| mcsched::mix(h, b as u64));
    match h % 3 {
        0 => {}
        1 => order.reverse(),
        _ => order.rotate_left(parts.len().min(1)),
    }
    for i in order {
        std::fs::write(dir.join(&names[i]), &parts[i]).unwrap();
    }
}

fn t01(c: &mut Ctx) {
    let words: Vec<String> = WORDS.iter().map(|s| s.to_string()).collect();
    let w = World::new("t01", &words);
    let input = w.dir.path("input");
    let max = c.tier.pick(3usize, 4);
    let mut k = 0usize;
    let job = c.job;
    let mut mine = move || {
        k += 1;
        k % 32 == job
    };
    for n in 0..=max {
        for x in 0..LINES.len().pow(n as u32) {
            let ds = digits(x, LINES.len(), n);
            let lines: Vec<String> = ds.iter().map(|&d| json(LINES[d].0)).collect();
            let want: Vec<Vec<usize>> = ds.iter().map(|&d| LINES[d].1.to_vec()).collect();
            let known = want.iter().any(|t| !t.is_empty()) && n > 1;
            // cuts into one, two or three parts; a single part also as a file of its own
            let mut cuts: Vec<(bool, Vec<usize>)> = vec![(true, vec![0, n]), (false, vec![0, n])];
            for i in 0..=n {
                cuts.push((false, vec![0, i, n]));
                for j in i..=n {
                    cuts.push((false, vec![0, i, j, n]));
                }
            }
            for (ci, (single, cut)) in cuts.iter().enumerate() {
                for (fi, &form) in FORMS.iter().enumerate() {
                    // all storage forms for corpora of up to two lines, one of them otherwise
                    if n > 2 && fi != (x + ci) % FORMS.len() {
                        continue;
                    }
                    if !mine() {
                        continue;
                    }
                    c.case(
                        || format!("lines {:?}, parts cut at {:?}{}, stored as {:?}", ds.iter().map(|&d| LINES[d].0).collect::<Vec<_>>(), cut, if *single { " as a single file" } else { "" }, form),
                        |c| {
                            let _ = std::fs::remove_dir_all(&input);
                            let parts: Vec<Vec<u8>> = cut.windows(2).enumerate().map(|(i, p)| part_bytes(&lines[p[0]..p[1]], if i == 1 { Form::Plain } else { form })).collect();
                            let src = if *single {
                                let p = w.dir.path(&format!("single.{}", ext(form)));
                                std::fs::write(&p, &parts[0]).unwrap();
                                p
                            } else {
                                std::fs::create_dir(&input).unwrap();
                                let names: Vec<String> = (0..parts.len()).map(|i| format!("{}.{}", ["part-10", "part-2", "q"][i], if i == 1 { "json" } else { ext(form) })).collect();
                                write_parts(&input, &names, &parts);
                                input.clone()
                            };
                            let shards: Vec<usize> = if n > 2 && ci > 1 { vec![1 + (x + ci) % (n + 2)] } else { (1..=n + 2).rev().collect() };
                            check_corpus(&w, &src, &want, &shards, (x + ci) % 2 == 0)?;
                            if known {
                                c.nontrivial();
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    // names of parts, of directories and of shards
    const NAMES: [&str; 14] = ["10.json", "9.json", "a", "a.b", "a.gz", "A.gz", "agz", "b.gz.json", "b.json.gz", "b .json", ".c.gz", ".c", "é.gz", "~"];
    const TARGETS: [(&str, &str); 8] = [
        ("x", "x-#.bin"),
        ("x.y.dat", "x.y-#.dat"),
        (".x", ".x-#.bin"),
        ("x-1.bin", "x-1-#.bin"),
        ("d.ir/x", "x-#.bin"),
        ("d.ir", "elements-#.bin"),
        ("d.ir/", "elements-#.bin"),
        ("é ö.gz", "é ö-#.gz"),
    ];
    let mut picks: Vec<Vec<usize>> = vec![];
    for a in 0..NAMES.len() {
        picks.push(vec![a]);
        for b in a + 1..NAMES.len() {
            picks.push(vec![a, b]);
            picks.extend((b + 1..NAMES.len()).map(|d| vec![a, b, d]));
        }
    }
    let w = World::new("t01n", &WORDS.iter().map(|s| s.to_string()).collect::<Vec<_>>());
    for (pi, pick) in picks.iter().enumerate() {
        for (di, dn) in ["in", "in.gz", "in.gz.d"].into_iter().enumerate() {
            if pick.len() == 3 && (pi + di) % 3 != 0 || !mine() {
                continue;
            }
            c.case(
                || format!("parts named {:?} in a directory named {:?}", pick.iter().map(|&i| NAMES[i]).collect::<Vec<_>>(), dn),
                |c| {
                    let base = w.dir.path("names");
                    let _ = std::fs::remove_dir_all(&base);
                    let input = base.join(dn);
                    std::fs::create_dir_all(&input).unwrap();
                    std::fs::create_dir(base.join("d.ir")).unwrap();
                    let mut parts: Vec<(&str, usize)> = pick.iter().map(|&i| (NAMES[i], i)).collect();
                    for &(name, i) in &parts {
                        let text: String = (0..1 + i % 3).map(|k| json(WORDS[(i + k) % 7]) + "\n").collect();
                        std::fs::write(input.join(name), if name.ends_with(".gz") { gz(text.as_bytes()) } else { text.into_bytes() }).unwrap();
                    }
                    parts.sort();
                    let terms = |i: usize| (0..1 + i % 3).map(move |k| vec![(i + k) % 7]);
                    let want: Vec<Vec<usize>> = parts.iter().flat_map(|p| terms(p.1)).collect();
                    let out = base.join("out");
                    let mut all = vec![(input.clone(), want)];
                    if di == 0 {
                        // each part as a file of its own
                        all.extend(parts.iter().map(|p| (input.join(p.0), terms(p.1).collect())));
                    }
                    for (src, want) in all {
                        let n = guard(|| parsing::parse_elements_and_save_to_disk(&src, &w.words, &out, pi % 2 == 0)).map_err(|e| format!("parsing {} fails: {}", src.display(), e))?;
                        let got = w.load(&out)?;
                        if n != want.len() || got != want {
                            return Err(format!("{}: {} reported, {}", src.display(), n, first_difference(&got, &want)));
                        }
                        let (target, name) = TARGETS[(pi + di + want.len()) % TARGETS.len()];
                        let parent = if target.starts_with("d.ir") { base.join("d.ir") } else { base.clone() };
                        let num = 1 + pi % 3;
                        guard(|| parsing::parse_elements_and_save_shards_to_disk(&src, &w.words, &base.join(target), num, pi % 2 == 1)).map_err(|e| format!("{} shards named {:?}: {}", num, target, e))?;
                        let mut got = vec![];
                        for i in 0..num {
                            got.extend(w.load(&parent.join(name.replace('#', &i.to_string())))?);
                        }
                        if got != want {
                            return Err(format!("{} shards named {:?}: {}", num, target, first_difference(&got, &want)));
                        }
                    }
                    if pick.len() > 1 {
                        c.nontrivial();
                    }
                    Ok(())
                },
            );
        }
    }
    // larger ones
    let words: Vec<String> = (0..70_000).map(|i| format!("w{}", i)).collect();
    let ids = [0usize, 1, 255, 256, 257, 65_535, 65_536, 65_537, 69_999];
    let mut big: Option<World> = None;
    let sizes: &[usize] = c.tier.pick(&[5, 11, 12, 99, 100, 101, 1000, 3000, 20_000, 70_000], &[5, 11, 12, 99, 100, 101, 1000, 2999, 3000, 3001, 20_000, 70_000, 300_000]);
    for &n in sizes {
        for parts in [1usize, 2, 5, 12] {
            for form in [Form::Plain, Form::GzipMembers] {
                for (threads, long) in [(1usize, false), (3, false), (1, true), (3, true)] {
                    if long && (n > 3000 || form != Form::Plain) || n > 3000 && (form != Form::Plain || threads > 1 || parts == 2) || n > 101 && form == Form::GzipMembers && parts > 2 {
                        continue;
                    }
                    if !mine() {
                        continue;
                    }
                    c.case(|| format!("{} lines in {} parts, stored as {:?}, {} threads{}", n, parts, form, threads, if long { ", long lines" } else { "" }), |c| {
                        let w = big.get_or_insert_with(|| World::new("t01b", &words));
                        let input = w.dir.path("input");
                        let _ = std::fs::remove_dir_all(&input);
                        std::fs::create_dir(&input).unwrap();
                        let want: Vec<Vec<usize>> = (0..n).map(|i| (0..if !long { i % 4 } else if n <= 12 && i == n / 2 { 70_000 } else if i % 7 < 3 { 40 + i % 300 } else { 11 }).map(|j| if (i + j) % 3 == 0 { ids[(i / 3 + j) % ids.len()] } else { (i * 7 + j * 1001) % 70_000 }).collect()).collect();
                        let lines: Vec<String> = want.iter().map(|t| json(&t.iter().map(|&i| words[i].clone()).collect::<Vec<_>>().join(" "))).collect();
                        let mut names: Vec<String> = (0..parts).map(|i| if long { format!("{}.{}", i, ext(form)) } else { format!("part-{:02}.{}", i, ext(form)) }).collect();
                        names.sort();
                        let bytes: Vec<Vec<u8>> = (0..parts).map(|i| part_bytes(&lines[i * n / parts..(i + 1) * n / parts], form)).collect();
                        write_parts(&input, &names, &bytes);
                        mcsched::set_uncontrolled_threads(threads);
                        mcsched::set_uncontrolled_reverse(threads > 1);
                        let mut shards = vec![1, 2, 3, 7, 10, 64, 100];
                        if n <= 3000 {
                            shards.extend([n / 2, n - 1, n, n + 1]);
                        }
                        let r = check_corpus(w, &input, &want, &shards, parts == 5);
                        mcsched::set_uncontrolled_threads(1);
                        mcsched::set_uncontrolled_reverse(false);
                        c.nontrivial();
                        r
                    });
                }
            }
        }
    }
    // long words, and words that differ late
    for (k, len) in [1usize, 2, 15, 16, 31, 32, 33, 63, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 4097, 8191, 65_535, 65_536, 70_001].into_iter().enumerate() {
        if !mine() {
            continue;
        }
        c.case(|| format!("words of {} letters", len), |c| {
            // alike but for the last letter, the first one, or a letter more or less
            let stem: String = "wé\\".chars().cycle().take(len - 1).collect();
            let ws: Vec<String> = vec![format!("{}x", stem), format!("{}y", stem), format!("x{}", stem), stem.clone() + "xx", format!("q{}x", stem), "k".into()].into_iter().filter(|w| !w.is_empty()).collect();
            if (1..ws.len()).any(|i| ws[..i].contains(&ws[i])) {
                return Ok(());
            }
            let w = World::new("t01l", &ws);
            let input = w.dir.path("long.json");
            let missing = format!("{}z", stem);
            let mut lines = vec![];
            let mut want = vec![];
            for x in 0..7usize.pow(2) {
                let (a, b) = (x / 7, x % 7);
                let word = |i: usize| if i < 6 { &ws[i] } else { &missing };
                lines.push(json(&format!("{} {}", word(a), word(b))));
                want.push([a, b].into_iter().filter(|&i| i < 6).collect::<Vec<_>>());
            }
            std::fs::write(&input, part_bytes(&lines, Form::Plain)).unwrap();
            c.nontrivial();
            check_corpus(&w, &input, &want, &[1, 3], k % 2 == 0)
        });
    }
    // parts of tens of megabytes, packed and not
    for (k, form) in [Form::Plain, Form::Gzip, Form::GzipMembers].into_iter().enumerate() {
        if k + 13 != job {
            continue;
        }
        c.case(|| format!("two parts of 17 million bytes and more, stored as {:?}", form), |c| {
            let w = big.get_or_insert_with(|| World::new("t01b", &words));
            let input = w.dir.path("input");
            let _ = std::fs::remove_dir_all(&input);
            std::fs::create_dir(&input).unwrap();
            let n = 1_010;
            let want: Vec<Vec<usize>> = (0..n).map(|i| (0..if i % 100 == 9 { 0 } else { 4_000 + i % 5 }).map(|j| (i * 131 + j * 7_919) % 70_000).collect()).collect();
            let lines: Vec<String> = want.iter().map(|t| json(&t.iter().map(|&i| &words[i][..]).collect::<Vec<_>>().join("   "))).collect();
            let names: Vec<String> = (0..2).map(|i| format!("{}.{}", i, ext(form))).collect();
            let bytes: Vec<Vec<u8>> = [&lines[..500], &lines[500..]].iter().map(|l| part_bytes(l, form)).collect();
            crate::fw::beat();
            write_parts(&input, &names, &bytes);
            c.nontrivial();
            check_corpus(w, &input, &want, &[2], false)
        });
    }
    // the word list itself
    if job == 0 {
        for n in [0usize, 1, 2, 300] {
            c.case(|| format!("a list of {} words", n), |_| {
                let ws: Vec<String> = (0..n).map(|i| if i % 2 == 0 { format!("w{}", i) } else { format!("ö \"{}\"", i) }).collect();
                let w = World::new("t01w", &ws);
                let got = guard(|| parsing::parse_words(&w.words))?;
                let want: HashMap<String, usize> = ws.iter().cloned().zip(0..).collect();
                if got != want {
                    return Err("the word ids are not the line numbers".into());
                }
                Ok(())
            });
        }
    }
}

// ---------------------------------------------------------------------------------------------
// T02

fn quantized_sum(e: &[Vec<f32>], terms: &[usize], dim: usize) -> Vec<f32> {
    let mut s = vec![0.0f32; dim];
    for &t in terms {
        for d in 0..dim {
            s[d] += e[t][d];
        }
    }
    s
}

fn t02(c: &mut Ctx) {
    let mut sizes: Vec<usize> = (0..=c.tier.pick(460, 1250)).collect();
    for m in [500usize, 600, 1000, 1100, 2000, 5000, 9900, 10_000] {
        sizes.extend([m - 1, m, m + 1]);
    }
    sizes.extend([20_001, 65_535, 65_536, 65_537, 70_001, 262_145, 1_048_577]);
    let dims = [1usize, 2, 3, 32, 33, 100, 257, 1000];
    let dir = Scratch::new("t02");
    let mut k = 0;
    for &n in &sizes {
        for (di, &dim) in dims.iter().enumerate() {
            for threads in [1usize, 3] {
                // every dimension for the smaller collections
                if n > 210 && n <= 10_001 && (n + di) % dims.len() != 0 || n > 20 && n <= 10_001 && n % 50 > 3 && n % 50 < 48 && (n + di) % 3 != 0 {
                    continue;
                }
                if n > 10_001 && di != n % 3 && (n, dim) != (20_001, 100) {
                    continue;
                }
                k += 1;
                if k % 16 != c.job {
                    continue;
                }
                c.case(|| format!("{} elements of dimension {}, {} threads", n, dim, threads), |c| {
                    // mostly few embeddings and short lists; integers, so that sums are exact in any order
                    let ne = [7usize, 7, 7, 300][n % 4];
                    let longest = [4usize, 4, 12, 70, 4][n % 5];
                    let e: Vec<Vec<f32>> = (0..ne).map(|i| (0..dim).map(|d| ((i * 31 + d * 17 + i * d) % 23) as f32 - 11.0).collect()).collect();
                    let len = |i: usize| if n < 500 && n % 10 == 7 && i == n / 2 { 5000 } else { (i + 1) % longest };
                    let terms: Vec<Vec<usize>> = (0..n).map(|i| (0..len(i)).map(|j| (i * 3 + j * 5 + i / 7) % ne).collect()).collect();
                    let mut s = SumEmbeddings::new();
                    for v in &e {
                        s.push_embedding(v);
                    }
                    for t in &terms {
                        s.push(t);
                    }
                    let (ef, wf, of) = (dir.path("elements"), dir.path("embeddings"), dir.path("out"));
                    s.write(&mut std::fs::File::create(&ef).unwrap()).unwrap();
                    s.write_embeddings(&mut std::fs::File::create(&wf).unwrap()).unwrap();
                    std::fs::write(&of, vec![0xa5u8; 3000]).unwrap();
                    // also onto the files that it reads
                    let of = [&of, &ef, &wf, &of, &of][k % 5];
                    let old = if k % 5 == 1 { Some(unsafe { SumEmbeddings::from_files(&std::fs::File::open(&wf).unwrap(), Some(&std::fs::File::open(&ef).unwrap())) }.unwrap()) } else { None };
                    mcsched::set_uncontrolled_threads(threads);
                    mcsched::set_uncontrolled_reverse(threads > 1);
                    let r = guard(|| parsing::compute_embeddings_and_save_to_disk(&ef, &wf, of, n % 2 == 0));
                    mcsched::set_uncontrolled_threads(1);
                    mcsched::set_uncontrolled_reverse(false);
                    r.map_err(|e| format!("computing fails: {}", e))?;
                    if let Some(old) = old {
                        if old.len() != n || (0..n).any(|i| old.get_terms(i) != terms[i]) {
                            return Err("a collection opened from the file's earlier version changes".into());
                        }
                    }
                    let f = std::fs::File::open(of).unwrap();
                    let v = guard(|| unsafe { angular_int::Vectors::from_file(&f) })
                        .map_err(|e| format!("the file does not load: {}", e))?
                        .map_err(|e| format!("the file does not load: {}", e))?;
                    if v.len() != n {
                        return Err(format!("{} vectors instead of {}", v.len(), n));
                    }
                    for i in 0..n {
                        let want = angular_int::Vector::from(quantized_sum(&e, &terms[i], dim)).into_vec();
                        let got = v.get_element(i).to_owned().into_vec();
                        if got != want {
                            return Err(format!("vector {} is {:?} instead of {:?}", i, got, want));
                        }
                    }
                    if n > 1 {
                        c.nontrivial();
                    }
                    Ok(())
                });
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// I03: savers that take paths, under file size limits

/// Runs `f` while no file can grow beyond `limit` bytes.
fn with_file_limit<T>(limit: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut old = std::mem::zeroed::<libc::rlimit>();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        let new = libc::rlimit { rlim_cur: limit, rlim_max: old.rlim_max };
        libc::setrlimit(libc::RLIMIT_FSIZE, &new);
        let r = f();
        libc::setrlimit(libc::RLIMIT_FSIZE, &old);
        r
    }
}

pub fn limits(c: &mut Ctx, part: usize) {
    let mut k = 0usize;
    let mut mine = move || {
        k += 1;
        k % 32 == part
    };
    // name, whether a panic may report a failure, the files it writes, the saver
    type Saver = Box<dyn Fn(&[PathBuf]) -> std::io::Result<()>>;
    let w = World::new("i03", &WORDS.iter().map(|s| s.to_string()).collect::<Vec<_>>());
    let mut savers: Vec<(String, bool, Vec<&'static str>, Saver)> = vec![];
    for n in [0usize, 1, 9, 60] {
        let b = GranneBuilder::new(BuildConfig::default().num_neighbors(4).layer_multiplier(3.0).reinsert_elements(false), Pts::default());
        let rw = RwGranneBuilder::new(b, 1000, 1);
        rw.insert_batch(pattern(6, n));
        savers.push((
            format!("concurrent builder with {} elements", n),
            false,
            vec!["index", "elements"],
            Box::new(move |p| rw.save_index_and_elements_to_disk(p[0].to_str().unwrap(), p[1].to_str().unwrap())),
        ));
    }
    for n in [0usize, 1, 40, 1500] {
        let input = w.dir.path(&format!("corpus{}.json", n));
        let lines: Vec<String> = (0..n).map(|i| json(LINES[i % LINES.len()].0)).collect();
        std::fs::write(&input, part_bytes(&lines, Form::Plain)).unwrap();
        let words = w.words.clone();
        let (i2, w2) = (input.clone(), words.clone());
        savers.push((
            format!("parsing {} lines", n),
            true,
            vec!["elements"],
            Box::new(move |p| {
                parsing::parse_elements_and_save_to_disk(&i2, &w2, &p[0], false);
                Ok(())
            }),
        ));
        savers.push((
            format!("parsing {} lines into two shards", n),
            true,
            vec!["s-0.bin", "s-1.bin"],
            Box::new(move |p| {
                parsing::parse_elements_and_save_shards_to_disk(&input, &words, &p[0].with_file_name("s.bin"), 2, false);
                Ok(())
            }),
        ));
        let mut s = SumEmbeddings::new();
        for i in 0..WORDS.len() {
            s.push_embedding(&[i as f32 + 1.0, 2.0, -1.0]);
        }
        for i in 0..n {
            s.push(LINES[i % LINES.len()].1);
        }
        let (ef, wf) = (w.dir.path(&format!("e{}", n)), w.dir.path(&format!("w{}", n)));
        s.write(&mut std::fs::File::create(&ef).unwrap()).unwrap();
        s.write_embeddings(&mut std::fs::File::create(&wf).unwrap()).unwrap();
        savers.push((
            format!("computing {} vectors", n),
            true,
            vec!["vectors"],
            Box::new(move |p| {
                parsing::compute_embeddings_and_save_to_disk(&ef, &wf, &p[0], false);
                Ok(())
            }),
        ));
    }
    for (name, panics, files, save) in &savers {
        let good = w.dir.path("good");
        let _ = std::fs::remove_dir_all(&good);
        std::fs::create_dir(&good).unwrap();
        let paths: Vec<PathBuf> = files.iter().map(|f| good.join(f)).collect();
        let r = guard(|| save(&paths));
        if !matches!(r, Ok(Ok(()))) {
            c.case(|| format!("{}: no fault", name), |_| Err(format!("fails: {:?}", r)));
            continue;
        }
        let want: Vec<Vec<u8>> = paths.iter().map(|p| std::fs::read(p).unwrap()).collect();
        let biggest = want.iter().map(|b| b.len()).max().unwrap();
        let bad = w.dir.path("bad");
        let mut targets: Vec<(String, Option<u64>, Option<usize>)> = vec![];
        for l in 0..=biggest + 1 {
            // every limit for the first and last kilobyte and around page boundaries, every 11th elsewhere
            if l < 1300 || l + 300 > biggest || l % 4096 < 2 || l % 4096 > 4094 || l % 11 == 0 {
                targets.push((format!("files limited to {} bytes", l), Some(l as u64), None));
            }
        }
        for i in 0..files.len() {
            targets.push((format!("{} on a full device", files[i]), None, Some(i)));
        }
        for (what, limit, full) in targets {
            if !mine() {
                continue;
            }
            c.case(
                || format!("{}: {}", name, what),
                |c| {
                    let _ = std::fs::remove_dir_all(&bad);
                    std::fs::create_dir(&bad).unwrap();
                    let mut paths: Vec<PathBuf> = files.iter().map(|f| bad.join(f)).collect();
                    if let Some(i) = full {
                        std::os::unix::fs::symlink("/dev/full", &paths[i]).unwrap();
                        if !name.contains("shards") {
                            paths[i] = "/dev/full".into();
                        }
                    }
                    let r = match limit {
                        Some(l) => with_file_limit(l, || guard(|| save(&paths))),
                        None => guard(|| save(&paths)),
                    };
                    let r = match r {
                        Ok(r) => r,
                        Err(_) if *panics => {
                            if limit.map_or(false, |l| l as usize >= biggest) {
                                return Err("fails although there is enough room".into());
                            }
                            c.nontrivial();
                            return Ok(());
                        }
                        Err(e) => return Err(format!("the save panics: {}", e)),
                    };
                    match r {
                        Ok(()) => {
                            for i in 0..files.len() {
                                if full == Some(i) {
                                    if !want[i].is_empty() {
                                        return Err(format!("reports success although {} is on a full device", files[i]));
                                    }
                                    continue;
                                }
                                let got = std::fs::read(&paths[i]).unwrap_or_default();
                                if got != want[i] {
                                    return Err(format!("reports success but {} holds {} bytes that differ from the {} of a complete file", files[i], got.len(), want[i].len()));
                                }
                            }
                        }
                        Err(e) => {
                            if limit.map_or(false, |l| l as usize >= biggest) {
                                return Err(format!("fails although there is enough room: {}", e));
                            }
                            c.nontrivial();
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}
