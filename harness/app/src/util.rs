//! Shared pieces: index encoder, snapshots, well-formedness, exact element containers, enumerators.
use granne::{ElementContainer, ExtendableElementContainer, Index, Permutable, Writeable};
use ordered_float::NotNan;
use std::collections::BTreeSet;

pub type Graph = Vec<Vec<usize>>;
/// links[layer][node] in stored order
pub type Snap = Vec<Graph>;

pub fn nn(x: f32) -> NotNan<f32> {
    NotNan::new(x).expect("NaN")
}

pub fn snap<I: Index>(i: &I) -> Snap {
    (0..i.num_layers()).map(|l| (0..i.layer_len(l)).map(|n| i.get_neighbors(n, l)).collect()).collect()
}
pub fn sorted(s: &Snap) -> Snap {
    s.iter()
        .map(|l| {
            l.iter()
                .map(|n| {
                    let mut n = n.clone();
                    n.sort_unstable();
                    n
                })
                .collect()
        })
        .collect()
}
pub fn hash_snap(s: &Snap) -> u64 {
    let mut h = 17;
    for l in s {
        h = mcsched::mix(h, l.len() as u64 + 1);
        for n in l {
            h = mcsched::mix(h, 0x77);
            for &x in n {
                h = mcsched::mix(h, x as u64);
            }
        }
    }
    h
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(5, |h, b| mcsched::mix(h, b as u64))
}

/// Layers nested and non-decreasing, lists distinct, inside the layer, without self links, at most `max` long.
pub fn wellformed(s: &Snap, max: usize) -> Result<(), String> {
    for (l, layer) in s.iter().enumerate() {
        if l > 0 && layer.len() < s[l - 1].len() {
            return Err(format!("layer {} has {} nodes but the layer above has {}", l, layer.len(), s[l - 1].len()));
        }
        for (i, n) in layer.iter().enumerate() {
            if n.len() > max {
                return Err(format!("layer {} node {} has {} neighbours, limit {}", l, i, n.len(), max));
            }
            let set: BTreeSet<_> = n.iter().collect();
            if set.len() != n.len() {
                return Err(format!("layer {} node {} lists a neighbour twice: {:?}", l, i, n));
            }
            if n.contains(&i) {
                return Err(format!("layer {} node {} links to itself: {:?}", l, i, n));
            }
            if let Some(x) = n.iter().find(|&&x| x >= layer.len()) {
                return Err(format!("layer {} node {} links to {} outside the layer of {}", l, i, x, layer.len()));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// file format (independent encoder)

pub fn encode_list(sorted: &[u32]) -> Vec<u8> {
    let mut d = vec![sorted.len() as u8];
    let mut prev = 0;
    for (i, &x) in sorted.iter().enumerate() {
        let v = if i == 0 { x } else { x - prev };
        prev = x;
        d.extend_from_slice(&v.to_le_bytes());
    }
    d
}
pub fn encode_offsets(offs: &[usize]) -> Vec<u8> {
    let mut out = vec![];
    let mut last = 0usize;
    let mut i = 0;
    loop {
        let chunk = &offs[i..offs.len().min(i + 60)];
        let initial = if i == 0 { 0 } else { chunk[0] };
        if i > 0 {
            last = initial;
        }
        out.extend_from_slice(&(initial as u64).to_le_bytes());
        let mut deltas = [0xFFFFu16; 60];
        for (k, &o) in chunk.iter().enumerate() {
            deltas[k] = (o - last) as u16;
            last = o;
        }
        for d in deltas {
            out.extend_from_slice(&d.to_le_bytes());
        }
        i += chunk.len();
        if i >= offs.len() {
            break;
        }
    }
    out
}
pub fn encode_layer(lists: &[Vec<u32>]) -> Vec<u8> {
    let mut data = vec![];
    let mut offs = vec![0];
    for l in lists {
        let mut l = l.clone();
        l.sort_unstable();
        data.extend(encode_list(&l));
        offs.push(data.len());
    }
    let o = encode_offsets(&offs);
    let mut out = (o.len() as u64).to_le_bytes().to_vec();
    out.extend(o);
    out.extend(data);
    out
}
/// An index file holding the given links (list lengths up to 254), written with no code of granne.
pub fn encode_index(layers: &[Vec<Vec<u32>>]) -> Vec<u8> {
    let enc: Vec<Vec<u8>> = layers.iter().map(|l| encode_layer(l)).collect();
    let counts: Vec<usize> = layers.iter().map(|l| l.len()).collect();
    let sizes: Vec<usize> = enc.iter().map(|l| l.len()).collect();
    let nb = layers.last().and_then(|l| l.first()).map_or(0, |n| n.len());
    let meta = serde_json::json!({
        "granne_version": "0.5.2", "version": 2, "num_elements": counts.last().copied().unwrap_or(0),
        "num_layers": counts.len(), "num_neighbors": nb, "layer_counts": counts, "layer_sizes": sizes, "compressed": true,
    });
    let mut out = format!("granne{}", meta).into_bytes();
    assert!(out.len() <= 1024);
    out.resize(1024, b' ');
    for e in enc {
        out.extend(e);
    }
    out
}
pub fn encode_snap(s: &Snap) -> Vec<u8> {
    let l: Vec<Vec<Vec<u32>>> = s.iter().map(|l| l.iter().map(|n| n.iter().map(|&x| x as u32).collect()).collect()).collect();
    encode_index(&l)
}

/// A copy of `bytes` whose first byte lies at an address congruent to `a` modulo 16.
pub struct Aligned {
    buf: Vec<u8>,
    off: usize,
    len: usize,
}
impl Aligned {
    pub fn new(bytes: &[u8], a: usize) -> Self {
        let mut buf = vec![0xEEu8; bytes.len() + 64];
        let base = buf.as_ptr() as usize;
        let off = (16 - base % 16) + a;
        buf[off..off + bytes.len()].copy_from_slice(bytes);
        Aligned { buf, off, len: bytes.len() }
    }
    pub fn get(&self) -> &[u8] {
        &self.buf[self.off..self.off + self.len]
    }
}

pub fn write_index_vec<I: Index>(i: &I) -> Result<Vec<u8>, String> {
    let mut c = std::io::Cursor::new(vec![]);
    i.write_index(&mut c).map_err(|e| format!("write_index failed: {}", e))?;
    Ok(c.into_inner())
}

// ---------------------------------------------------------------------------------------------
// exact element containers

/// Points on an integer grid with squared Euclidean distance (exact in f32); `dead` points are at
/// distance 1e6 from everything, themselves included, like a zero vector.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct P {
    pub x: i16,
    pub y: i16,
    pub dead: bool,
}
pub const fn p(x: i16, y: i16) -> P {
    P { x, y, dead: false }
}
pub const DEAD: P = P { x: 0, y: 0, dead: true };
impl P {
    pub fn d(&self, o: &P) -> f32 {
        if self.dead || o.dead {
            return 1e6;
        }
        let (dx, dy) = ((self.x - o.x) as i32, (self.y - o.y) as i32);
        (dx * dx + dy * dy) as f32
    }
}
#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Pts(pub Vec<P>);
impl ElementContainer for Pts {
    type Element = P;
    fn get(&self, i: usize) -> P {
        self.0[i]
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn dist_to_element(&self, i: usize, e: &P) -> NotNan<f32> {
        mcsched::step();
        nn(self.0[i].d(e))
    }
}
impl ExtendableElementContainer for Pts {
    type InternalElement = P;
    fn push(&mut self, e: P) {
        self.0.push(e)
    }
}
impl Permutable for Pts {
    fn permute(&mut self, perm: &[usize]) {
        self.0 = perm.iter().map(|&j| self.0[j]).collect();
    }
}
impl Writeable for Pts {
    fn write<B: std::io::Write>(&self, b: &mut B) -> std::io::Result<usize> {
        let mut n = 0;
        for q in &self.0 {
            let mut r = [0u8; 5];
            r[..2].copy_from_slice(&q.x.to_le_bytes());
            r[2..4].copy_from_slice(&q.y.to_le_bytes());
            r[4] = q.dead as u8;
            b.write_all(&r)?;
            n += 5;
        }
        Ok(n)
    }
}
impl Pts {
    pub fn read(b: &[u8]) -> Result<Pts, String> {
        if b.len() % 5 != 0 {
            return Err(format!("{} bytes of elements", b.len()));
        }
        Ok(Pts(b.chunks(5).map(|r| P { x: i16::from_le_bytes([r[0], r[1]]), y: i16::from_le_bytes([r[2], r[3]]), dead: r[4] != 0 }).collect()))
    }
}

/// `n` elements that are all at distance one from everything (never linked): builds in linear time.
#[derive(Clone)]
pub struct Zeros(pub usize);
impl ElementContainer for Zeros {
    type Element = ();
    fn get(&self, _: usize) {}
    fn len(&self) -> usize {
        self.0
    }
    fn dist_to_element(&self, _: usize, _: &()) -> NotNan<f32> {
        nn(1.0)
    }
}
impl ExtendableElementContainer for Zeros {
    type InternalElement = ();
    fn push(&mut self, _: ()) {
        self.0 += 1
    }
}
impl Writeable for Zeros {
    fn write<B: std::io::Write>(&self, b: &mut B) -> std::io::Result<usize> {
        b.write_all(&(self.0 as u64).to_le_bytes())?;
        Ok(8)
    }
}

/// Distances of `n` elements to any number of queries, given as a table; queries are row numbers.
pub struct Table {
    pub n: usize,
    pub rows: Vec<Vec<f32>>,
}
impl ElementContainer for Table {
    type Element = usize;
    fn get(&self, _: usize) -> usize {
        unimplemented!()
    }
    fn len(&self) -> usize {
        self.n
    }
    fn dist_to_element(&self, i: usize, q: &usize) -> NotNan<f32> {
        nn(self.rows[*q][i])
    }
}

// ---------------------------------------------------------------------------------------------
// enumerators

/// All sequences of length `len` over `0..base`, as numbers.
pub fn digits(mut x: usize, base: usize, len: usize) -> Vec<usize> {
    let mut v = vec![0; len];
    for d in v.iter_mut() {
        *d = x % base;
        x /= base;
    }
    v
}
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                go(cur, n, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![], n, &mut out);
    out
}
/// All weak orders of n items as rank vectors (ranks are 0..k without gaps).
pub fn weak_orders(n: usize) -> Vec<Vec<usize>> {
    (0..n.pow(n as u32))
        .map(|x| digits(x, n, n))
        .filter(|r| {
            let m = r.iter().max().copied().unwrap_or(0);
            (0..=m).all(|k| r.contains(&k))
        })
        .collect()
}
/// The digraph on n nodes (no self links) with number x < 2^(n(n-1)).
pub fn digraph(x: usize, n: usize) -> Graph {
    let mut g = vec![vec![]; n];
    let mut b = 0;
    for i in 0..n {
        for j in 0..n {
            if i != j {
                if x >> b & 1 == 1 {
                    g[i].push(j);
                }
                b += 1;
            }
        }
    }
    g
}

pub fn floats_eq(a: &[f32], b: &[f32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}

/// A scratch directory removed on drop.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        static N: mcsched::Aside<usize> = mcsched::Aside::new(0);
        let n = {
            let mut n = N.lock();
            *n += 1;
            *n
        };
        let d = crate::fw::scratch_base().join(format!("vh-scratch-{}-{}-{}", tag, std::process::id(), n));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    pub fn path(&self, n: &str) -> std::path::PathBuf {
        self.0.join(n)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// A file of `len` bytes of which only `parts` (position and contents) are stored; the rest reads as zeros.
pub fn sparse_file(dir: &Scratch, name: &str, len: u64, parts: &[(u64, &[u8])]) -> std::fs::File {
    use std::os::unix::fs::FileExt;
    let q = dir.path(name);
    let f = std::fs::File::create(&q).unwrap();
    f.set_len(len).unwrap();
    for (at, b) in parts {
        f.write_all_at(b, *at).unwrap();
    }
    std::fs::File::open(&q).unwrap()
}
/// The contents of a file in memory, without reading it.
pub struct Mapped(*mut libc::c_void, usize);
impl Mapped {
    pub fn new(f: &std::fs::File) -> Mapped {
        use std::os::unix::io::AsRawFd;
        let n = f.metadata().unwrap().len() as usize;
        let q = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ, libc::MAP_SHARED | libc::MAP_NORESERVE, f.as_raw_fd(), 0) };
        assert!(q != libc::MAP_FAILED, "HARNESS: mmap of {} bytes", n);
        Mapped(q, n)
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.0 as *const u8, self.1) }
    }
}
impl Drop for Mapped {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.0, self.1) };
    }
}
/// A sink that keeps the first bytes and the number of bytes only, and does not look at the others.
pub struct Head {
    pub bytes: Vec<u8>,
    pub len: u64,
    keep: usize,
    pos: u64,
}
impl Head {
    pub fn new(keep: usize) -> Head {
        Head { bytes: vec![], len: 0, keep, pos: 0 }
    }
}
impl std::io::Write for Head {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let at = self.pos as usize;
        if at < self.keep {
            let n = b.len().min(self.keep - at);
            self.bytes.resize(self.bytes.len().max(at + n), 0);
            self.bytes[at..at + n].copy_from_slice(&b[..n]);
        }
        self.pos += b.len() as u64;
        self.len = self.len.max(self.pos);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Seek for Head {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.pos = match p {
            std::io::SeekFrom::Start(x) => x as i64,
            std::io::SeekFrom::End(x) => self.len as i64 + x,
            std::io::SeekFrom::Current(x) => self.pos as i64 + x,
        } as u64;
        Ok(self.pos)
    }
}

/// Writes bytes to a file and opens it for reading.
pub fn file_with(dir: &Scratch, name: &str, b: &[u8]) -> std::fs::File {
    let q = dir.path(name);
    std::fs::write(&q, b).unwrap();
    std::fs::File::open(&q).unwrap()
}
