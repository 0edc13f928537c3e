//! The reference for Y01: sessions of the Python module replayed on the core library.
//! Reads one session (JSON) per line, answers with the list of observations.
use crate::fw::guard;
use crate::util::Scratch;
use granne::embeddings::{self, SumEmbeddings};
use granne::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, Write};

fn floats(v: &Value) -> Option<Vec<f32>> {
    v.as_array()?.iter().map(|x| if x == "nan" { Some(f32::NAN) } else { x.as_f64().map(|x| x as f32) }).collect()
}
fn wide(v: &[f32]) -> Vec<f64> {
    v.iter().map(|&x| x as f64).collect()
}

struct World {
    dir: Scratch,
    words: Vec<String>,
    ids: HashMap<String, usize>,
    vectors: Vec<Vec<f32>>,
    files: usize,
}
impl World {
    fn path(&mut self) -> std::path::PathBuf {
        self.files += 1;
        self.dir.path(&format!("f{}", self.files))
    }
    fn ids(&self, text: &str) -> Vec<usize> {
        text.split_whitespace().filter_map(|w| self.ids.get(w).cloned()).collect()
    }
    fn embeddings(&self) -> SumEmbeddings<'static> {
        let mut e = SumEmbeddings::new();
        for v in &self.vectors {
            e.push_embedding(v);
        }
        e
    }
}

trait Kind: 'static {
    type C: ExtendableElementContainer + Writeable + Permutable + Sync + Clone + 'static;
    fn fresh(w: &World) -> Self::C;
    fn internal(w: &World, v: &Value) -> Option<<Self::C as ExtendableElementContainer>::InternalElement>;
    fn query(w: &World, c: &Self::C, v: &Value) -> Option<<Self::C as ElementContainer>::Element>;
    fn load(w: &mut World, elements: &File) -> Self::C;
    fn element(e: <Self::C as ElementContainer>::Element) -> Value;
    fn inside(w: &World, c: &Self::C, i: usize) -> Value;
    fn reorder(g: &mut Granne<'static, Self::C>) -> Vec<usize>;
}
struct Angular;
impl Kind for Angular {
    type C = angular::Vectors<'static>;
    fn fresh(_: &World) -> Self::C {
        angular::Vectors::new()
    }
    fn internal(_: &World, v: &Value) -> Option<angular::Vector<'static>> {
        Some(angular::Vector::from(floats(v)?))
    }
    fn query(_: &World, _: &Self::C, v: &Value) -> Option<angular::Vector<'static>> {
        Some(angular::Vector::from(floats(v)?))
    }
    fn load(_: &mut World, f: &File) -> Self::C {
        unsafe { angular::Vectors::from_file(f).unwrap() }
    }
    fn element(e: angular::Vector<'static>) -> Value {
        json!(wide(&e.into_vec()))
    }
    fn inside(_: &World, c: &Self::C, i: usize) -> Value {
        Self::element(c.get(i))
    }
    fn reorder(g: &mut Granne<'static, Self::C>) -> Vec<usize> {
        g.reorder(false)
    }
}
struct Int;
impl Kind for Int {
    type C = angular_int::Vectors<'static>;
    fn fresh(_: &World) -> Self::C {
        angular_int::Vectors::new()
    }
    fn internal(_: &World, v: &Value) -> Option<angular_int::Vector<'static>> {
        Some(angular_int::Vector::from(floats(v)?))
    }
    fn query(_: &World, _: &Self::C, v: &Value) -> Option<angular_int::Vector<'static>> {
        Some(angular_int::Vector::from(floats(v)?))
    }
    fn load(_: &mut World, f: &File) -> Self::C {
        unsafe { angular_int::Vectors::from_file(f).unwrap() }
    }
    fn element(e: angular_int::Vector<'static>) -> Value {
        json!(e.into_vec())
    }
    fn inside(_: &World, c: &Self::C, i: usize) -> Value {
        Self::element(c.get(i))
    }
    fn reorder(g: &mut Granne<'static, Self::C>) -> Vec<usize> {
        g.reorder(false)
    }
}
struct Sums;
impl Kind for Sums {
    type C = SumEmbeddings<'static>;
    fn fresh(w: &World) -> Self::C {
        w.embeddings()
    }
    fn internal(w: &World, v: &Value) -> Option<Vec<usize>> {
        Some(w.ids(v.as_str()?))
    }
    fn query(w: &World, c: &Self::C, v: &Value) -> Option<angular::Vector<'static>> {
        Some(angular::Vector::from(match v.as_str() {
            Some(s) => c.create_embedding(&w.ids(s)),
            None => floats(v)?,
        }))
    }
    fn load(w: &mut World, f: &File) -> Self::C {
        let p = w.path();
        w.embeddings().write_embeddings(&mut File::create(&p).unwrap()).unwrap();
        unsafe { SumEmbeddings::from_files(&File::open(&p).unwrap(), Some(f)).unwrap() }
    }
    fn element(e: angular::Vector<'static>) -> Value {
        json!(wide(&e.into_vec()))
    }
    fn inside(w: &World, c: &Self::C, i: usize) -> Value {
        json!(c.get_terms(i).iter().map(|&t| w.words[t].clone()).collect::<Vec<_>>().join(" "))
    }
    fn reorder(g: &mut Granne<'static, Self::C>) -> Vec<usize> {
        let keys = embeddings::compute_keys_for_reordering(g.get_elements());
        g.reorder_by_keys(&keys, false)
    }
}

fn config(v: &Value) -> BuildConfig {
    let mut c = BuildConfig::default();
    if let Some(x) = v["layer_multiplier"].as_f64() {
        c = c.layer_multiplier(x as f32);
    }
    if let Some(x) = v["expected_num_elements"].as_u64() {
        c = c.expected_num_elements(x as usize);
    }
    if let Some(x) = v["num_neighbors"].as_u64() {
        c = c.num_neighbors(x as usize);
    }
    if let Some(x) = v["max_search"].as_u64() {
        c = c.max_search(x as usize);
    }
    if let Some(x) = v["reinsert_elements"].as_bool() {
        c = c.reinsert_elements(x);
    }
    c
}

fn structure(x: &dyn Index) -> Value {
    let layers: Vec<Value> = (0..x.num_layers()).map(|l| json!((0..x.layer_len(l)).map(|i| x.get_neighbors(i, l)).collect::<Vec<_>>())).collect();
    json!({"len": x.len(), "num_layers": x.num_layers(), "layers": layers})
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn session<K: Kind>(w: &mut World, s: &Value) -> Vec<Value> {
    let cfg = &s["cfg"];
    let mut builder = GranneBuilder::new(config(cfg), K::fresh(w));
    let mut index: Option<Granne<'static, K::C>> = None;
    let mut out = vec![];
    for op in s["ops"].as_array().unwrap() {
        let r = guard(|| -> Option<Value> {
            Some(match op[0].as_str().unwrap() {
                "append" => {
                    builder.push(K::internal(w, &op[1])?);
                    Value::Null
                }
                "build" => {
                    match op[1].as_u64() {
                        None => builder.build(),
                        Some(k) => builder.build_partial(k as usize),
                    }
                    Value::Null
                }
                "look" => json!([structure(&builder), builder.num_elements()]),
                "save" | "saveover" => {
                    let (mut i, mut e) = (std::io::Cursor::new(vec![]), vec![]);
                    builder.write_index(&mut i).unwrap();
                    builder.write_elements(&mut e).unwrap();
                    json!([hex(&i.into_inner()), hex(&e)])
                }
                "resume" | "open" => {
                    let (ip, ep) = (w.path(), w.path());
                    builder.write_index(&mut File::create(&ip).unwrap()).unwrap();
                    builder.write_elements(&mut File::create(&ep).unwrap()).unwrap();
                    let (i, e) = (File::open(&ip).unwrap(), File::open(&ep).unwrap());
                    let e = K::load(w, &e);
                    if op[0] == "open" {
                        index = Some(unsafe { Granne::from_file(&i, e).unwrap() });
                    } else if op[1] == true {
                        builder = GranneBuilder::from_file(config(cfg), &i, e).unwrap();
                    } else {
                        builder = GranneBuilder::new(config(cfg), e);
                    }
                    Value::Null
                }
                "ilook" => structure(index.as_ref()?),
                "elements" => {
                    let x = index.as_ref()?;
                    json!((0..x.get_elements().len()).map(|i| json!([K::element(x.get_element(i)), K::inside(w, x.get_elements(), i)])).collect::<Vec<_>>())
                }
                "one" => {
                    let (x, i) = (index.as_ref()?, op[1].as_u64()? as usize);
                    json!([K::element(x.get_element(i)), K::inside(w, x.get_elements(), i)])
                }
                "search" => {
                    let x = index.as_ref()?;
                    let q = K::query(w, x.get_elements(), &op[1])?;
                    let r = x.search(&q, op[2].as_u64().unwrap_or(200) as usize, op[3].as_u64().unwrap_or(10) as usize);
                    json!(r.iter().map(|&(i, d)| json!([i, d as f64])).collect::<Vec<_>>())
                }
                "reorder" => json!(K::reorder(index.as_mut()?)),
                "isave" | "isaveover" => {
                    let x = index.as_ref()?;
                    let (mut i, mut e) = (std::io::Cursor::new(vec![]), vec![]);
                    x.write_index(&mut i).unwrap();
                    x.write_elements(&mut e).unwrap();
                    json!([hex(&i.into_inner()), hex(&e)])
                }
                "ireopen" => {
                    let x = index.as_ref()?;
                    let (ip, ep) = (w.path(), w.path());
                    x.write_index(&mut File::create(&ip).unwrap()).unwrap();
                    x.write_elements(&mut File::create(&ep).unwrap()).unwrap();
                    let e = K::load(w, &File::open(&ep).unwrap());
                    index = Some(unsafe { Granne::from_file(&File::open(&ip).unwrap(), e).unwrap() });
                    Value::Null
                }
                // the module has to refuse this
                "bad" => return None,
                o => panic!("HARNESS: operation {}", o),
            })
        });
        out.push(match r {
            Ok(Some(v)) => json!({"ok": v}),
            Ok(None) => json!("error"),
            Err(e) if e.contains("HARNESS") => panic!("{}", e),
            Err(_) => json!("error"),
        });
    }
    out
}

/// Sessions of the class `Embeddings`.
fn words(s: &Value) -> Vec<Value> {
    let mut e = SumEmbeddings::new();
    let mut ws: Vec<String> = vec![];
    let mut out = vec![];
    for op in s["ops"].as_array().unwrap() {
        let input = |v: &Value, ws: &Vec<String>| -> Option<Vec<usize>> {
            if let Some(i) = v.as_u64() {
                return Some(vec![i as usize]);
            }
            if let Some(a) = v.as_array() {
                return a.iter().map(|x| x.as_u64().map(|x| x as usize)).collect();
            }
            Some(v.as_str()?.split_whitespace().filter_map(|w| ws.iter().rposition(|x| x == w)).collect())
        };
        let r = guard(|| -> Option<Value> {
            Some(match op[0].as_str().unwrap() {
                "append" => {
                    let v = floats(&op[1])?;
                    let word = op[2].as_str()?.to_string();
                    if ws.contains(&word) {
                        json!(false)
                    } else {
                        e.push_embedding(&v);
                        ws.push(word);
                        json!(true)
                    }
                }
                "len" => json!(e.num_embeddings()),
                "get" => json!(wide(&e.create_embedding(&input(&op[1], &ws)?))),
                "dist" | "dists" => {
                    let v = |x: &Value| Some(angular::Vector::from(e.create_embedding(&input(x, &ws)?)));
                    let a = v(&op[1])?;
                    if op[0] == "dist" {
                        json!(a.dist(&v(&op[2])?).into_inner() as f64)
                    } else {
                        let r: Option<Vec<f64>> = op[2].as_array()?.iter().map(|x| Some(a.dist(&v(x)?).into_inner() as f64)).collect();
                        json!(r?)
                    }
                }
                "save" | "saveover" => {
                    let mut b = vec![];
                    e.write_embeddings(&mut b).unwrap();
                    let t: String = ws.iter().map(|w| serde_json::to_string(w).unwrap() + "\n").collect();
                    json!([hex(&b), hex(t.as_bytes())])
                }
                "reload" => Value::Null,
                "rewords" => {
                    ws = op[1].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                    Value::Null
                }
                "bad" => return None,
                o => panic!("HARNESS: operation {}", o),
            })
        });
        out.push(match r {
            Ok(Some(v)) => json!({"ok": v}),
            Ok(None) => json!("error"),
            Err(e) if e.contains("HARNESS") => panic!("{}", e),
            Err(_) => json!("error"),
        });
    }
    out
}

pub fn serve() -> i32 {
    crate::fw::install_panic_hook();
    let mut out = std::io::stdout().lock();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let s: Value = serde_json::from_str(&line).unwrap();
        let r = match s["type"].as_str().unwrap() {
            "words" => words(&s),
            "distance" => s["pairs"].as_array().unwrap().iter().map(|p| {
                let f = |v: &Value| floats(v).unwrap();
                let r = guard(|| match p[0].as_str().unwrap() {
                    "angular" => angular::Vector::from(f(&p[1])).dist(&angular::Vector::from(f(&p[2]))).into_inner(),
                    _ => angular_int::Vector::from(f(&p[1])).dist(&angular_int::Vector::from(f(&p[2]))).into_inner(),
                });
                r.map(|x| json!({"ok": x as f64})).unwrap_or(json!("error"))
            }).collect(),
            t => {
                let names: Vec<String> = s["words"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
                let mut w = World {
                    dir: Scratch::new("pyref"),
                    ids: names.iter().cloned().zip(0..).collect(),
                    words: names,
                    vectors: s["vectors"].as_array().map(|a| a.iter().map(|v| floats(v).unwrap()).collect()).unwrap_or_default(),
                    files: 0,
                };
                match t {
                    "angular" => session::<Angular>(&mut w, &s),
                    "angular_int" => session::<Int>(&mut w, &s),
                    _ => session::<Sums>(&mut w, &s),
                }
            }
        };
        writeln!(out, "{}", Value::Array(r)).unwrap();
        out.flush().unwrap();
    }
    0
}
