//! C20, C22, C23: files.  Everything is written below one scratch directory
//! that the process creates and removes.

use super::layerprops::damage;
use super::network::{show, Rig};
use crate::engine::*;
use crate::{ensure, large, long};
use crate::gen::*;
use crate::layers::*;
use rusty_network::layer::convolutional::ConvolutionalSerialKeys as CK;
use rusty_network::layer::max_pool::MaxPoolSerialKeys as MK;
use rusty_network::layer::softmax::SoftMaxSerialKeys as SK;
use rusty_network::layer::fully_connected::FullyConnectedSerialKeys as FK;
use rusty_network::layer::SerializedLayer;
use rusty_network::network::Network;
use rusty_network::tensor::helper::TensorShape;
use rusty_network::tensor::Tensor;
use std::cell::RefCell;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

static DIR: OnceLock<PathBuf> = OnceLock::new();
static NEXT: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static MINE: RefCell<Option<PathBuf>> = RefCell::new(None);
}

fn dir() -> &'static PathBuf {
    DIR.get_or_init(|| {
        let d = std::env::temp_dir().join(format!("vh-scratch-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("harness: scratch directory");
        d
    })
}

/// Removes the scratch directory, if one was made.
pub fn cleanup() {
    if let Some(d) = DIR.get() {
        let _ = std::fs::remove_dir_all(d);
    }
}

/// A directory of this thread.
fn mine() -> PathBuf {
    MINE.with(|m| {
        m.borrow_mut()
            .get_or_insert_with(|| {
                let d = dir().join(format!("t{}", NEXT.fetch_add(1, Ordering::Relaxed)));
                std::fs::create_dir_all(&d).expect("harness: scratch directory");
                d
            })
            .clone()
    })
}

pub fn path(name: &str) -> String {
    mine().join(name).to_str().unwrap().to_string()
}

pub fn put(p: &str, b: &[u8]) {
    std::fs::write(p, b).expect("harness: scratch file");
}

fn size(p: &str) -> u64 {
    std::fs::metadata(p).expect("harness: metadata").len()
}

/// A fresh file name; sometimes an unusual one.
fn file_name(s: &mut Src) -> String {
    if !s.chance(1, 2) {
        return path("file.bin");
    }
    let long = "n".repeat(240);
    const ODD: [&str; 20] = [
        "with space and \u{e4}\u{2211}.bin",
        ".hidden",
        "a.b.c.tensor.bin",
        "file.bin ",
        " file.bin",
        "file.bin\n",
        "\tfile.bin",
        "FILE.BIN",
        "file",
        "file.",
        "file.bin.tmp",
        "file.bin~",
        "%66ile.bin",
        "$HOME",
        "~",
        "*?[a]",
        "-file.bin",
        "file\\bin",
        "\"file.bin\"",
        "a\u{308}\u{1F980}",
    ];
    match s.below(ODD.len() + 3) {
        0 => path(&long),
        1 => mine().join(".").join("file.bin").to_str().unwrap().to_string(),
        2 => format!("{}//file.bin", mine().to_str().unwrap()),
        n => path(ODD[n - 3]),
    }
}

// ---------------------------------------------------------------- C20

pub fn c20() -> Property {
    Property {
        id: "C20",
        rule: "Tensors of generated shapes (up to 4000 elements, sometimes extents of several hundred) with any bit patterns, NaN payloads, infinities, signed zeros and subnormals, saved to \
               absent files or over existing longer, shorter or read-before files under plain and unusual names, loaded back, compared bit for bit and used in further \
               operations next to the original; unusable paths and missing files; histories over several files of like names; threads that save to different files of one folder; saves in a process whose files may only hold part of it. Non-trivial: more than one element and not all elements equal.",
        assumptions: &["the file system keeps what was written"],
        facets: vec![
            Facet { name: "round trip", quick: 280_000, thorough: 3_360_000, run: c20_round },
            Facet { name: "bad paths", quick: 9_400, thorough: 112_800, run: c20_paths },
            Facet { name: "several files", quick: 24_000, thorough: 288_000, run: c20_files },
            Facet { name: "threads", quick: 600, thorough: 7_200, run: c20_threads },
            Facet { name: "no space, limited", quick: 1_600, thorough: 19_200, run: c20_space },
            Facet { name: "round trip, large", quick: 240, thorough: 2_880, run: large!(c20_round) },
            Facet { name: "several files, long", quick: 240, thorough: 2_880, run: long!(c20_files) },
        ],
    }
}

fn c20_round(s: &mut Src, ctx: &mut Ctx) -> R {
    let max = if s.chance(1, 20) { 4000 } else { 200 };
    let sh = shape(s, max);
    let d = if s.chance(1, 3) { exact(s, sh.n()) } else { anybits(s, sh.n()) };
    ctx.nontrivial = d.v.windows(2).any(|w| w[0].to_bits() != w[1].to_bits());
    ctx.label(d.kind);
    ctx.label_if(d.v.iter().any(|v| v.is_nan()), "has NaN");
    ctx.label_if(d.v.iter().any(|v| v.is_subnormal()), "has subnormals");
    ctx.label_if(sh.distinct_dims(), "three different extents");
    let f = file_name(s);
    let _ = std::fs::remove_file(&f);
    let before = s.below(4);
    match before {
        1 => {
            put(&f, &vec![0x5a; sh.n() * 4 + 200 + s.below(500)]);
            ctx.label("over a longer file");
        }
        2 => {
            put(&f, &vec![1; s.below(20)]);
            ctx.label("over a shorter file");
        }
        3 => {
            let sh2 = shape(s, 300);
            let t2 = mk(sh2, &exact(s, sh2.n()).v)?;
            ensure!(t2.save_to_file(&f).is_ok(), "saving failed");
            ctx.label("over another tensor");
        }
        _ => {}
    }
    ctx.note(|| format!("{:?} {} over {}", sh, small(&d.v), before));
    let t = mk(sh, &d.v)?;
    if let Err(e) = t.save_to_file(&f) {
        return fail(format!("saving {:?} failed: {}", sh, e));
    }
    unchanged("saved tensor", &t, sh, &d.v)?;
    if before > 0 {
        // nothing of the former file is left: as long as a file that was not there before
        let f3 = path("fresh.bin");
        let _ = std::fs::remove_file(&f3);
        ensure!(t.save_to_file(&f3).is_ok(), "saving to a new file failed");
        let (a, b) = (size(&f), size(&f3));
        ensure!(a == b, "saved over a former file the file has {} bytes, saved to a new file {} bytes", a, b);
        ctx.compared += 1;
    }
    let l = match Tensor::from_file(&f) {
        Ok(l) => l,
        Err(e) => return fail(format!("loading a saved tensor {:?} failed: {}", sh, e)),
    };
    ctx.compared += sh.n() as u64;
    unchanged("loaded tensor, compared with the saved one,", &l, sh, &d.v)?;
    ensure!(l.total_items() as usize == sh.n(), "loaded tensor reports {} elements", l.total_items());
    // the same in further use
    same_behaviour(&t, &l, sh, s)?;
    // and once more through a file
    let f2 = path("again.bin");
    ensure!(l.save_to_file(&f2).is_ok(), "saving the loaded tensor failed");
    match Tensor::from_file(&f2) {
        Ok(m) => unchanged("twice saved tensor", &m, sh, &d.v)?,
        Err(e) => return fail(format!("loading a twice saved tensor failed: {}", e)),
    }
    Ok(())
}

fn same_behaviour(t: &Tensor, l: &Tensor, sh: Sh, s: &mut Src) -> R {
    let other = mk(sh, &exact(s, sh.n()).v)?;
    let run = |a: &Tensor| -> Vec<f32> {
        let mut out = Tensor::new(sh.ts());
        Tensor::add(a, &other, &mut out);
        let mut v = dump(&out);
        let mut tr = Tensor::new(Sh(sh.1, sh.0, sh.2).ts());
        let r = Tensor::transpose_ij(a, &mut tr);
        v.push(r.is_ok() as u8 as f32);
        v.extend(dump(&tr));
        let mut c = a.clone();
        Tensor::scale_self(&mut c, 0.5);
        v.extend(dump(&c));
        v.push(a.get_norm());
        let mut c = a.clone();
        v.push(c.fill_with_vec(vec![1.0; sh.n()]).is_ok() as u8 as f32);
        v.extend(dump(&c));
        v
    };
    let (a, b) = (run(t), match no_panic(|| run(l)) {
        Ok(v) => v,
        Err(m) => return fail(format!("using the loaded tensor: {}", m)),
    });
    // arithmetic may pick either NaN payload, so compare values
    ensure!(
        a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan()),
        "the loaded tensor behaves differently from the saved one"
    );
    Ok(())
}

const FULL: &str = "a file that takes no data";

/// Was saving to a bad path rightly answered with success? Only if the link to
/// the file that takes no data was replaced by a file of its own.
fn replaced_link(p: &str, what: &str) -> bool {
    what == FULL && std::fs::symlink_metadata(p).map_or(false, |m| m.file_type().is_file() && m.len() > 0)
}

fn bad_path(s: &mut Src, load: bool) -> (String, &'static str) {
    let d = mine();
    match s.below(4) {
        3 if !load => {
            // A link of our own to a file that opens and then fails every write (it takes only a digit) and every read.
            // Not /dev/full: code that reads what is there first would read zeros without end.
            let l = d.join(FULL);
            if !std::fs::symlink_metadata(&l).map_or(false, |m| m.file_type().is_symlink()) {
                let _ = std::fs::remove_file(&l);
                let _ = std::os::unix::fs::symlink("/proc/self/clear_refs", &l);
            }
            (l.to_str().unwrap().to_string(), FULL)
        }
        0 => (d.join("no such directory").join("x.bin").to_str().unwrap().to_string(), "missing directory"),
        1 => (d.to_str().unwrap().to_string(), "a directory"),
        2 => (String::new(), "empty name"),
        _ => (d.join("never written").to_str().unwrap().to_string(), "missing file"),
    }
}

/// Some names next to each other, some of them alike.
fn names(s: &mut Src) -> Vec<String> {
    const ALIKE: [&str; 7] = ["h.bin", "h", "H.bin", "h.bin.tmp", "h.bin~", ".h.bin", "i.bin"];
    let mut v: Vec<String> = (0..2 + s.below(3)).map(|_| path(ALIKE[s.below(ALIKE.len())])).collect();
    v.sort();
    v.dedup();
    for f in &v {
        let _ = std::fs::remove_file(f);
    }
    v
}

/// What happens to the files of a history besides saving and loading; `have` says what each holds.
fn outside<T: Clone>(s: &mut Src, files: &[String], have: &mut [Option<T>]) -> String {
    let (i, j) = (s.below(files.len()), s.below(files.len()));
    match s.below(3) {
        0 => {
            let _ = std::fs::remove_file(&files[i]);
            have[i] = None;
            format!("remove {}", i)
        }
        1 if have[i].is_some() && i != j => {
            std::fs::rename(&files[i], &files[j]).expect("harness: rename");
            have[j] = have[i].take();
            format!("rename {} {}", i, j)
        }
        _ if have[i].is_some() && i != j => {
            std::fs::copy(&files[i], &files[j]).expect("harness: copy");
            have[j] = have[i].clone();
            format!("copy {} {}", i, j)
        }
        _ => "nothing".into(),
    }
}

fn c20_files(s: &mut Src, ctx: &mut Ctx) -> R {
    let files = names(s);
    let base = shape(s, 40);
    let mut pool = Vec::new();
    for _ in 0..1 + s.below(4) {
        let sh = if s.chance(2, 3) { base } else { shape(s, 40) };
        let v = if s.chance(1, 2) { exact(s, sh.n()).v } else { anybits(s, sh.n()).v };
        pool.push((mk(sh, &v)?, sh, v));
    }
    let mut have: Vec<Option<(Sh, Vec<f32>)>> = vec![None; files.len()];
    let (mut saves, mut loads) = (0, 0);
    let mut did: Vec<String> = Vec::new();
    for _ in 0..s.times(3, 14) {
        match s.step(&[5, 5, 2, 2]) {
            0 => {
                let (i, f) = (s.below(pool.len()), s.below(files.len()));
                did.push(format!("save {} to {}", i, f));
                if let Err(e) = pool[i].0.save_to_file(&files[f]) {
                    return fail(format!("after {:?}: saving {:?} failed: {}", did, pool[i].1, e));
                }
                have[f] = Some((pool[i].1, pool[i].2.clone()));
                saves += 1;
            }
            1 => {
                let f = s.below(files.len());
                did.push(format!("load {}", f));
                match (Tensor::from_file(&files[f]), &have[f]) {
                    (Ok(t), Some((sh, v))) => {
                        loads += 1;
                        ctx.compared += sh.n() as u64;
                        unchanged(&format!("after {:?} the loaded tensor, compared with what the file was given,", did), &t, *sh, v)?;
                        if s.chance(1, 2) {
                            // goes on as one of ours
                            let i = s.below(pool.len());
                            pool[i] = (t, *sh, v.clone());
                            did.push(format!("keep as {}", i));
                        }
                    }
                    (Err(_), None) => {}
                    (Ok(_), None) => return fail(format!("after {:?}: a missing file is loaded", did)),
                    (Err(e), Some(_)) => return fail(format!("after {:?}: loading failed: {}", did, e)),
                }
            }
            2 => {
                let i = s.below(pool.len());
                let p = s.below(pool[i].1.n());
                let x = zz(s.upto(20)) as f32 / 2.0;
                let (a, b, c) = pool[i].1.un(p);
                pool[i].0.set_item(&rusty_network::tensor::helper::TensorIndex { i: a, j: b, k: c }, x);
                pool[i].2[p] = x;
                did.push(format!("change {}", i));
            }
            _ => {
                let w = outside(s, &files, &mut have);
                did.push(w);
            }
        }
    }
    ctx.note(|| format!("{} files, tensors {:?}: {:?}", files.len(), pool.iter().map(|p| p.1).collect::<Vec<_>>(), did));
    ctx.nontrivial = saves > 1 && loads > 0;
    for (f, h) in files.iter().zip(&have) {
        ensure!(h.is_none() != std::path::Path::new(f).exists(), "after {:?}: file {:?} exists without having been saved or the other way round", did, f);
        if let Some((sh, v)) = h {
            match Tensor::from_file(f) {
                Ok(t) => unchanged(&format!("after {:?}, at the end the loaded tensor", did), &t, *sh, v)?,
                Err(e) => return fail(format!("after {:?}: loading failed at the end: {}", did, e)),
            }
        }
    }
    for (t, sh, v) in &pool {
        unchanged(&format!("a tensor of the history {:?}", did), t, *sh, v)?;
    }
    Ok(())
}

/// Different tensors saved to different files of one folder by several threads at once.
fn c20_threads(s: &mut Src, ctx: &mut Ctx) -> R {
    let d = mine();
    let mut plans = Vec::new();
    for i in 0..2 + s.below(3) {
        let sh = shape(s, 600);
        let v = anybits(s, sh.n()).v;
        let w = anybits(s, sh.n()).v;
        plans.push((d.join(format!("p{}.bin", i)).to_str().unwrap().to_string(), sh, [v, w]));
    }
    ctx.nontrivial = true;
    ctx.note(|| format!("threads with tensors of {:?}", plans.iter().map(|p| p.1).collect::<Vec<_>>()));
    ctx.compared += plans.len() as u64 * 30;
    let gate = std::sync::Barrier::new(plans.len());
    let got: Vec<R> = std::thread::scope(|sc| {
        let hs: Vec<_> = plans
            .iter()
            .map(|(f, sh, vs)| {
                let gate = &gate;
                sc.spawn(move || -> R {
                    gate.wait();
                    for r in 0..30 {
                        let t = mk(*sh, &vs[r % 2])?;
                        if let Err(e) = t.save_to_file(f) {
                            return fail(format!("saving {:?} while other threads save to other files failed: {}", sh, e));
                        }
                        match Tensor::from_file(f) {
                            Ok(l) => unchanged("a tensor saved and loaded while other threads use other files", &l, *sh, &vs[r % 2])?,
                            Err(e) => return fail(format!("loading {:?} while other threads use other files failed: {}", sh, e)),
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| fail("saving or loading on a thread panicked"))).collect()
    });
    got.into_iter().collect()
}

fn c20_paths(s: &mut Src, ctx: &mut Ctx) -> R {
    ctx.nontrivial = true;
    let sh = shape(s, 50);
    let v = exact(s, sh.n()).v;
    let t = mk(sh, &v)?;
    let (p, what) = bad_path(s, false);
    ctx.label(what);
    ctx.compared += 2;
    match no_panic(|| t.save_to_file(&p).is_ok()) {
        Ok(ok) => ensure!(!ok || replaced_link(&p, what), "saving a tensor to {} ({:?}) is answered with success", what, p),
        Err(m) => return fail(format!("saving a tensor to {}: {}", what, m)),
    }
    unchanged("tensor after a failed save", &t, sh, &v)?;
    let (p, what) = bad_path(s, true);
    ctx.label(what);
    match no_panic(|| Tensor::from_file(&p).is_ok()) {
        Ok(ok) => ensure!(!ok, "loading a tensor from {} ({:?}) is answered with success", what, p),
        Err(m) => return fail(format!("loading a tensor from {}: {}", what, m)),
    }
    Ok(())
}

// ------------------------------------------------- files that cannot hold all

/// What is saved, from a source of choices.
enum Saved {
    Net(Network, Vec<Spec>),
    Ten(Tensor, Sh, Vec<f32>),
}

impl Saved {
    fn of(s: &mut Src, net: bool) -> Result<Saved, Fail> {
        if net {
            s.long = s.chance(1, 3);
            let specs = stack(s, 4, false, true);
            s.long = false;
            let rig = Rig::of(&specs, s.chance(1, 2))?;
            return Ok(Saved::Net(rig.net, specs));
        }
        let sh = if s.chance(1, 3) { Sh(s.u(1, 400), s.u(1, 30), s.u(1, 4)) } else { shape(s, 60) };
        let v = anybits(s, sh.n()).v;
        Ok(Saved::Ten(mk(sh, &v)?, sh, v))
    }
    fn save(&self, f: &String) -> bool {
        match self {
            Saved::Net(n, _) => n.save_to_file(f).is_ok(),
            Saved::Ten(t, _, _) => t.save_to_file(f).is_ok(),
        }
    }
}

/// `vh limited <n|t> <big> <file of choices> <file> <limit>`: saves in a process
/// whose files may not grow beyond the limit. 0: success, 10: error, 11: panic.
pub fn limited(a: &[String]) -> i32 {
    extern "C" {
        fn setrlimit(what: i32, to: *const [u64; 2]) -> i32;
        fn signal(sig: i32, to: usize) -> usize;
    }
    let choices: Option<Vec<u64>> =
        std::fs::read_to_string(&a[2]).ok().map(|t| t.split(',').filter_map(|c| c.parse().ok()).collect());
    let (Some(choices), Ok(big), Ok(limit)) = (choices, a[1].parse(), a[4].parse::<u64>()) else { return 12 };
    let Ok(it) = Saved::of(&mut Src::fixed(choices, big), a[0] == "n") else { return 12 };
    // RLIMIT_FSIZE, with SIGXFSZ ignored: a write beyond the limit is cut short, the next one answered with an error
    unsafe {
        signal(25, 1);
        if setrlimit(1, &[limit, limit]) != 0 {
            return 12;
        }
    }
    match no_panic(|| it.save(&a[3])) {
        Ok(true) => 0,
        Ok(false) => 10,
        Err(_) => 11,
    }
}

fn space(s: &mut Src, ctx: &mut Ctx, net: bool) -> R {
    let from = s.rec.len();
    let it = Saved::of(s, net)?;
    let choices: Vec<String> = s.rec[from..].iter().map(|c| c.to_string()).collect();
    let (f, c) = (path("limited.bin"), path("limited.choices"));
    let _ = std::fs::remove_file(&f);
    put(&c, choices.join(",").as_bytes());
    ensure!(it.save(&f), "saving to a new file failed");
    let len = size(&f);
    ctx.label_if(len > 8192, "more than 8192 bytes");
    if s.chance(1, 2) {
        let _ = std::fs::remove_file(&f);
        ctx.label("new file");
    } else {
        put(&f, &vec![7; s.below(2 * len as usize + 2)]);
        ctx.label("existing file");
    }
    let limit = match s.below(8) {
        0 => len,
        1 => len - 1,
        2 => 0,
        3 => len + 1 + s.upto(5000),
        4 => (1 << s.below(17)).min(len - 1),
        5 => len - 1 - s.upto((len - 1).min(64)),
        _ => s.upto(len - 1),
    };
    ctx.note(|| format!("{} bytes where {} fit", len, limit));
    let st = std::process::Command::new(std::env::current_exe().expect("harness: own path"))
        .args(["limited", if net { "n" } else { "t" }, &s.big.to_string(), &c, &f, &limit.to_string()])
        .status()
        .expect("harness: child process");
    let ok = match st.code() {
        Some(0) => true,
        Some(10) => false,
        Some(11) => return fail(format!("saving {} bytes where {} fit panics", len, limit)),
        _ => panic!("harness: limited: {}", st),
    };
    ctx.nontrivial = limit < len;
    ctx.compared += 1;
    ctx.label(if ok { "saved" } else { "refused" });
    ensure!(!ok || limit >= len, "saving {} bytes where only {} can be written is answered with success", len, limit);
    ensure!(ok || limit < len, "saving {} bytes where {} can be written is answered with an error", len, limit);
    // with room again, the next save replaces what is there
    if !ok {
        ensure!(it.save(&f), "saving again, with room, failed");
    }
    ensure!(size(&f) == len, "the file has {} bytes, saved to a new file {}", size(&f), len);
    match &it {
        Saved::Net(_, specs) => {
            let mut net = Network::new(super::layerprops::mode_of(false));
            match no_panic(|| net.load_from_file(&f).map_err(|e| e.to_string())) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return fail(format!("loading failed: {}", e)),
                Err(m) => return fail(format!("loading: {}", m)),
            }
            let rig = Rig::of(specs, false)?;
            let sers: Vec<SerializedLayer> = rig.layers.iter().map(|l| l.ser()).collect();
            same_layers(&net, &sers, specs, 0, false)
        }
        Saved::Ten(_, sh, v) => match no_panic(|| Tensor::from_file(&f).map_err(|e| e.to_string())) {
            Ok(Ok(t)) => unchanged("loaded tensor", &t, *sh, v),
            Ok(Err(e)) => fail(format!("loading failed: {}", e)),
            Err(m) => fail(format!("loading: {}", m)),
        },
    }
}

fn c20_space(s: &mut Src, ctx: &mut Ctx) -> R {
    space(s, ctx, false)
}

fn c22_space(s: &mut Src, ctx: &mut Ctx) -> R {
    space(s, ctx, true)
}

// ---------------------------------------------------------------- C22

pub fn c22() -> Property {
    Property {
        id: "C22",
        rule: "Networks of 0-5 layers of all kinds with generated parameters and names, in either mode, saved over absent, longer or shorter files and loaded into empty or \
               filled receivers of either mode (the stored stack matching or not). Compared: every layer's serialized content, names, shapes, modes, every intermediate state and the input \
               gradients of generated inputs bit for bit with the original; the saved network stays as it was. Saves in a process whose files may only hold part of it. Non-trivial: at least two layers.",
        assumptions: &["parameters of any finite value; parameters with NaN only compared as stored content", "the file system keeps what was written"],
        facets: vec![
            Facet { name: "round trip", quick: 160_000, thorough: 1_920_000, run: c22_round },
            Facet { name: "append", quick: 98_000, thorough: 1_176_000, run: c22_append },
            Facet { name: "bad paths", quick: 6_600, thorough: 79_200, run: c22_paths },
            Facet { name: "several files", quick: 16_000, thorough: 192_000, run: c22_files },
            Facet { name: "threads", quick: 400, thorough: 4_800, run: c22_threads },
            Facet { name: "no space, limited", quick: 1_200, thorough: 14_400, run: c22_space },
            Facet { name: "round trip, large", quick: 100, thorough: 1_200, run: large!(c22_round) },
            Facet { name: "round trip, long", quick: 300, thorough: 3_600, run: long!(c22_round) },
            Facet { name: "append, long", quick: 200, thorough: 2_400, run: long!(c22_append) },
            Facet { name: "round trip, lasting", quick: 4, thorough: 48, run: c22_lasting },
        ],
    }
}

fn old_file(s: &mut Src, f: &str, ctx: &mut Ctx) -> bool {
    let _ = std::fs::remove_file(f);
    match s.below(3) {
        1 => {
            put(f, &vec![0x77; 3000 + s.below(20_000)]);
            ctx.label("over a longer file");
        }
        2 => {
            put(f, &vec![2; s.below(30)]);
            ctx.label("over a shorter file");
        }
        _ => return false,
    }
    true
}

/// The loaded layers are those of `specs` (from position `from`).
fn same_layers(net: &Network, sers: &[SerializedLayer], specs: &[Spec], from: usize, train: bool) -> R {
    ensure!(net.get_layers().len() == from + specs.len(), "the network has {} layers, expected {}", net.get_layers().len(), from + specs.len());
    for (i, sp) in specs.iter().enumerate() {
        let l = &net.get_layers()[from + i];
        ensure!(l.get_name() == *sp.name(), "layer {} is named {:?}, saved as {:?}", i, l.get_name(), sp.name());
        ensure!(
            Sh::of(l.get_input_shape()) == sp.ish() && Sh::of(l.get_output_shape()) == sp.osh(),
            "layer {} has shapes {:?} -> {:?}, saved as {}",
            i,
            Sh::of(l.get_input_shape()),
            Sh::of(l.get_output_shape()),
            sp.short()
        );
        ensure!(same_serialized(&l.get_serialized(), &sers[i]), "layer {} ({}) has other content than what was saved", i, sp.short());
        ensure!(
            l.get_run_mode() == super::layerprops::mode_of(train),
            "loaded layer {} ({}) is in {:?}, the receiving network has training={}",
            i,
            sp.short(),
            l.get_run_mode(),
            train
        );
    }
    Ok(())
}

/// Runs both networks on the same inputs; bits must agree.
fn same_runs(net: &mut Network, rig: &mut Rig, s: &mut Src, ctx: &mut Ctx) -> R {
    let n = rig.specs.len();
    for _ in 0..1 + s.below(2) {
        let x = rig.input(s, false);
        rig.infer(&x, ctx)?;
        let tx = mk(rig.specs[0].ish(), &x.v)?;
        if let Err(e) = net.infer(&tx) {
            return fail(format!("the loaded network refuses an input of its own shape: {} ({})", e, show(&rig.specs)));
        }
        let h = rig.held.clone().unwrap();
        for i in 0..=n {
            match net.get_intermediate_state(i) {
                Ok(t) => ensure!(same_bits(&dump(t), &h[i]), "state {} of the loaded network is {}, the original has {} ({})", i, small(&dump(t)), small(&h[i]), show(&rig.specs)),
                Err(e) => return fail(format!("the loaded network has no state {}: {}", i, e)),
            }
        }
        ctx.compared += n as u64;
        if rig.train {
            let osh = rig.specs[n - 1].osh();
            let g = mk(osh, &exact(s, osh.n()).v)?;
            let (a, b) = (rig.net.backward(&g), match no_panic(|| net.backward(&g)) {
                Ok(r) => r,
                Err(m) => return fail(format!("training on the loaded network: {} ({})", m, show(&rig.specs))),
            });
            ensure!(a.is_ok() && b.is_ok(), "backward gave {:?} on the original and {:?} on the loaded network ({})", a, b, show(&rig.specs));
            #[cfg(verif_hooks)]
            {
                let (p, q) = (rig.net.verif_gradients(), net.verif_gradients());
                ensure!(p.len() == q.len(), "stored gradients: {} and {}", p.len(), q.len());
                for i in 0..p.len() {
                    ensure!(
                        same_bits(&dump(&p[i]), &dump(&q[i])),
                        "gradient {} of the loaded network is {}, the original has {} ({})",
                        i,
                        small(&dump(&q[i])),
                        small(&dump(&p[i])),
                        show(&rig.specs)
                    );
                }
            }
            ctx.label("trained");
        } else {
            let osh = rig.specs[n - 1].osh();
            match no_panic(|| net.backward(&Tensor::new(osh.ts()))) {
                Ok(r) => ensure!(r.is_err(), "a network loaded in inference mode accepts backward"),
                Err(m) => return fail(format!("backward on a network loaded in inference mode: {}", m)),
            }
        }
    }
    Ok(())
}

fn c22_round(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.weighted(&[1, 14]);
    let mut specs = if n == 0 { vec![] } else { stack(s, 5, false, true) };
    let odd = !specs.is_empty() && s.chance(1, 8);
    if odd {
        for sp in specs.iter_mut() {
            match sp {
                Spec::Fc { w, .. } => *w = anybits(s, w.v.len()),
                Spec::Conv { ks, .. } => {
                    for k in ks.iter_mut() {
                        *k = anybits(s, k.v.len());
                    }
                }
                _ => {}
            }
        }
        ctx.label("any bit patterns as parameters");
    }
    let omode = s.chance(1, 2);
    let mut orig = Rig::of(&specs, omode)?;
    ctx.nontrivial = specs.len() > 1;
    ctx.label_if(specs.is_empty(), "no layers");
    for sp in &specs {
        ctx.label(KINDS[sp.kind()]);
    }
    ctx.note(|| format!("network {} training={}", specs.iter().map(|l| l.brief()).collect::<Vec<_>>().join(" -> "), omode));
    if !specs.is_empty() && !odd && s.chance(1, 2) {
        let x = orig.input(s, true);
        orig.infer(&x, ctx)?;
        ctx.label("used before saving");
    }
    let sers: Vec<SerializedLayer> = orig.layers.iter().map(|l| l.ser()).collect();
    let f = file_name(s);
    let over = old_file(s, &f, ctx);
    match no_panic(|| orig.net.save_to_file(&f).map_err(|e| e.to_string())) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return fail(format!("saving {} failed: {}", show(&specs), e)),
        Err(m) => return fail(format!("saving {}: {}", show(&specs), m)),
    }
    if over {
        // nothing of the former file is left: as long as a file that was not there before
        let f3 = path("fresh.bin");
        let _ = std::fs::remove_file(&f3);
        ensure!(orig.net.save_to_file(&f3).is_ok(), "saving to a new file failed");
        let (a, b) = (size(&f), size(&f3));
        ensure!(a == b, "saved over a former file the file has {} bytes, saved to a new file {} bytes ({})", a, b, show(&specs));
    }
    // saving changed nothing
    orig.still("saving")?;
    ensure!(orig.net.get_run_state() == super::layerprops::mode_of(omode), "saving changed the mode");
    for (i, l) in orig.layers.iter().enumerate() {
        ensure!(same_serialized(&l.ser(), &sers[i]), "saving changed layer {}", i);
    }
    let train = s.chance(1, 2);
    let mut net = Network::new(super::layerprops::mode_of(train));
    match no_panic(|| net.load_from_file(&f).map_err(|e| e.to_string())) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return fail(format!("loading {} failed: {}", show(&specs), e)),
        Err(m) => return fail(format!("loading {}: {}", show(&specs), m)),
    }
    ctx.label(if train { "receiver in training mode" } else { "receiver in inference mode" });
    ensure!(net.get_run_state() == super::layerprops::mode_of(train), "loading changed the receiving network's mode");
    same_layers(&net, &sers, &specs, 0, train)?;
    if specs.is_empty() {
        ensure!(net.get_output().is_err(), "a network loaded without layers has an output");
        return Ok(());
    }
    ensure!(
        Sh::of(net.get_input_shape()) == specs[0].ish() && Sh::of(net.get_output_shape()) == specs.last().unwrap().osh(),
        "the loaded network has shapes {:?} -> {:?} ({})",
        Sh::of(net.get_input_shape()),
        Sh::of(net.get_output_shape()),
        show(&specs)
    );
    if odd {
        return Ok(());
    }
    let mut twin = Rig::of(&specs, train)?;
    same_runs(&mut net, &mut twin, s, ctx)?;
    // and in the other mode
    let to = !train;
    twin.set(to);
    if to {
        net.switch_to_training()
    } else {
        net.switch_to_inference()
    }
    same_runs(&mut net, &mut twin, s, ctx)?;
    // a second generation
    let f2 = path("second.bin");
    ensure!(net.save_to_file(&f2).is_ok(), "saving the loaded network failed");
    let mut net2 = Network::new(super::layerprops::mode_of(train));
    if let Err(e) = net2.load_from_file(&f2) {
        return fail(format!("loading a twice saved network failed: {}", e));
    }
    same_layers(&net2, &sers, &specs, 0, train)
}

fn renamed(sp: &Spec, to: &str) -> Spec {
    let mut sp = sp.clone();
    match &mut sp {
        Spec::Fc { name, .. } | Spec::Conv { name, .. } | Spec::Mp { name, .. } | Spec::Sm { name, .. } => *name = to.to_string(),
    }
    sp
}

/// Networks that are alike: the same names and geometry, other values; and some that are not.
fn similar(s: &mut Src) -> Vec<Vec<Spec>> {
    let base = stack(s, 2, true, true);
    let mut pool = vec![base.clone()];
    for _ in 0..s.below(3) {
        pool.push(if s.chance(1, 3) {
            stack(s, 2, true, true)
        } else {
            let same = s.chance(1, 2);
            base.iter()
                .map(|sp| {
                    let t = twin(s, sp, true);
                    if same { renamed(&t, sp.name()) } else { t }
                })
                .collect()
        });
    }
    pool
}

fn c22_files(s: &mut Src, ctx: &mut Ctx) -> R {
    let files = names(s);
    let pool = similar(s);
    let rigs: Vec<Rig> = pool.iter().map(|p| Rig::of(p, s.chance(1, 2))).collect::<Result<_, _>>()?;
    let sers: Vec<Vec<SerializedLayer>> = rigs.iter().map(|r| r.layers.iter().map(|l| l.ser()).collect()).collect();
    let mut have: Vec<Option<usize>> = vec![None; files.len()];
    let (mut saves, mut loads) = (0, 0);
    let mut did: Vec<String> = Vec::new();
    let train = s.chance(1, 2);
    // grows by what is loaded into it
    let mut keep = Network::new(super::layerprops::mode_of(train));
    let mut kept: Vec<usize> = Vec::new();
    for _ in 0..s.times(3, 12) {
        match s.step(&[4, 5, 2, 2]) {
            0 => {
                let (i, f) = (s.below(pool.len()), s.below(files.len()));
                did.push(format!("save {} to {}", i, f));
                if let Err(e) = rigs[i].net.save_to_file(&files[f]) {
                    return fail(format!("after {:?}: saving {} failed: {}", did, show(&pool[i]), e));
                }
                have[f] = Some(i);
                saves += 1;
            }
            1 => {
                let f = s.below(files.len());
                let train = s.chance(1, 2);
                did.push(format!("load {}", f));
                let mut net = Network::new(super::layerprops::mode_of(train));
                match (net.load_from_file(&files[f]), have[f]) {
                    (Ok(()), Some(i)) => {
                        loads += 1;
                        ctx.compared += pool[i].len() as u64;
                        if let Err(e) = same_layers(&net, &sers[i], &pool[i], 0, train) {
                            return fail(format!("after {:?}: {:?}", did, e));
                        }
                        let x = mk(pool[i][0].ish(), &input(s, pool[i][0].ish().n(), true).v)?;
                        let mut twin = Rig::of(&pool[i], train)?;
                        ensure!(net.infer(&x).is_ok() && twin.net.infer(&x).is_ok(), "after {:?}: inference failed", did);
                        ensure!(
                            same_bits(&dump(net.get_output().unwrap()), &dump(twin.net.get_output().unwrap())),
                            "after {:?}: the loaded network computes something else than the saved one ({})",
                            did,
                            show(&pool[i])
                        );
                    }
                    (Err(_), None) => {}
                    (Ok(()), None) => return fail(format!("after {:?}: a missing file is loaded", did)),
                    (Err(e), Some(_)) => return fail(format!("after {:?}: loading failed: {}", did, e)),
                }
            }
            2 => {
                let f = s.below(files.len());
                did.push(format!("load {} into the same network again", f));
                let r = keep.load_from_file(&files[f]).map_err(|e| e.to_string());
                let chains = |i: usize| kept.last().map_or(true, |l| pool[*l].last().unwrap().osh() == pool[i][0].ish());
                let ok = have[f].map_or(false, chains);
                ensure!(r.is_ok() == ok, "after {:?}: the load gave {:?}, expected success: {}", did, r, ok);
                if ok && kept.iter().map(|k| pool[*k].len()).sum::<usize>() < 40 {
                    kept.push(have[f].unwrap());
                } else if ok {
                    keep = Network::new(super::layerprops::mode_of(train));
                    kept.clear();
                }
                let mut from = 0;
                let total: usize = kept.iter().map(|k| pool[*k].len()).sum();
                ensure!(keep.get_layers().len() == total, "after {:?}: {} layers instead of {}", did, keep.get_layers().len(), total);
                for k in &kept {
                    for (a, l) in sers[*k].iter().enumerate() {
                        ensure!(same_serialized(&keep.get_layers()[from + a].get_serialized(), l), "after {:?}: layer {} is another one", did, from + a);
                    }
                    from += pool[*k].len();
                }
            }
            _ => {
                let w = outside(s, &files, &mut have);
                did.push(w);
            }
        }
    }
    ctx.note(|| format!("{} files, networks {:?}: {:?}", files.len(), pool.iter().map(|p| show(p)).collect::<Vec<_>>(), did));
    ctx.nontrivial = saves > 1 && loads > 0;
    for (f, h) in files.iter().zip(&have) {
        ensure!(h.is_none() != std::path::Path::new(f).exists(), "after {:?}: file {:?} exists without having been saved or the other way round", did, f);
    }
    for (i, r) in rigs.iter().enumerate() {
        for (a, l) in r.layers.iter().enumerate() {
            ensure!(same_serialized(&l.ser(), &sers[i][a]), "after {:?}: layer {} of a saved network is another one", did, a);
        }
    }
    Ok(())
}

/// Different networks saved to different files of one folder by several threads at once.
fn c22_threads(s: &mut Src, ctx: &mut Ctx) -> R {
    let d = mine();
    let n = 2 + s.below(3);
    let plans: Vec<(String, [Vec<Spec>; 2])> = (0..n)
        .map(|i| {
            let a = stack(s, 3, true, true);
            let b = a.iter().map(|sp| twin(s, sp, true)).collect();
            (d.join(format!("q{}.bin", i)).to_str().unwrap().to_string(), [a, b])
        })
        .collect();
    ctx.nontrivial = true;
    ctx.note(|| format!("threads with networks {:?}", plans.iter().map(|p| show(&p.1[0])).collect::<Vec<_>>()));
    ctx.compared += n as u64 * 20;
    let gate = std::sync::Barrier::new(n);
    let got: Vec<R> = std::thread::scope(|sc| {
        let hs: Vec<_> = plans
            .iter()
            .map(|(f, ps)| {
                let gate = &gate;
                sc.spawn(move || -> R {
                    let rigs = [Rig::of(&ps[0], false)?, Rig::of(&ps[1], true)?];
                    let sers: Vec<Vec<SerializedLayer>> = rigs.iter().map(|r| r.layers.iter().map(|l| l.ser()).collect()).collect();
                    gate.wait();
                    for r in 0..20 {
                        if let Err(e) = rigs[r % 2].net.save_to_file(f) {
                            return fail(format!("saving {} while other threads save to other files failed: {}", show(&ps[r % 2]), e));
                        }
                        let mut net = Network::new(super::layerprops::mode_of(r % 3 == 0));
                        if let Err(e) = net.load_from_file(f) {
                            return fail(format!("loading {} while other threads use other files failed: {}", show(&ps[r % 2]), e));
                        }
                        same_layers(&net, &sers[r % 2], &ps[r % 2], 0, r % 3 == 0)?;
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| fail("saving or loading on a thread panicked"))).collect()
    });
    got.into_iter().collect()
}

/// A network of more than 65536 layers through a file.
fn c22_lasting(s: &mut Src, ctx: &mut Ctx) -> R {
    let orig = super::network::long_chain(s, false)?;
    let n = orig.specs.len();
    let sers: Vec<SerializedLayer> = orig.layers.iter().map(|l| l.ser()).collect();
    let f = path("chain.bin");
    if let Err(e) = orig.net.save_to_file(&f) {
        return fail(format!("saving {} layers failed: {}", n, e));
    }
    let train = s.chance(1, 2);
    let mut net = Network::new(super::layerprops::mode_of(train));
    if let Err(e) = net.load_from_file(&f) {
        return fail(format!("loading {} layers failed: {}", n, e));
    }
    same_layers(&net, &sers, &orig.specs, 0, train)?;
    super::network::chain_infers(&mut net, &orig.specs)?;
    let _ = std::fs::remove_file(&f);
    ctx.label("more than 65536 layers");
    ctx.nontrivial = true;
    Ok(())
}

fn c22_append(s: &mut Src, ctx: &mut Ctx) -> R {
    let first = stack(s, 3, true, true);
    let o = first.last().unwrap().osh();
    let fit = s.chance(2, 3);
    let mut second: Vec<Spec> = Vec::new();
    let mut sh = o;
    if !fit {
        sh = super::tensors::near(s, o);
    }
    let n = if s.chance(1, 16) { 0 } else { 1 + s.below(3) };
    ctx.label_if(n == 0, "a network without layers stored");
    for _ in 0..n {
        let l = spec_on(s, sh, true, true);
        sh = l.osh();
        second.push(l);
    }
    let fits = second.first().map_or(true, |l| l.ish() == o);
    let train = s.chance(1, 2);
    ctx.nontrivial = true;
    ctx.label(if fits { "stored layers fit" } else { "stored layers do not fit" });
    ctx.note(|| format!("{} saved, loaded into {} training={}", show(&second), show(&first), train));
    let f = path("append.bin");
    let stored = Rig::of(&second, s.chance(1, 2))?;
    let sers: Vec<SerializedLayer> = stored.layers.iter().map(|l| l.ser()).collect();
    ensure!(stored.net.save_to_file(&f).is_ok(), "saving failed");
    let mut rig = Rig::of(&first, train)?;
    let mut before = Vec::new();
    if s.chance(1, 2) {
        let x = rig.input(s, true);
        rig.infer(&x, ctx)?;
        if train && s.chance(1, 2) {
            let g = exact(s, o.n());
            super::network::backward_checked(&mut rig, &g, ctx)?;
            before = rig.layers.iter().map(|l| l.params_grad()).collect();
            ctx.label("receiver has gathered gradients");
        }
    }
    // the stored layers may also be handed over directly, one by one
    let direct = s.chance(1, 3);
    ctx.label_if(direct, "layers handed over directly");
    let r = match no_panic(|| {
        if direct {
            for (i, l) in sers.iter().enumerate() {
                if let Err(e) = l.add_to_network(&mut rig.net) {
                    return Err(format!("layer {}: {}", i, e));
                }
            }
            return Ok(());
        }
        rig.net.load_from_file(&f).map_err(|e| e.to_string())
    }) {
        Ok(r) => r,
        Err(m) => return fail(format!("loading {} into {}: {}", show(&second), show(&first), m)),
    };
    for (i, b) in before.iter().enumerate() {
        let (Some(b), Some(a)) = (b, rig.layers[i].params_grad()) else { continue };
        ensure!(
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_bits(&dump(x), &dump(y))),
            "appending {} layers to a trained network changed the gradients of its layer {} ({})",
            second.len(),
            i,
            show(&first)
        );
        ctx.compared += 1;
    }
    ctx.compared += 1;
    ensure!(r.is_ok() == fits, "loading {} into {} gave {:?}, the shapes chain: {}", show(&second), show(&first), r, fits);
    if !fits {
        ensure!(rig.net.get_layers().len() == first.len(), "a failed load left {} layers, there were {}", rig.net.get_layers().len(), first.len());
        rig.still("a failed load")?;
        ensure!(Sh::of(rig.net.get_output_shape()) == o, "a failed load changed the output shape");
        let x = rig.input(s, true);
        return rig.infer(&x, ctx);
    }
    same_layers(&rig.net, &sers, &second, first.len(), train)?;
    let all: Vec<Spec> = first.iter().chain(second.iter()).cloned().collect();
    let mut twin = Rig::of(&all, train)?;
    ensure!(
        Sh::of(rig.net.get_input_shape()) == all[0].ish() && Sh::of(rig.net.get_output_shape()) == all.last().unwrap().osh(),
        "after appending, shapes are {:?} -> {:?}",
        Sh::of(rig.net.get_input_shape()),
        Sh::of(rig.net.get_output_shape())
    );
    same_runs(&mut rig.net, &mut twin, s, ctx)
}

fn c22_paths(s: &mut Src, ctx: &mut Ctx) -> R {
    ctx.nontrivial = true;
    let specs = stack(s, 2, true, true);
    let mut rig = Rig::of(&specs, s.chance(1, 2))?;
    let x = rig.input(s, true);
    rig.infer(&x, ctx)?;
    let (p, what) = bad_path(s, false);
    if what == FULL && specs.len() > 30 {
        // a file that starts with the code of a digit would be taken
        return Ok(());
    }
    ctx.label(what);
    match no_panic(|| rig.net.save_to_file(&p).is_ok()) {
        Ok(ok) => ensure!(!ok || replaced_link(&p, what), "saving a network to {} is answered with success", what),
        Err(m) => return fail(format!("saving a network to {}: {}", what, m)),
    }
    let (p, what) = bad_path(s, true);
    ctx.label(what);
    match no_panic(|| rig.net.load_from_file(&p).is_ok()) {
        Ok(ok) => ensure!(!ok, "loading a network from {} is answered with success", what),
        Err(m) => return fail(format!("loading a network from {}: {}", what, m)),
    }
    ctx.compared += 2;
    ensure!(rig.net.get_layers().len() == specs.len(), "failed file access changed the layers");
    rig.still("failed file access")?;
    rig.infer(&x, ctx)
}

// ---------------------------------------------------------------- C23

pub fn c23() -> Property {
    Property {
        id: "C23",
        rule: "Valid tensor and network files damaged by truncation at any byte, bit flips, byte and 8-byte field overwrites (lengths, shapes, tags set to 0, 1, large, wrapping), \
               deleted, inserted or duplicated stretches, random bytes, the other file kind, and network files re-encoded with damaged inner fields, missing or swapped fields, \
               inconsistent shapes or layers that do not chain after some that do. Oracle: no panic; truncated files refused; Ok means consistent and usable (all indices, arithmetic, save and reload; \
               inference and training); Err leaves the receiving network as it was. Non-trivial: the file differs from the valid one.",
        assumptions: &[
            "files declaring more than a few million elements per tensor or layer are not used as inputs when they would be accepted (memory, not correctness)",
            "a file cut at its full length is not truncated",
        ],
        facets: vec![
            Facet { name: "tensor files", quick: 120_000, thorough: 1_440_000, run: c23_tensor },
            Facet { name: "network bytes", quick: 47_000, thorough: 564_000, run: c23_network },
            Facet { name: "network fields", quick: 62_000, thorough: 744_000, run: c23_fields },
            Facet { name: "tensor files, large", quick: 160, thorough: 1_920, run: large!(c23_tensor) },
            Facet { name: "network bytes, long", quick: 120, thorough: 1_440, run: long!(c23_network) },
        ],
    }
}

const NUMS: [u64; 14] = [0, 1, 2, 3, 5, 7, 100, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x4000_0000, u64::MAX, 1 << 62];

/// Damages a byte sequence; returns what was done.
fn hurt(s: &mut Src, b: &mut Vec<u8>) -> &'static str {
    let n = b.len().max(1);
    match s.weighted(&[5, 3, 3, 4, 3, 2, 2, 1, 1]) {
        0 => {
            let at = s.below(n);
            b.truncate(at);
            "truncated"
        }
        1 => {
            if !b.is_empty() {
                let at = s.below(n);
                b[at] ^= 1 << s.below(8);
            }
            "bit flip"
        }
        2 => {
            if !b.is_empty() {
                let at = s.below(n);
                b[at] = s.upto(255) as u8;
            }
            "byte overwritten"
        }
        3 => {
            // 4-byte field
            if b.len() >= 4 {
                let at = s.below(b.len() - 3);
                let at = if s.chance(2, 3) { at / 4 * 4 } else { at };
                let v = NUMS[s.below(NUMS.len())] as u32;
                b[at..at + 4].copy_from_slice(&v.to_le_bytes());
            }
            "4-byte field overwritten"
        }
        4 => {
            if b.len() >= 8 {
                let at = s.below(b.len() - 7);
                let v = NUMS[s.below(NUMS.len())];
                b[at..at + 8].copy_from_slice(&v.to_le_bytes());
            }
            "8-byte field overwritten"
        }
        5 => {
            if !b.is_empty() {
                let at = s.below(n);
                let k = (1 + s.below(16)).min(b.len() - at);
                b.drain(at..at + k);
            }
            "stretch deleted"
        }
        6 => {
            let at = s.below(n + 1).min(b.len());
            let k = 1 + s.below(16);
            let ins: Vec<u8> = (0..k).map(|_| s.upto(255) as u8).collect();
            b.splice(at..at, ins);
            "stretch inserted"
        }
        7 => {
            let k = s.below(120);
            *b = (0..k).map(|_| s.upto(255) as u8).collect();
            "random bytes"
        }
        _ => {
            let c = b.clone();
            b.extend(c);
            "appended to itself"
        }
    }
}

/// A tensor obtained from a file must be a proper tensor.
pub fn consistent(what: &str, t: &Tensor, room: usize, s: &mut Src) -> R {
    let sh = Sh::of(t.get_shape());
    let n = sh.0 as u128 * sh.1 as u128 * sh.2 as u128;
    ensure!(n * 4 <= room as u128 + 64, "{}: shape {:?} needs {} elements, the file has {} bytes", what, sh, n, room);
    if n == 0 {
        return Ok(());
    }
    let run = || -> R {
        ensure!(t.total_items() as u128 == n, "{}: {} elements for shape {:?}", what, t.total_items(), sh);
        let v = dump(t);
        let mut w = t.clone();
        let mut seen = std::collections::HashSet::new();
        for p in 0..v.len() {
            let (i, j, k) = sh.un(p);
            let ix = rusty_network::tensor::helper::TensorIndex { i, j, k };
            ensure!(seen.insert(t.get_data_index(&ix)), "{}: two indices of {:?} share an element", what, sh);
            w.set_item(&ix, p as f32);
        }
        for p in 0..v.len() {
            let (i, j, k) = sh.un(p);
            let got = w.get_item(&rusty_network::tensor::helper::TensorIndex { i, j, k });
            ensure!(got == p as f32, "{}: element {:?} of {:?} does not keep what is written to it", what, (i, j, k), sh);
        }
        // the same layout as any other tensor
        let lin = mk(sh, &v)?;
        ensure!(same_bits(&dump(&lin), &v), "{}: layout", what);
        ensure!((*t == lin) == !v.iter().any(|x| x.is_nan()), "{}: not equal to a tensor with the same elements", what);
        let mut z = Tensor::new(sh.ts());
        Tensor::add_to_self(&mut z, t);
        let zv = dump(&z);
        ensure!(
            zv.iter().zip(&v).all(|(a, b)| *a == *b || a.is_nan() && b.is_nan()),
            "{}: adding it to zero gives {} instead of {}",
            what,
            small(&zv),
            small(&v)
        );
        let mut tr = Tensor::new(Sh(sh.1, sh.0, sh.2).ts());
        ensure!(Tensor::transpose_ij(t, &mut tr).is_ok(), "{}: cannot be transposed", what);
        let tv = dump(&tr);
        let tsh = Sh(sh.1, sh.0, sh.2);
        for p in 0..v.len() {
            let (i, j, k) = sh.un(p);
            ensure!(tv[tsh.at(j, i, k)].to_bits() == v[p].to_bits(), "{}: transposition loses element {:?}", what, (i, j, k));
        }
        let mut c = t.clone();
        ensure!(c.fill_with_vec(vec![0.0; v.len() + 1]).is_err(), "{}: accepts too much data", what);
        ensure!(c.fill_with_vec(vec![0.0; v.len()]).is_ok(), "{}: refuses data of its own size", what);
        let f = path("consistent.bin");
        ensure!(t.save_to_file(&f).is_ok(), "{}: cannot be saved", what);
        match Tensor::from_file(&f) {
            Ok(u) => unchanged("saved and reloaded tensor", &u, sh, &v),
            Err(e) => fail(format!("{}: cannot be reloaded after saving: {}", what, e)),
        }
    };
    let _ = s;
    match no_panic(run) {
        Ok(r) => r,
        Err(m) => fail(format!("{}: accepted, but then {}", what, m)),
    }
}

fn c23_tensor(s: &mut Src, ctx: &mut Ctx) -> R {
    let f = path("t.bin");
    let max = if s.chance(1, 10) { 300 } else { 24 };
    let sh = shape(s, max);
    let t = mk(sh, &exact(s, sh.n()).v)?;
    ensure!(t.save_to_file(&f).is_ok(), "saving failed");
    let full = std::fs::read(&f).expect("harness: read");
    let mut b = full.clone();
    let what: &'static str;
    if s.chance(1, 12) {
        let specs = stack(s, 2, true, true);
        let rig = Rig::of(&specs, false)?;
        ensure!(rig.net.save_to_file(&f).is_ok(), "saving failed");
        b = canonical(std::fs::read(&f).expect("harness: read"));
        what = "a network file";
    } else if s.chance(1, 3) {
        // header fields of the known layout: 3 strides, 3 extents, length
        let vals: [u32; 12] = [0, 1, 2, 3, sh.0, sh.1, sh.2, sh.n() as u32, sh.n() as u32 + 1, 0xffff_ffff, 0x8000_0000, 0x1_0000];
        for _ in 0..1 + s.below(3) {
            let at = 4 * s.below(8);
            if at + 4 <= b.len() {
                b[at..at + 4].copy_from_slice(&vals[s.below(vals.len())].to_le_bytes());
            }
        }
        what = "header fields overwritten";
    } else {
        let w = hurt(s, &mut b);
        if s.chance(1, 4) {
            hurt(s, &mut b);
            what = "damaged twice";
        } else {
            what = w;
        }
    }
    ctx.label(what);
    ctx.nontrivial = b != full;
    ctx.note(|| format!("tensor {:?} file of {} bytes, {}: {} bytes {:?}", sh, full.len(), what, b.len(), &b[..b.len().min(120)]));
    put(&f, &b);
    ctx.compared += 1;
    let r = match no_panic(|| Tensor::from_file(&f).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(m) => return fail(format!("loading a tensor file ({}): {}", what, m)),
    };
    let cut = b.len() < full.len() && full.starts_with(&b);
    if cut {
        ensure!(r.is_err(), "a tensor file of {:?} truncated from {} to {} bytes is accepted", sh, full.len(), b.len());
    }
    match r {
        Err(_) => {
            ctx.label("refused");
            Ok(())
        }
        Ok(t) => {
            ctx.label("accepted");
            match bincode::serialize(&t) {
                Ok(e) => ensure!(b.starts_with(&e), "a tensor file ({}) is accepted, but the tensor is not the one in the file: {:?} became {:?}", what, &b[..b.len().min(80)], &e[..e.len().min(80)]),
                Err(e) => return fail(format!("a tensor loaded from a file ({}) cannot be encoded: {}", what, e)),
            }
            consistent(&format!("tensor from a file ({})", what), &t, b.len(), s)
        }
    }
}

// ---- network files

fn le(v: u32) -> [u8; 4] {
    v.to_le_bytes()
}

/// A network file with the fields of every layer in one fixed order: the order
/// the library writes them in is that of a hash map and differs between runs,
/// which would make damage at a position irreproducible.
fn canonical(b: Vec<u8>) -> Vec<u8> {
    let ls: Vec<SerializedLayer> = match bincode::deserialize(&b) {
        Ok(l) => l,
        Err(_) => return b,
    };
    let mut out = (ls.len() as u64).to_le_bytes().to_vec();
    for l in &ls {
        macro_rules! put_map {
            ($tag:expr, $m:expr) => {{
                out.extend(le($tag));
                out.extend(($m.len() as u64).to_le_bytes());
                let mut es: Vec<Vec<u8>> = $m.iter().map(|e| bincode::serialize(&e).expect("harness: encode")).collect();
                es.sort();
                es.iter().for_each(|e| out.extend(e));
            }};
        }
        match l {
            SerializedLayer::SerialConvolutionalLayer(m) => put_map!(0, m),
            SerializedLayer::SerialFullyConnectedLayer(m) => put_map!(1, m),
            SerializedLayer::SerialMaxPoolLayer(m) => put_map!(2, m),
            SerializedLayer::SerialSoftMaxLayer(m) => put_map!(3, m),
        }
    }
    if out.len() == b.len() {
        out
    } else {
        b
    }
}

/// Declared sizes in a decodable network file: would accepting it need much memory?
pub fn too_big(b: &[u8]) -> bool {
    let ls: Vec<SerializedLayer> = match bincode::deserialize(b) {
        Ok(l) => l,
        Err(_) => return false,
    };
    let big = |v: Option<&Vec<u8>>| -> bool {
        match v.map(|v| bincode::deserialize::<TensorShape>(v)) {
            Some(Ok(sh)) => {
                let n = sh.di as u128 * sh.dj as u128 * sh.dk as u128;
                // a zero extent next to huge ones is an empty tensor with endless loops around it
                let loops = sh.di.max(1) as u128 * sh.dj.max(1) as u128 * sh.dk.max(1) as u128;
                loops > 200_000 && n <= u32::MAX as u128
            }
            _ => false,
        }
    };
    // an encoded tensor: strides, extents, data
    let bigt = |v: Option<&Vec<u8>>, skip: usize| -> bool { v.map_or(false, |v| v.len() >= 24 + skip && big(Some(&v[12 + skip..].to_vec()))) };
    ls.iter().any(|l| match l {
        SerializedLayer::SerialConvolutionalLayer(m) => big(m.get(&CK::InputShape)) || bigt(m.get(&CK::Kernels), 8) || bigt(m.get(&CK::Biases), 8),
        SerializedLayer::SerialMaxPoolLayer(m) => big(m.get(&MK::InputShape)) || big(m.get(&MK::MaskShape)),
        SerializedLayer::SerialSoftMaxLayer(m) => big(m.get(&SK::Shape)),
        SerializedLayer::SerialFullyConnectedLayer(m) => bigt(m.get(&FK::Weights), 0) || bigt(m.get(&FK::Bias), 0),
    })
}

/// Loads the file into a prepared receiver and judges the outcome.
fn judge(b: &[u8], what: &'static str, cut: bool, s: &mut Src, ctx: &mut Ctx) -> R {
    if too_big(b) {
        ctx.label("skipped: declares a huge layer");
        return Ok(());
    }
    let f = path("n.bin");
    put(&f, b);
    let train = s.chance(1, 2);
    let base = if s.chance(1, 3) { stack(s, 2, true, true) } else { vec![] };
    judge_into(&f, what, cut, base, train, s, ctx)
}

fn judge_into(f: &String, what: &'static str, cut: bool, base: Vec<Spec>, train: bool, s: &mut Src, ctx: &mut Ctx) -> R {
    let mut rig = Rig::of(&base, train)?;
    if !base.is_empty() && s.chance(1, 2) {
        let x = rig.input(s, true);
        rig.infer(&x, ctx)?;
        ctx.label("receiver holds layers and a result");
    }
    let sers: Vec<SerializedLayer> = rig.layers.iter().map(|l| l.ser()).collect();
    let shapes = (Sh::of(rig.net.get_input_shape()), Sh::of(rig.net.get_output_shape()));
    ctx.compared += 1;
    let r = match no_panic(|| rig.net.load_from_file(f).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(m) => return fail(format!("loading a network file ({}) into {} layers: {}", what, base.len(), m)),
    };
    if cut {
        ensure!(r.is_err(), "a truncated network file is accepted ({})", what);
    }
    ensure!(rig.net.get_run_state() == super::layerprops::mode_of(train), "loading changed the mode of the receiving network");
    match r {
        Err(e) => {
            ctx.label("refused");
            ensure!(
                rig.net.get_layers().len() == base.len(),
                "a failed load ({}; {}) left {} layers in a network of {}",
                what,
                e,
                rig.net.get_layers().len(),
                base.len()
            );
            ensure!(
                (Sh::of(rig.net.get_input_shape()), Sh::of(rig.net.get_output_shape())) == shapes,
                "a failed load ({}) changed the shapes of the receiving network",
                what
            );
            rig.still("a failed load")?;
            for (i, l) in rig.layers.iter().enumerate() {
                ensure!(same_serialized(&l.ser(), &sers[i]), "a failed load changed layer {}", i);
                ensure!(l.mode() == super::layerprops::mode_of(train), "a failed load changed the mode of layer {}", i);
            }
            ensure!(rig.net.get_intermediate_state(if base.is_empty() { 0 } else { base.len() + 1 }).is_err(), "a failed load ({}) left states behind", what);
            if base.is_empty() {
                // still as good as new
                let sp = stack(s, 1, true, true).remove(0);
                if let Err(e) = rig.add(&sp)? {
                    return fail(format!("after a failed load ({}) an empty network refuses a layer: {}", what, e));
                }
            }
            let x = rig.input(s, true);
            rig.infer(&x, ctx)?;
            if train {
                let g = exact(s, rig.specs.last().unwrap().osh().n());
                super::network::backward_checked(&mut rig, &g, ctx)?;
            }
            Ok(())
        }
        Ok(()) => {
            ctx.label("accepted");
            // what the file holds, as far as it can be decoded at all
            let held = std::fs::read(f).ok().and_then(|b| bincode::deserialize::<Vec<SerializedLayer>>(&b).ok());
            if let Some(held) = held {
                let n = rig.net.get_layers().len();
                ensure!(n == base.len() + held.len(), "{}: accepted, but a network of {} layers became one of {} from a file of {} layers", what, base.len(), n, held.len());
                for (i, h) in held.iter().enumerate() {
                    let l = rig.net.get_layers()[base.len() + i].get_serialized();
                    if let Err(m) = stands_for(h, &l) {
                        return fail(format!("{}: accepted, but layer {} is not the one in the file: {}", what, i, m));
                    }
                }
                ctx.compared += held.len() as u64;
            }
            match no_panic(|| usable_network(&mut rig, what, train)) {
                Ok(r) => r,
                Err(m) => fail(format!("a network file ({}) is accepted, but then {}", what, m)),
            }
        }
    }
}

/// Does a loaded layer hold exactly what the stored one encodes? Every field
/// must be there and decode to what the layer now has; bytes behind a complete
/// value are nobody's business.
fn stands_for(stored: &SerializedLayer, loaded: &SerializedLayer) -> Result<(), String> {
    macro_rules! fields {
        ($a:expr, $b:expr, [$($k:expr),*]) => {{
            $(
                match ($a.get(&$k), $b.get(&$k)) {
                    (Some(x), Some(y)) if x.starts_with(y) && !y.is_empty() => (),
                    (None, _) => return Err(format!("the file has no field {}", stringify!($k))),
                    (Some(x), y) => return Err(format!("field {} holds {:?} and became {:?}", stringify!($k), &x[..x.len().min(40)], y.map(|y| y[..y.len().min(40)].to_vec()))),
                }
            )*
            Ok(())
        }};
    }
    use SerializedLayer::*;
    match (stored, loaded) {
        (SerialFullyConnectedLayer(a), SerialFullyConnectedLayer(b)) => fields!(a, b, [FK::Weights, FK::Bias, FK::Name]),
        (SerialConvolutionalLayer(a), SerialConvolutionalLayer(b)) => fields!(a, b, [CK::Kernels, CK::Biases, CK::InputShape, CK::Stride, CK::Name]),
        (SerialMaxPoolLayer(a), SerialMaxPoolLayer(b)) => fields!(a, b, [MK::InputShape, MK::MaskShape, MK::Stride, MK::Name]),
        (SerialSoftMaxLayer(a), SerialSoftMaxLayer(b)) => fields!(a, b, [SK::Shape, SK::Name]),
        _ => Err("a layer of another kind".into()),
    }
}

fn usable_network(rig: &mut Rig, what: &str, train: bool) -> R {
    let net = &mut rig.net;
    let n = net.get_layers().len();
    if n == 0 {
        return Ok(());
    }
    let mut sh = Sh::of(net.get_input_shape());
    ensure!(sh == Sh::of(net.get_layers()[0].get_input_shape()), "{}: network input shape {:?} is not the first layer's", what, sh);
    for l in net.get_layers().iter() {
        ensure!(Sh::of(l.get_input_shape()) == sh, "{}: loaded layers do not chain at {:?}", what, sh);
        sh = Sh::of(l.get_output_shape());
        ensure!(l.get_run_mode() == super::layerprops::mode_of(train), "{}: a loaded layer is in {:?}", what, l.get_run_mode());
        let _ = l.get_name();
        let _ = l.get_serialized();
    }
    ensure!(sh == Sh::of(net.get_output_shape()), "{}: network output shape {:?} is not the last layer's", what, Sh::of(net.get_output_shape()));
    let ish = Sh::of(net.get_input_shape());
    for t in [train, !train] {
        if t != train {
            if t { net.switch_to_training() } else { net.switch_to_inference() }
        }
        let x = mk(ish, &(0..ish.n()).map(|p| p as f32 - 1.0).collect::<Vec<_>>())?;
        if let Err(e) = net.infer(&x) {
            return fail(format!("{}: accepted, but inference on its declared shape {:?} fails: {}", what, ish, e));
        }
        for i in 0..=n {
            let want = if i == 0 { ish } else { Sh::of(net.get_layers()[i - 1].get_output_shape()) };
            match net.get_intermediate_state(i) {
                Ok(st) => {
                    ensure!(Sh::of(st.get_shape()) == want && dump(st).len() == want.n(), "{}: state {} has shape {:?}", what, i, Sh::of(st.get_shape()))
                }
                Err(e) => return fail(format!("{}: no state {}: {}", what, i, e)),
            }
        }
        let mut g = Tensor::new(net.get_output_shape());
        g.fill_with_value(1.0);
        let r = net.backward(&g);
        ensure!(r.is_ok() == t, "{}: backward with training={} gives {:?}", what, t, r);
    }
    let f = path("resaved.bin");
    ensure!(net.save_to_file(&f).is_ok(), "{}: accepted, but cannot be saved", what);
    let mut again = Network::new(super::layerprops::mode_of(train));
    if let Err(e) = again.load_from_file(&f) {
        return fail(format!("{}: accepted, but cannot be reloaded after saving: {}", what, e));
    }
    ensure!(again.get_layers().len() == n, "{}: {} layers after saving and reloading, {} before", what, again.get_layers().len(), n);
    Ok(())
}

fn c23_network(s: &mut Src, ctx: &mut Ctx) -> R {
    let f = path("v.bin");
    let specs = stack(s, 3, true, true);
    let rig = Rig::of(&specs, false)?;
    ensure!(rig.net.save_to_file(&f).is_ok(), "saving failed");
    let full = canonical(std::fs::read(&f).expect("harness: read"));
    let mut b = full.clone();
    let what: &'static str;
    if s.chance(1, 20) {
        let sh = shape(s, 50);
        ensure!(mk(sh, &exact(s, sh.n()).v)?.save_to_file(&f).is_ok(), "saving failed");
        b = std::fs::read(&f).expect("harness: read");
        what = "a tensor file";
    } else {
        let w = hurt(s, &mut b);
        if s.chance(1, 4) {
            hurt(s, &mut b);
            what = "damaged twice";
        } else {
            what = w;
        }
    }
    ctx.label(what);
    ctx.nontrivial = b != full;
    let cut = b.len() < full.len() && full.starts_with(&b);
    ctx.note(|| format!("{} file of {} bytes, {}: {} bytes", show(&specs), full.len(), what, b.len()));
    judge(&b, what, cut, s, ctx)
}

/// Well-formed files whose content is wrong.
fn c23_fields(s: &mut Src, ctx: &mut Ctx) -> R {
    let specs = stack(s, 3, true, true);
    let mut ls: Vec<SerializedLayer> = Vec::new();
    for sp in &specs {
        ls.push(sp.build()?.ser());
    }
    let at = s.below(ls.len());
    let what: &'static str;
    match s.weighted(&[3, 4, 5, 3, 3, 2]) {
        0 => {
            let k = s.below(20);
            ls[at] = damage(&ls[at], k, None);
            what = "a layer without one of its fields";
        }
        1 => {
            let k = s.below(20);
            let g = match s.below(4) {
                0 => vec![],
                1 => vec![0xff; s.below(40)],
                2 => (0..s.below(40)).map(|_| s.upto(255) as u8).collect(),
                _ => le(s.bits32()).to_vec(),
            };
            ls[at] = damage(&ls[at], k, Some(g));
            what = "a field replaced by garbage";
        }
        2 => {
            what = "a field damaged";
            hurt_field(s, &mut ls[at]);
        }
        3 => {
            // a layer that does not follow the one before it
            let o = specs[at].ish();
            let w = super::tensors::near(s, o);
            let sp = spec_on(s, w, true, true);
            ls[at] = sp.build()?.ser();
            what = "a layer exchanged";
        }
        4 => {
            let k = s.below(4);
            let sp = spec(s, k, true);
            ls.push(sp.build()?.ser());
            what = "a layer appended";
        }
        _ => {
            // geometry that cannot work
            let sp = spec(s, 2, true);
            let mut l = sp.build()?.ser();
            if let SerializedLayer::SerialMaxPoolLayer(m) = &mut l {
                let num = [0u32, 1, 2, 7, 0xffff_ffff, 0x8000_0000][s.below(6)];
                match s.below(4) {
                    0 => {
                        m.insert(MK::Stride, le(num).to_vec());
                    }
                    1 | 2 => {
                        let key = if s.chance(1, 2) { MK::MaskShape } else { MK::InputShape };
                        let mut v = Vec::new();
                        for _ in 0..3 {
                            v.extend(le(if s.chance(1, 2) { num } else { s.u(0, 5) }));
                        }
                        m.insert(key, v);
                    }
                    _ => {
                        m.insert(MK::Name, vec![3, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xfe, 0xfd]);
                    }
                }
            }
            ls.insert(at, l);
            what = "impossible pooling fields";
        }
    }
    ctx.label(what);
    ctx.nontrivial = true;
    let b = canonical(bincode::serialize(&ls).expect("harness: encode"));
    ctx.note(|| format!("{}: {} at layer {}, {} bytes", show(&specs), what, at, b.len()));
    judge(&b, what, false, s, ctx)
}

fn hurt_field(s: &mut Src, l: &mut SerializedLayer) {
    macro_rules! pick {
        ($m:expr, [$($k:expr),*]) => {{
            let n = [$(stringify!($k)),*].len();
            let at = s.below(n);
            let mut i = 0usize;
            $(
                if i == at {
                    if let Some(v) = $m.get_mut(&$k) {
                        hurt(s, v);
                    }
                }
                i += 1;
            )*
            let _ = i;
        }};
    }
    match l {
        SerializedLayer::SerialFullyConnectedLayer(m) => pick!(m, [FK::Weights, FK::Bias, FK::Name]),
        SerializedLayer::SerialConvolutionalLayer(m) => pick!(m, [CK::Kernels, CK::Biases, CK::InputShape, CK::Stride, CK::Name]),
        SerializedLayer::SerialMaxPoolLayer(m) => pick!(m, [MK::InputShape, MK::MaskShape, MK::Stride, MK::Name]),
        SerializedLayer::SerialSoftMaxLayer(m) => pick!(m, [SK::Shape, SK::Name]),
    }
}
