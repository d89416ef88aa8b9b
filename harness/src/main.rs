//! vh check <id> | replay <file> | list
//!
//! `check` runs the cases in a child process (`run`), so that an input that kills
//! the process (abort, stack overflow) is still found, isolated and shrunk.

use std::io::Write;
use std::time::Instant;
use vh::engine::*;
use vh::props;

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn cut(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        format!("{}...", s.chars().take(n).collect::<String>())
    }
}

/// Lines "known: property=<id> sig=<signature> <text>" of the known-findings file.
fn known(id: &str) -> Vec<(String, String)> {
    let p = format!("{}/known_findings.txt", verif_dir());
    let mut v = Vec::new();
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let mut w = r.splitn(3, ' ');
            if let (Some(a), Some(b), Some(c)) = (w.next(), w.next(), w.next()) {
                if a == format!("property={}", id) {
                    if let Some(sig) = b.strip_prefix("sig=") {
                        v.push((c.to_string(), sig.to_string()));
                    }
                }
            }
        }
    }
    v
}

/// A few real cases of this run, written out.
fn samples(p: &Property, seed: u64, big: u32) -> Vec<String> {
    let mut out = Vec::new();
    for f in &p.facets {
        let mut got = 0;
        for i in 0..200u64 {
            let mut src = Src::random(case_seed(seed, p.id, f.name, i), big);
            let mut ctx = Ctx { verbose: true, ..Ctx::default() };
            let r = eval(f.run, &mut src, &mut ctx);
            if ctx.nontrivial {
                let t = format!("{} case {}: {} => {}", f.name, i, ctx.notes.join("; "), if r.is_ok() { "held" } else { "FAILED" });
                out.push(cut(&t, 700));
                got += 1;
                if got == 2 {
                    break;
                }
            }
        }
    }
    out
}

fn threads() -> usize {
    std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8))
}

fn write_replay(id: &str, facet: &str, big: u32, seed: u64, index: u64, choices: &[u64], msg: &str, notes: &[String]) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let slug: String = facet.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
    let replay = format!("{}/{}-{}-{}.replay", dir, id, slug, index);
    let mut t = String::new();
    t.push_str(&format!("property={}\nfacet={}\nbig={}\nseed={}\ncase={}\n", id, facet, big, seed, index));
    t.push_str(&format!("choices={}\n", choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")));
    t.push_str(&format!("# {}\n", msg.replace('\n', " ")));
    for n in notes {
        t.push_str(&format!("#   {}\n", n.replace('\n', " ")));
    }
    t.push_str(&format!("# rerun: {}/check.sh replay {}\n", verif_dir(), replay));
    if std::fs::write(&replay, t).is_err() {
        eprintln!("error: cannot write {}", replay);
    }
    replay
}

fn tier() -> (u64, bool) {
    (
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
    )
}

/// Did the child die of itself (abort, illegal access, stack overflow)?
fn crashed(st: &std::process::ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    st.signal().filter(|s| [4, 5, 6, 7, 8, 11].contains(s))
}

fn check(id: &str) -> i32 {
    let me = std::env::current_exe().expect("own path");
    let go = |trace: Option<&str>| {
        let mut c = std::process::Command::new(&me);
        c.arg("run").arg(id);
        if let Some(t) = trace {
            c.env("VH_TRACE", t);
        }
        c.status()
    };
    let st = match go(None) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("error: cannot run: {}", e);
            return 2;
        }
    };
    if let Some(c) = st.code() {
        return c;
    }
    if crashed(&st).is_none() {
        eprintln!("error: {}: the check was ended from outside ({})", id, st);
        return 3;
    }
    // Something killed the process: find the case that does.
    let (seed, thorough) = tier();
    let big = thorough as u32;
    let tmp = std::env::temp_dir();
    let trace = tmp.join(format!("vh-trace-{}", std::process::id()));
    let log = tmp.join(format!("vh-log-{}", std::process::id()));
    let _ = go(Some(&trace.to_string_lossy()));
    let text = std::fs::read(&trace).unwrap_or_default();
    let mut started: Vec<(u64, String)> = String::from_utf8_lossy(&text)
        .split(|c| c == '\n' || c == '\0')
        .filter_map(|l| {
            let (a, b) = l.trim().split_once(' ')?;
            Some((a.parse().ok()?, b.to_string()))
        })
        .collect();
    started.sort();
    let one = |facet: &str, what: &str, arg: &str| -> Option<(i32, Vec<u64>)> {
        let _ = std::fs::remove_file(&log);
        let st = std::process::Command::new(&me)
            .args(["one", id, facet, what, arg, &big.to_string()])
            .env("VH_LOG", &log)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .ok()?;
        let sig = crashed(&st)?;
        Some((sig, std::fs::read_to_string(&log).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect()))
    };
    let mut code = 3;
    for (i, facet) in &started {
        if let Some((sig, choices)) = one(facet, "seed", &case_seed(seed, id, facet, *i).to_string()) {
            let e = Fail { msg: format!("the process is killed by signal {}", sig), sig: String::new() };
            let test = |v: &[u64]| -> Option<(Vec<u64>, Fail)> {
                let arg = v.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
                let (sig, rec) = one(facet, "choices", &arg)?;
                Some((rec, Fail { msg: format!("the process is killed by signal {}", sig), sig: String::new() }))
            };
            let (choices, err, n) = shrink_with(&test, choices, e, 1000);
            let replay = write_replay(id, facet, big, seed, *i, &choices, &err.msg, &[]);
            let ev = format!(
                "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":1,\"rule\":{},\"samples\":[{}],\"shrink_evaluations\":{}}},\"wall_s\":0.0,\"violations\":1}}\n",
                esc(id),
                if thorough { "\"thorough\"" } else { "\"quick\"" },
                seed,
                i + 1,
                esc("ended by a case that kills the process; only cases up to that one are counted"),
                esc(&format!("{} case {}: {}", facet, i, err.msg)),
                n
            );
            let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
            let _ = std::fs::write(format!("{}/evidence/{}.json", verif_dir(), id), ev);
            println!("{} {} case {} (shrunk to {} choices): {}", id, facet, i, choices.len(), err.msg);
            println!("VIOLATION property={} replay={}", id, replay);
            code = 1;
            break;
        }
    }
    if code != 1 {
        eprintln!("error: {}: the check died ({}), but no single case reproduces it", id, st);
    }
    let _ = std::fs::remove_file(&trace);
    let _ = std::fs::remove_file(&log);
    code
}

/// One case, in a process of its own.
fn one(id: &str, facet: &str, what: &str, arg: &str, big: u32) -> i32 {
    for p in props::all() {
        for f in &p.facets {
            if p.id == id && f.name == facet {
                let mut src = if what == "seed" {
                    Src::random(arg.parse().unwrap_or(0), big)
                } else {
                    Src::fixed(arg.split(',').filter_map(|c| c.parse().ok()).collect(), big)
                };
                src.log = std::env::var("VH_LOG").ok().and_then(|p| std::fs::File::create(p).ok());
                let mut ctx = Ctx::default();
                return eval(f.run, &mut src, &mut ctx).is_err() as i32;
            }
        }
    }
    2
}

/// An input found by the coverage-guided fuzzer: does it fail, and what is its shortest form?
fn bytes(id: &str, facet: &str, file: &str) -> i32 {
    let data = match std::fs::read(file) {
        Ok(d) => d,
        Err(e) => {
            eprintln!("error: {}: {}", file, e);
            return 2;
        }
    };
    for p in props::all() {
        for f in &p.facets {
            if p.id != id || f.name != facet {
                continue;
            }
            let mut src = Src::bytes(data, 0);
            let mut ctx = Ctx::default();
            let e = match eval(f.run, &mut src, &mut ctx) {
                Ok(()) => {
                    eprintln!("{} {}: holds on this input", id, facet);
                    return 0;
                }
                Err(e) => e,
            };
            if let Some((text, _)) = known(id).iter().find(|(_, sig)| !e.sig.is_empty() && *sig == e.sig) {
                println!("KNOWN-FINDING: property={} {}", id, text);
                return 0;
            }
            let (choices, err, n) = shrink(f.run, src.rec.clone(), 0, e);
            let mut v = Ctx { verbose: true, ..Ctx::default() };
            let _ = eval(f.run, &mut Src::fixed(choices.clone(), 0), &mut v);
            let (seed, thorough) = tier();
            let replay = write_replay(id, facet, 0, seed, 0, &choices, &err.msg, &v.notes);
            let ev = format!(
                "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":1,\"distinct_nontrivial\":1,\"rule\":{},\"samples\":[{}],\"shrink_evaluations\":{}}},\"wall_s\":0.0,\"violations\":1}}\n",
                esc(id),
                if thorough { "\"thorough\"" } else { "\"quick\"" },
                seed,
                esc("the failing input of a coverage-guided campaign; the inputs before it are not counted"),
                esc(&cut(&format!("{}: {}", facet, err.msg), 700)),
                n
            );
            let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
            let _ = std::fs::write(format!("{}/evidence/{}.json", verif_dir(), id), ev);
            println!("{} {} (coverage-guided, shrunk to {} choices): {}", id, facet, choices.len(), err.msg);
            for n in &v.notes {
                println!("    {}", cut(n, 600));
            }
            println!("VIOLATION property={} replay={}", id, replay);
            return 1;
        }
    }
    2
}

fn run(id: &str) -> i32 {
    let t0 = Instant::now();
    let props = props::all();
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("error: no property {}", id);
            return 2;
        }
    };
    let (seed, thorough) = tier();
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let kn = known(id);
    let mut st = Stats::default();
    let mut facets_json = Vec::new();
    let mut failure: Option<Failure> = None;
    let big = thorough as u32;
    let trace = std::env::var("VH_TRACE").ok().and_then(|p| std::fs::File::create(p).ok());
    for f in &p.facets {
        let cases = ((if thorough { f.thorough } else { f.quick }) as f64 * scale).ceil() as u64;
        let (e0, n0, c0) = (st.evaluations, st.nontrivial.len(), st.compared);
        let tf = Instant::now();
        failure = run_facet(p.id, f, seed, cases, big, threads(), &kn, trace.as_ref(), &mut st);
        facets_json.push(format!(
            "{{\"facet\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"values_compared\":{},\"wall_s\":{:.2}}}",
            esc(f.name),
            st.evaluations - e0,
            st.nontrivial.len() - n0,
            st.compared - c0,
            tf.elapsed().as_secs_f64()
        ));
        if failure.is_some() {
            break;
        }
    }
    let samp = samples(p, seed, big);
    let mut replay = String::new();
    if let Some(f) = &failure {
        replay = write_replay(id, f.facet, big, seed, f.index, &f.choices, &f.fail.msg, &f.notes);
    }
    let labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let mut cov = Vec::new();
    cov.push(format!("\"evaluations\":{}", st.evaluations));
    cov.push(format!("\"distinct_nontrivial\":{}", st.nontrivial.len()));
    cov.push(format!("\"rule\":{}", esc(p.rule)));
    cov.push(format!("\"samples\":[{}]", samp.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")));
    cov.push(format!("\"values_compared\":{}", st.compared));
    cov.push(format!("\"facets\":[{}]", facets_json.join(",")));
    cov.push(format!("\"labels\":{{{}}}", labels.join(",")));
    cov.push(format!("\"hooks\":{}", vh::layers::HOOKS));
    cov.push(format!("\"overflow_checks\":{}", cfg!(debug_assertions)));
    if let Some(f) = &failure {
        cov.push(format!("\"failure\":{}", esc(&cut(&f.fail.msg, 1000))));
        cov.push(format!("\"shrink_evaluations\":{}", f.shrink_evals));
    }
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        esc(id),
        if thorough { "\"thorough\"" } else { "\"quick\"" },
        seed,
        cov.join(","),
        p.assumptions.iter().map(|a| esc(a)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64(),
        failure.is_some() as u32
    );
    let edir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&edir);
    if std::fs::write(format!("{}/{}.json", edir, id), ev).is_err() {
        eprintln!("error: cannot write evidence for {}", id);
        return 2;
    }
    for (text, n) in &st.known {
        println!("KNOWN-FINDING: property={} {} ({} cases)", id, text, n);
    }
    match failure {
        Some(f) => {
            println!("{} {} case {} (shrunk to {} choices): {}", id, f.facet, f.index, f.choices.len(), f.fail.msg);
            for n in &f.notes {
                println!("    {}", cut(n, 600));
            }
            println!("VIOLATION property={} replay={}", id, replay);
            1
        }
        None => {
            println!(
                "{}: held on {} cases ({} distinct non-trivial, {} values compared) in {:.1} s",
                id,
                st.evaluations,
                st.nontrivial.len(),
                st.compared,
                t0.elapsed().as_secs_f64()
            );
            0
        }
    }
}

fn replay(file: &str) -> i32 {
    let t = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("error: {}: {}", file, e);
            return 2;
        }
    };
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|s| s.to_string())).unwrap_or_default();
    let (id, facet) = (get("property"), get("facet"));
    let choices: Vec<u64> = get("choices").split(',').filter_map(|c| c.parse().ok()).collect();
    let big = get("big").parse().unwrap_or(0);
    for p in props::all() {
        for f in &p.facets {
            if p.id == id && f.name == facet {
                let mut src = Src::fixed(choices, big);
                let mut ctx = Ctx { verbose: true, ..Ctx::default() };
                let r = eval(f.run, &mut src, &mut ctx);
                for n in &ctx.notes {
                    println!("    {}", n);
                }
                return match r {
                    Ok(()) => {
                        println!("{} {}: holds on this case", id, facet);
                        0
                    }
                    Err(e) => {
                        println!("{} {}: {}", id, facet, e.msg);
                        println!("VIOLATION property={} replay={}", id, file);
                        1
                    }
                };
            }
        }
    }
    eprintln!("error: no facet {} of {}", facet, id);
    2
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") if a.len() == 2 => check(&a[1]),
        Some("run") if a.len() == 2 => run(&a[1]),
        Some("one") if a.len() == 6 => one(&a[1], &a[2], &a[3], &a[4], a[5].parse().unwrap_or(0)),
        Some("replay") if a.len() == 2 => {
            // in a child: the case may kill the process
            let st = std::process::Command::new(std::env::current_exe().expect("own path")).args(["replay-here", &a[1]]).status();
            match st {
                Ok(st) => match (st.code(), crashed(&st)) {
                    (Some(c), _) => c,
                    (None, Some(sig)) => {
                        let t = std::fs::read_to_string(&a[1]).unwrap_or_default();
                        let id = t.lines().find_map(|l| l.strip_prefix("property=")).unwrap_or("?");
                        println!("{}: the process is killed by signal {}", id, sig);
                        println!("VIOLATION property={} replay={}", id, a[1]);
                        1
                    }
                    _ => 3,
                },
                Err(_) => 2,
            }
        }
        Some("replay-here") if a.len() == 2 => replay(&a[1]),
        Some("bytes") if a.len() == 4 => bytes(&a[1], &a[2], &a[3]),
        Some("limited") if a.len() == 6 => props::files::limited(&a[1..]),
        Some("facets") if a.len() == 2 => {
            for p in props::all().iter().filter(|p| p.id == a[1]) {
                p.facets.iter().filter(|f| !f.name.contains(", l")).for_each(|f| println!("{}", f.name));
            }
            0
        }
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.facets.iter().map(|f| f.name).collect::<Vec<_>>().join(", "));
            }
            0
        }
        _ => {
            eprintln!("usage: vh check <id> | replay <file> | list");
            2
        }
    };
    props::files::cleanup();
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
