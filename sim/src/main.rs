//! Deterministic simulator for interpn.
//!   sim run --prop C01 --seed 1 --runs 1000 --secs 300 --workers 8 --out raw.json --replays DIR [--thorough]
//!   sim replay FILE
//!   sim digest --prop C01 --seed 1 --runs 100 --workers 3      (one hash per run, for determinism proofs)
mod alloc;
mod gbuf;
mod gen;
mod machine;
mod num;
mod props;
mod refm;
mod requests;
mod rng;
mod sched;
mod shm;
mod shrink;
mod stack;
mod storage;
mod world;

use props::*;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

#[global_allocator]
static GLOBAL: alloc::Gate = alloc::Gate;

/// Fixed addresses: re-execute without address space randomisation where the system allows it.
fn fixed_addresses() {
    if std::env::var_os("SIM_FIXED").is_some() {
        return;
    }
    unsafe {
        std::env::set_var("SIM_FIXED", "1");
        let old = libc::personality(0xffff_ffff);
        if old == -1 || libc::personality(old as libc::c_ulong | 0x0040000) == -1 {
            return;
        }
        let exe = std::ffi::CString::new("/proc/self/exe").unwrap();
        let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
        let mut p: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
        p.push(std::ptr::null());
        // a fixed environment, so that the initial stack is the same for everyone
        let env = [c"SIM_FIXED=1".as_ptr(), c"PATH=/usr/bin:/bin".as_ptr(), std::ptr::null()];
        libc::execve(exe.as_ptr(), p.as_ptr(), env.as_ptr());
    }
}

struct Args {
    prop: String,
    seed: u64,
    from: u64,
    runs: u64,
    secs: f64,
    workers: u64,
    out: String,
    replays: String,
    thorough: bool,
}
fn args() -> Args {
    let mut a = Args { prop: String::new(), seed: 1, from: 0, runs: 100, secs: 600.0, workers: 8, out: String::new(), replays: ".".into(), thorough: false };
    let v: Vec<String> = std::env::args().skip(2).collect();
    let mut i = 0;
    while i < v.len() {
        let x = v.get(i + 1).cloned().unwrap_or_default();
        i += 2;
        match v[i - 2].as_str() {
            "--prop" => a.prop = x,
            "--seed" => a.seed = x.parse().unwrap(),
            "--from" => a.from = x.parse().unwrap(),
            "--runs" => a.runs = x.parse().unwrap(),
            "--secs" => a.secs = x.parse().unwrap(),
            "--workers" => a.workers = x.parse().unwrap(),
            "--out" => a.out = x,
            "--replays" => a.replays = x,
            "--thorough" => {
                a.thorough = true;
                i -= 1;
            }
            o => panic!("unknown argument {o}"),
        }
    }
    a
}

/// What a worker process reports.
fn worker(a: &Args, k: u64, trap: bool, best: &AtomicU64, t0: Instant, digest: bool) -> Value {
    shm::init();
    let mut lab = Lab::new(trap, a.thorough);
    let mut found = Value::Null;
    let mut digests = vec![];
    let (mut twice, mut same) = (0u64, 0u64);
    let mut nontrivial = 0u64;
    let mut i = a.from + k;
    while i < a.from + a.runs {
        if t0.elapsed().as_secs_f64() > a.secs || i > best.load(SeqCst) {
            break;
        }
        lab.clear();
        let t1 = Instant::now();
        let sc = generate(&a.prop, a.seed, i, &mut lab);
        let t2 = Instant::now();
        if std::env::var_os("SIM_ECHO").is_some() {
            eprintln!("run {i} {}", serde_json::to_string(&sc).unwrap());
        }
        let v = check(&a.prop, &sc, &mut lab);
        lab.cov.runs += 1;
        if std::path::Path::new("/tmp/sim_time").exists() {
            use std::io::Write; let mut f = std::fs::OpenOptions::new().append(true).create(true).open("/tmp/time.txt").unwrap(); let _ = writeln!(f, "TIME {i} {:?} threads {} batch {} gen {:.1} check {:.1}", sc.mode, sc.threads.len(), sc.threads.iter().flatten().map(|o| match o { machine::Op::Eval { obs: machine::Obs::List(c), .. } => c[0].len(), _ => 0 }).max().unwrap_or(0), (t2 - t1).as_secs_f64() * 1e3, t2.elapsed().as_secs_f64() * 1e3);
        }
        if let Some(e) = v.violation {
            best.fetch_min(i, SeqCst);
            found = json!({ "index": i, "violation": e, "scenario": sc });
            if digest {
                digests.push((i, rng::mix(machine::strhash(&e), 1)));
            }
            break;
        }
        if v.nontrivial {
            nontrivial += 1;
            lab.cov.sigs.insert(v.sig);
        }
        if digest {
            digests.push((i, rng::mix(v.sig, v.nontrivial as u64)));
        }
        // every so often the same run a second time: identical?
        if (i / a.workers) % 40 == 7 {
            let n = std::mem::take(&mut lab.cov);
            lab.clear();
            let sc2 = generate(&a.prop, a.seed, i, &mut lab);
            let v2 = check(&a.prop, &sc2, &mut lab);
            lab.cov = n;
            twice += 1;
            if std::path::Path::new("/tmp/sim_echo2").exists() && (sc2 != sc || v2.sig != v.sig || v2.nontrivial != v.nontrivial) {
                eprintln!("run {i} differs when repeated: scenario {} sig {} violation {:?}", sc2 != sc, v2.sig != v.sig, v2.violation);
                for (a, b) in [(&sc, "A"), (&sc2, "B")] {
                    std::fs::write(format!("/tmp/differs.{b}.json"), serde_json::to_string(a).unwrap()).ok();
                }
            }
            same += (sc2 == sc && v2.sig == v.sig && v2.nontrivial == v.nontrivial) as u64;
        }
        if v.nontrivial && lab.cov.samples.len() < 2 && i < 200 {
            let mut s = serde_json::to_value(&sc).unwrap();
            trim(&mut s);
            lab.cov.samples.push(json!({ "run": i, "scenario": s }));
        }
        i += a.workers;
    }
    let c = &lab.cov;
    json!({ "n": c.n, "sigs": c.sigs, "states": c.states, "runs": c.runs, "nontrivial": nontrivial, "samples": c.samples,
            "found": found, "digests": digests, "twice": twice, "same": same, "processes": machine::children(),
            "complete": i >= a.from + a.runs })
}
/// Long lists shortened, for samples in the evidence.
fn trim(v: &mut Value) {
    match v {
        Value::Array(l) => {
            for x in l.iter_mut() {
                trim(x);
            }
            if l.len() > 12 {
                let n = l.len();
                l.truncate(12);
                l.push(json!(format!("... {n} in all")));
            }
        }
        Value::Object(m) => m.values_mut().for_each(trim),
        _ => {}
    }
}

fn run_all(a: &Args, trap: bool, digest: bool) -> (Vec<Value>, f64) {
    let t0 = Instant::now();
    let best: &'static AtomicU64 = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const AtomicU64)
    };
    best.store(u64::MAX, SeqCst);
    let mut kids = vec![];
    for k in 0..a.workers {
        unsafe {
            let mut fds = [0; 2];
            assert!(libc::pipe(fds.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(fds[0]);
                let v = worker(a, k, trap, best, t0, digest);
                use std::io::Write;
                use std::os::fd::FromRawFd;
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                f.write_all(v.to_string().as_bytes()).ok();
                drop(f);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            kids.push((pid, fds[0]));
        }
    }
    let mut res = vec![];
    for (pid, fd) in kids {
        use std::io::Read;
        use std::os::fd::FromRawFd;
        let mut s = String::new();
        unsafe { std::fs::File::from_raw_fd(fd) }.read_to_string(&mut s).ok();
        unsafe {
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
        match serde_json::from_str(&s) {
            Ok(v) => res.push(v),
            Err(_) => {
                eprintln!("sim: a worker died");
                std::process::exit(3)
            }
        }
    }
    (res, t0.elapsed().as_secs_f64())
}

fn cmd_run(a: &Args) {
    let trap = sched::trap_works();
    shm::init();
    let mut probe = Value::Null;
    if a.prop == "C01" {
        let n = world::not_thread_safe();
        if !n.is_empty() {
            probe = json!({ "violation": format!("cannot be shared between threads although the number type can: {n:?}") });
        }
    }
    let (res, wall) = run_all(a, trap, false);
    let mut n: std::collections::BTreeMap<String, u64> = Default::default();
    let (mut sigs, mut states) = (std::collections::BTreeSet::new(), std::collections::BTreeSet::new());
    let mut samples = vec![];
    let mut found: Option<Value> = None;
    let sum = |k: &str| res.iter().map(|r| r[k].as_u64().unwrap_or(0)).sum::<u64>();
    for r in &res {
        for (k, v) in r["n"].as_object().unwrap() {
            let e = n.entry(k.clone()).or_default();
            let v = v.as_u64().unwrap();
            *e = if k.contains("(maximum)") { (*e).max(v) } else { *e + v };
        }
        sigs.extend(r["sigs"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
        states.extend(r["states"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
        samples.extend(r["samples"].as_array().unwrap().iter().cloned());
        let f = &r["found"];
        if !f.is_null() && found.as_ref().is_none_or(|b| f["index"].as_u64() < b["index"].as_u64()) {
            found = Some(f.clone());
        }
    }
    samples.sort_by_key(|s| s["run"].as_u64());
    samples.truncate(3);
    let mut replay = Value::Null;
    let mut violation = Value::Null;
    if found.is_none() && !probe.is_null() {
        found = Some(probe);
    }
    if let Some(f) = found {
        std::fs::create_dir_all(&a.replays).ok();
        let path = format!("{}/{}-seed{}-{}{}.json", a.replays, a.prop, a.seed, f["index"].as_u64().map_or("probe".into(), |i| i.to_string()), if cfg!(feature = "fma") { "-fma" } else { "" });
        let mut doc = json!({ "property": a.prop, "seed": a.seed, "index": f["index"], "violation": f["violation"], "features": if cfg!(feature = "fma") { "fma" } else { "default" } });
        if f.get("scenario").is_some() {
            let sc: machine::Scenario = serde_json::from_value(f["scenario"].clone()).unwrap();
            let mut lab = Lab::new(trap, a.thorough);
            let t = Instant::now();
            let (small, text, tries) = shrink::minimise(&a.prop, &sc, f["violation"].as_str().unwrap(), &mut lab, 45.0);
            doc["scenario"] = serde_json::to_value(&small).unwrap();
            doc["violation"] = json!(text);
            doc["minimised"] = json!({ "from": shrink::size(&sc), "to": shrink::size(&small), "executions": tries, "seconds": t.elapsed().as_secs_f64() });
        }
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        // does it come back in a fresh process?
        let again = std::process::Command::new("/proc/self/exe").args(["replay", &path]).env_remove("SIM_FIXED").output().unwrap();
        let shown = String::from_utf8_lossy(&again.stdout).to_string();
        let same = shown.contains(&*doc["violation"].as_str().unwrap().replace('\n', " "));
        doc["reproduced_in_a_fresh_process"] = json!(same);
        if !same && f.get("scenario").is_some() {
            // keep the run as found
            doc["scenario"] = f["scenario"].clone();
            doc["violation"] = f["violation"].clone();
        }
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        replay = json!(path);
        violation = doc["violation"].clone();
    }
    let raw = json!({
        "violation": violation, "replay": replay, "runs": sum("runs"), "nontrivial": sum("nontrivial"),
        "distinct": sigs.len(), "states": states.len(), "counts": n, "samples": samples, "wall_s": wall,
        "twice": sum("twice"), "same": sum("same"), "processes": sum("processes"), "workers": a.workers,
        "complete": res.iter().all(|r| r["complete"].as_bool().unwrap()), "single_stepping": trap,
        "features": if cfg!(feature = "fma") { "fma" } else { "default" },
    });
    std::fs::write(&a.out, raw.to_string()).unwrap();
}

fn cmd_replay(file: &str) -> i32 {
    let doc: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("cannot read the replay file")).unwrap();
    let prop = doc["property"].as_str().unwrap();
    shm::init();
    let v = if doc.get("scenario").is_some() {
        let sc: machine::Scenario = serde_json::from_value(doc["scenario"].clone()).unwrap();
        if sc.mode == machine::Mode::Trap && !sched::trap_works() {
            eprintln!("single-stepping is not available here");
            return 3;
        }
        check(prop, &sc, &mut Lab::new(true, false)).violation
    } else {
        let n = world::not_thread_safe();
        (!n.is_empty()).then(|| format!("cannot be shared between threads although the number type can: {n:?}"))
    };
    match v {
        Some(e) => {
            println!("{}", e.replace('\n', " "));
            println!("VIOLATION property={prop} replay={file}");
            1
        }
        None => {
            println!("held");
            0
        }
    }
}

fn main() {
    fixed_addresses();
    match std::env::args().nth(1).as_deref() {
        Some("run") => cmd_run(&args()),
        Some("replay") => std::process::exit(cmd_replay(&std::env::args().nth(2).unwrap())),
        Some("digest") => {
            let a = args();
            let (res, _) = run_all(&a, sched::trap_works(), true);
            let mut d: Vec<(u64, u64)> = res.iter().flat_map(|r| serde_json::from_value::<Vec<(u64, u64)>>(r["digests"].clone()).unwrap()).collect();
            d.sort();
            for (i, h) in d {
                println!("{i} {h:016x}");
            }
        }
        _ => {
            eprintln!("usage: sim run|replay|digest ...");
            std::process::exit(2)
        }
    }
}
