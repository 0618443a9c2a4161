//! `harness run <ID>`      quick/thorough run of one property (VERIF_TIER, VERIF_SEED)
//! `harness replay <ID> <file>`   re-executes a saved failing case
//! `harness list`          the property ids

#[macro_use]
mod engine;
mod r#gen;
mod props;
mod refg;
mod text;

use engine::*;
use serde_json::{Value, json};
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode, Stdio};
use std::time::{Duration, Instant};

fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name)
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(default)
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

struct Settings {
    seed: u64,
    tier: String,
    cases: u64,
    threads: usize,
    timeout: Duration,
}

fn settings(prop: &Prop) -> Settings {
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    }
    .to_string();
    let default = if tier == "thorough" {
        prop.thorough
    } else {
        prop.quick
    };
    Settings {
        seed: env_u64("VERIF_SEED", 1),
        cases: env_u64("VERIF_CASES", default),
        threads: env_u64(
            "VERIF_THREADS",
            std::thread::available_parallelism().map_or(4, |n| n.get() as u64),
        ) as usize,
        timeout: Duration::from_secs(if tier == "thorough" { 120 } else { 60 }),
        tier,
    }
}

fn find(id: &str) -> Option<&'static Prop> {
    props::all().iter().find(|p| p.id == id).copied()
}

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| &s[..]).unwrap_or("");
    match cmd {
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            ExitCode::SUCCESS
        }
        "run" | "replay" | "worker" | "worker-one" => {
            let Some(prop) = args.get(2).and_then(|id| find(id)) else {
                eprintln!("unknown property");
                return ExitCode::from(2);
            };
            match cmd {
                "run" => supervise(prop),
                "replay" => replay(prop, Path::new(&args[3])),
                "worker" => worker(prop, Path::new(&args[3]), Path::new(&args[4])),
                _ => worker_one(prop, args[3].parse().unwrap(), Path::new(&args[4])),
            }
        }
        _ => {
            eprintln!("usage: harness run|replay|list ...");
            ExitCode::from(2)
        }
    }
}

fn fail_json(f: &Failure) -> Value {
    json!({
        "index": f.index, "choices": f.choices, "message": f.message,
        "input": f.input, "crash": f.crash,
    })
}

/// Does all the work; writes its result to `out`.
fn worker(prop: &'static Prop, out: &Path, progress: &Path) -> ExitCode {
    install_hook();
    let s = settings(prop);
    let skip: HashSet<u64> = std::env::var("VERIF_SKIP")
        .unwrap_or_default()
        .split(',')
        .filter_map(|x| x.parse().ok())
        .collect();
    // known-finding probes
    let mut probes = vec![];
    for (name, f) in prop.probes {
        let r = match catch(f) {
            Ok(r) => r,
            Err(p) => Err(format!("unexpected {p}")),
        };
        probes.push(json!({"name": name, "fails": r.is_err(), "message": r.err()}));
    }
    let o = run_cases(
        prop,
        s.seed,
        s.cases,
        s.threads,
        &skip,
        s.timeout,
        Some(progress.to_path_buf()),
    );
    let failure = o.failure.map(|f| {
        // publish the unshrunk failure first
        let _ = std::fs::write(
            out.with_extension("partial"),
            fail_json(&f).to_string(),
        );
        shrink(prop, f, Duration::from_secs(30))
    });
    let t = o.totals;
    let v = json!({
        "evaluations": t.evaluations,
        "nontrivial": t.nontrivial,
        "distinct_nontrivial": t.distinct.len(),
        "inconclusive": t.inconclusive,
        "classes": t.classes,
        "counts": t.counts,
        "samples": t.samples.iter().map(|(i, s)| json!({"case": i, "input": s})).collect::<Vec<_>>(),
        "failure": failure.as_ref().map(fail_json),
        "hung": o.hung,
        "probes": probes,
        "wall": o.wall,
    });
    std::fs::write(out, v.to_string()).unwrap();
    std::process::exit(0);
}

/// Runs one case by index, to confirm a crash.
fn worker_one(prop: &'static Prop, index: u64, out: &Path) -> ExitCode {
    install_hook();
    let s = settings(prop);
    let o = run_one_index(prop, s.seed, index);
    std::fs::write(out, json!({"failure": o.as_ref().map(fail_json)}).to_string()).unwrap();
    ExitCode::SUCCESS
}

fn run_one_index(prop: &'static Prop, seed: u64, index: u64) -> Option<Failure> {
    let skip: HashSet<u64> = (0..index).collect();
    run_cases(prop, seed, index + 1, 1, &skip, Duration::from_secs(600), None).failure
}

fn spawn_worker(args: &[&str], extra: &[(&str, String)], limit: Duration) -> (Option<std::process::ExitStatus>, String) {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.args(args).stdout(Stdio::null()).stderr(Stdio::piped()).stdin(Stdio::null());
    for (k, v) in extra {
        c.env(k, v);
    }
    let mut child = c.spawn().expect("spawn worker");
    let mut err = child.stderr.take().unwrap();
    let h = std::thread::spawn(move || {
        use std::io::Read;
        let mut s = vec![];
        let mut buf = [0u8; 65536];
        while let Ok(n) = err.read(&mut buf) {
            if n == 0 {
                break;
            }
            if s.len() < (1 << 20) {
                s.extend_from_slice(&buf[..n]);
            }
        }
        String::from_utf8_lossy(&s).into_owned()
    });
    let start = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(st)) => return (Some(st), h.join().unwrap_or_default()),
            Ok(None) => {}
            Err(_) => return (None, String::new()),
        }
        if start.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return (None, h.join().unwrap_or_default());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn supervise(prop: &'static Prop) -> ExitCode {
    let start = Instant::now();
    let s = settings(prop);
    let dir = verif_dir();
    let tmp = std::env::temp_dir().join(format!("cfgverif-{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let out = tmp.join("out.json");
    let progress = tmp.join("progress");
    let limit = Duration::from_secs(if s.tier == "thorough" { 36000 } else { 780 });
    let mut skip: Vec<u64> = vec![];
    let mut inconclusive_crash = false;
    let mut result: Option<Value> = None;
    let mut failure: Option<Value> = None;
    for _attempt in 0..4 {
        std::fs::write(&progress, vec![0u8; 8 * (s.threads + 16)]).unwrap();
        let _ = std::fs::remove_file(&out);
        let skip_s = skip.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let (st, err) = spawn_worker(
            &["worker", prop.id, out.to_str().unwrap(), progress.to_str().unwrap()],
            &[("VERIF_SKIP", skip_s)],
            limit.saturating_sub(start.elapsed()),
        );
        if std::env::var_os("VERIF_SLOW").is_some() {
            eprint!("{err}");
        }
        let ok = st.map_or(false, |st| st.success());
        if ok {
            if let Ok(t) = std::fs::read_to_string(&out) {
                result = serde_json::from_str(&t).ok();
            }
            break;
        }
        // Died or ran out of time. A failure already found still counts.
        if let Ok(t) = std::fs::read_to_string(out.with_extension("partial")) {
            failure = serde_json::from_str(&t).ok();
            break;
        }
        eprintln!("worker ended abnormally ({st:?}); stderr tail: {}", tail(&err));
        if st.is_none() {
            break;
        }
        let p = std::fs::read(&progress).unwrap_or_default();
        let inflight: Vec<u64> = p
            .chunks_exact(8)
            .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
            .filter(|&x| x != 0)
            .map(|x| x - 1)
            .collect();
        let mut culprit = false;
        for idx in inflight {
            let one = tmp.join(format!("one-{idx}.json"));
            let (st, err) = spawn_worker(
                &["worker-one", prop.id, &idx.to_string(), one.to_str().unwrap()],
                &[],
                Duration::from_secs(60),
            );
            match st {
                Some(st) if st.success() => {
                    // a plain failure may also turn up this way
                    if let Some(f) = std::fs::read_to_string(&one)
                        .ok()
                        .and_then(|t| serde_json::from_str::<Value>(&t).ok())
                        .and_then(|v| v.get("failure").cloned())
                        .filter(|v| !v.is_null())
                    {
                        failure = Some(f);
                        break;
                    }
                }
                Some(st) if !err.contains("memory allocation of") && is_signal(&st) => {
                    failure = Some(json!({
                        "index": idx, "choices": [], "crash": true,
                        "message": format!("process crash: {st}: {}", tail(&err)), "input": "",
                    }));
                    break;
                }
                _ => {
                    inconclusive_crash = true;
                    culprit = true;
                    skip.push(idx);
                }
            }
        }
        if failure.is_some() || !culprit {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);

    let res = result.clone().unwrap_or(json!({}));
    if failure.is_none() {
        failure = res.get("failure").cloned().filter(|v| !v.is_null());
    }

    // Known findings: probes named in the committed file.
    let known = std::fs::read_to_string(dir.join("known_findings.jsonl")).unwrap_or_default();
    let mut probe_violation: Option<(String, String)> = None;
    let mut kf_lines = vec![];
    if let Some(ps) = res.get("probes").and_then(|p| p.as_array()) {
        for p in ps {
            if p["fails"] == json!(true) {
                let name = p["name"].as_str().unwrap_or("");
                let entry = known
                    .lines()
                    .filter_map(|l| serde_json::from_str::<Value>(l).ok())
                    .find(|v| {
                        v["property"] == json!(prop.id)
                            && v["probe"] == json!(name)
                            && v["status"] == json!("known")
                    });
                match entry {
                    Some(e) => kf_lines.push(format!(
                        "KNOWN-FINDING: property={} {}",
                        prop.id,
                        e["what"].as_str().unwrap_or(name)
                    )),
                    None => {
                        probe_violation = Some((
                            name.to_string(),
                            p["message"].as_str().unwrap_or("").to_string(),
                        ))
                    }
                }
            }
        }
    }
    for l in &kf_lines {
        println!("{l}");
    }

    let hung = res
        .get("hung")
        .and_then(|h| h.as_array())
        .map_or(0, |a| a.len());
    let violated = failure.is_some() || probe_violation.is_some();

    // evidence
    let ev = json!({
        "property": prop.id,
        "tier": s.tier,
        "seed": s.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": res.get("evaluations").cloned().unwrap_or(json!(0)),
            "distinct_nontrivial": res.get("distinct_nontrivial").cloned().unwrap_or(json!(0)),
            "nontrivial": res.get("nontrivial").cloned().unwrap_or(json!(0)),
            "inconclusive": res.get("inconclusive").cloned().unwrap_or(json!(0)),
            "abandoned_hung": hung,
            "rule": prop.rule,
            "samples": res.get("samples").cloned().unwrap_or(json!([])),
            "classes": res.get("classes").cloned().unwrap_or(json!({})),
            "counts": res.get("counts").cloned().unwrap_or(json!({})),
            "known_finding_probes": res.get("probes").cloned().unwrap_or(json!([])),
        },
        "assumptions": [
            "the reference model in harness/src/refg.rs and harness/src/props is right",
            "public API of the workspace crates, all features on, debug assertions and overflow checks on",
        ],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": if violated { 1 } else { 0 },
    });
    let evdir = dir.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    if let Err(e) = std::fs::write(
        evdir.join(format!("{}.json", prop.id)),
        serde_json::to_string_pretty(&ev).unwrap(),
    ) {
        eprintln!("cannot write evidence: {e}");
        return ExitCode::from(2);
    }

    if let Some(f) = failure {
        let rdir = dir.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-seed{}.json", prop.id, s.seed));
        let v = json!({
            "property": prop.id, "seed": s.seed, "index": f["index"], "choices": f["choices"],
            "crash": f["crash"], "message": f["message"], "input": f["input"],
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        println!("message: {}", f["message"].as_str().unwrap_or(""));
        println!("input:\n{}", f["input"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return ExitCode::from(1);
    }
    if let Some((name, msg)) = probe_violation {
        let rdir = dir.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-probe-{}.json", prop.id, name));
        let _ = std::fs::write(
            &path,
            json!({"property": prop.id, "probe": name, "message": msg}).to_string(),
        );
        println!("probe {name}: {msg}");
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return ExitCode::from(1);
    }
    if result.is_none() || hung > 0 || inconclusive_crash {
        eprintln!("inconclusive: hung cases {hung}, crash {inconclusive_crash}");
        return ExitCode::from(2);
    }
    println!(
        "OK property={} tier={} seed={} evaluations={} distinct_nontrivial={} inconclusive={} wall={:.1}s",
        prop.id, s.tier, s.seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"],
        ev["coverage"]["inconclusive"], start.elapsed().as_secs_f64()
    );
    ExitCode::SUCCESS
}

fn tail(s: &str) -> String {
    let n = s.chars().count();
    s.chars().skip(n.saturating_sub(400)).collect()
}

fn is_signal(st: &std::process::ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;
    matches!(st.signal(), Some(4 | 6 | 7 | 8 | 11))
}

fn replay(prop: &'static Prop, file: &Path) -> ExitCode {
    install_hook();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    if let Some(name) = v["probe"].as_str() {
        for (n, f) in prop.probes {
            if *n == name {
                let r = catch(f).unwrap_or_else(Err);
                println!("{r:?}");
                return ExitCode::from(r.is_err() as u8);
            }
        }
        return ExitCode::from(2);
    }
    let res = if v["crash"] == json!(true) {
        run_one_index(prop, v["seed"].as_u64().unwrap_or(1), v["index"].as_u64().unwrap_or(0))
            .map_or(Ok(()), |f| Err(f.message))
    } else {
        let choices = v["choices"]
            .as_array()
            .map(|a| a.iter().filter_map(|x| x.as_u64()).collect())
            .unwrap_or_default();
        match try_choices(prop, choices, Duration::from_secs(600)) {
            Some((r, _, input)) => {
                println!("input:\n{input}");
                r
            }
            None => {
                println!("no answer in time");
                return ExitCode::from(2);
            }
        }
    };
    match res {
        Ok(()) => {
            println!("replay: property held");
            ExitCode::SUCCESS
        }
        Err(m) => {
            println!("replay: {m}");
            println!("VIOLATION property={} replay={}", prop.id, file.display());
            ExitCode::from(1)
        }
    }
}
