//! Bounded exhaustive exploration of ledger-rs-lib: see /verif/DESIGN.md.
//!
//!   ledger-mc check --prop C01 --tier quick        explore, write the evidence, exit 0 / 1
//!   ledger-mc replay FILE                          run one recorded case again
//!
//! The exploration is split over worker processes, so that a crash of the code under test is an
//! outcome of a case and not the end of the check.

mod fam;
mod model;
mod obs;
mod props;
mod rt;
mod spec;

use rt::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static A: CheckingAlloc = CheckingAlloc;

const WORKERS: u64 = 8;
const HANG_S: u64 = 40;
/// A quick check that a very slow machine does not let finish ends with what it has (the evidence
/// then says that it is not exhaustive). It takes less than a tenth of this on an idle one.
const QUICK_S: u64 = 600;

struct Args {
    m: BTreeMap<String, String>,
    rest: Vec<String>,
}
fn args() -> Args {
    let mut m = BTreeMap::new();
    let mut rest = vec![];
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        if let Some(k) = a.strip_prefix("--") {
            m.insert(k.to_string(), it.next().unwrap_or_default());
        } else {
            rest.push(a);
        }
    }
    Args { m, rest }
}

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}
fn tier_name(t: Tier) -> &'static str {
    if t == Tier::Quick {
        "quick"
    } else {
        "thorough"
    }
}

fn families(prop: &str) -> Vec<Family> {
    let mut v = spec::families(prop);
    if spec::uses_shared(prop) {
        v.extend(fam::shared().into_iter().filter(|f| spec::wants(prop, f.name)));
    }
    v
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn known_keys(prop: &str) -> Vec<String> {
    let t = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter(|l| l.contains(&format!("property={} ", prop)))
        .filter_map(|l| l.split_whitespace().find_map(|w| w.strip_prefix("key=").map(|s| s.to_string())))
        .collect()
}

fn context(prop: &str, t: Tier, shard: (u64, u64), scratch: &Path) -> Cx {
    Cx {
        prop: prop.into(),
        tier: t,
        family: "",
        fam_index: 0,
        stats: BTreeMap::new(),
        states: HashSet::new(),
        samples: vec![],
        violations: vec![],
        known: BTreeMap::new(),
        notes: BTreeMap::new(),
        status: None,
        counter: 0,
        shard,
        scratch: scratch.to_path_buf(),
        known_keys: known_keys(prop),
        deadline: None,
        cut: false,
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// one-line records of the workers: fields separated by \x1f, newlines as \x1e
fn enc(s: &str) -> String {
    s.replace('\n', "\x1e")
}
fn dec(s: &str) -> String {
    s.replace('\x1e', "\n")
}

fn worker(a: &Args) {
    let prop = &a.m["prop"];
    let t = tier(&a.m["tier"]);
    let scratch = PathBuf::from(&a.m["scratch"]);
    let i: u64 = a.m["shard"].parse().unwrap();
    let mut cx = context(prop, t, (i, WORKERS), &scratch);
    let dir = scratch.join(format!("w{}", i));
    std::fs::create_dir_all(&dir).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    cx.scratch = dir.clone();
    install_panic_hook();
    let fams = families(prop);
    if let Some(f) = a.m.get("family") {
        // replay of one case
        let choices: Vec<u32> = a.m["choices"].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        let idx = fams.iter().position(|x| x.name == f).expect("family");
        replay(&fams[idx], idx, &choices, &mut cx);
    } else {
        cx.status = Some(std::fs::File::create(a.m["status"].clone()).unwrap());
        if t == Tier::Quick {
            cx.deadline = Some(Instant::now() + Duration::from_secs(QUICK_S));
        }
        for (idx, f) in fams.iter().enumerate() {
            if let Ok(only) = std::env::var("MC_FAMILY") {
                if f.name != only {
                    continue;
                }
            }
            if std::env::var("MC_OWN").is_ok() && fam::shared().iter().any(|s| s.name == f.name) {
                continue;
            }
            explore(f, idx, &mut cx);
            if !cx.violations.is_empty() {
                break;
            }
        }
    }
    let mut out = String::new();
    for (k, s) in &cx.stats {
        out += &format!(
            "stat\x1f{}\x1f{}\x1f{}\x1f{}\x1f{}\x1f{}\x1f{}\n",
            k, s.cases, s.checked, s.rejected, s.unspecified, s.transitions, s.wall_ms
        );
    }
    for (k, (n, w)) in &cx.known {
        out += &format!("known\x1f{}\x1f{}\x1f{}\n", k, n, enc(w));
    }
    for (k, n) in &cx.notes {
        out += &format!("note\x1f{}\x1f{}\n", k, n);
    }
    for s in &cx.samples {
        out += &format!("sample\x1f{}\n", enc(s));
    }
    for v in &cx.violations {
        let c: Vec<String> = v.choices.iter().map(|x| x.to_string()).collect();
        out += &format!("violation\x1f{}\x1f{}\x1f{}\x1f{}\n", v.family, c.join(","), enc(&v.message), enc(&v.input));
    }
    if cx.cut {
        out += "cut\n";
    }
    out += "done\n";
    let mut st: Vec<u8> = Vec::with_capacity(cx.states.len() * 8);
    for s in &cx.states {
        st.extend(s.to_le_bytes());
    }
    std::fs::write(format!("{}.states", a.m["out"]), st).unwrap();
    std::fs::write(&a.m["out"], out).unwrap();
}

struct V {
    family: String,
    choices: String,
    message: String,
    input: String,
}

enum End {
    Done(Vec<V>),
    /// died or hung at (family index, choices)
    Died(String, Option<(usize, Vec<u32>)>),
    Error(String),
}

fn read_status(p: &Path) -> Option<(u64, bool, usize, Vec<u32>)> {
    let b = std::fs::read(p).ok()?;
    if b.len() < 20 {
        return None;
    }
    let u = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
    let n = u(16) as usize;
    if b.len() < 20 + 4 * n {
        return None;
    }
    Some((
        u64::from_le_bytes(b[0..8].try_into().unwrap()),
        u(8) == 1,
        u(12) as usize,
        (0..n).map(|k| u(20 + 4 * k)).collect(),
    ))
}

fn spawn(extra: &[(&str, String)], prop: &str, t: Tier, scratch: &Path, errlog: &Path) -> std::process::Child {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("worker").args(["--prop", prop, "--tier", tier_name(t)]);
    c.arg("--scratch").arg(scratch);
    for (k, v) in extra {
        c.arg(format!("--{}", k)).arg(v);
    }
    c.stdin(Stdio::null()).stdout(Stdio::null());
    c.stderr(std::fs::File::create(errlog).map(Stdio::from).unwrap_or_else(|_| Stdio::null()));
    c.spawn().expect("worker started")
}

fn parse_out(p: &Path) -> Option<Vec<Vec<String>>> {
    let t = std::fs::read_to_string(p).ok()?;
    if !t.ends_with("done\n") {
        return None;
    }
    Some(t.lines().map(|l| l.split('\x1f').map(dec).collect()).collect())
}

fn vios(lines: &[Vec<String>]) -> Vec<V> {
    lines
        .iter()
        .filter(|l| l[0] == "violation")
        .map(|l| V { family: l[1].clone(), choices: l[2].clone(), message: l[3].clone(), input: l[4].clone() })
        .collect()
}

/// Runs one case in a fresh process. Ok(None): held. Ok(Some): violated or died. Err: check error.
fn run_one(prop: &str, t: Tier, scratch: &Path, family: &str, choices: &str) -> Result<Option<(String, String)>, String> {
    let out = scratch.join("one.out");
    let err = scratch.join("one.err");
    let _ = std::fs::remove_file(&out);
    let mut c = spawn(
        &[("family", family.into()), ("choices", choices.into()), ("shard", "99".into()), ("out", out.display().to_string())],
        prop,
        t,
        scratch,
        &err,
    );
    let start = Instant::now();
    loop {
        if let Some(st) = c.try_wait().map_err(|e| e.to_string())? {
            use std::os::unix::process::ExitStatusExt;
            if let Some(sig) = st.signal() {
                return Ok(Some((format!("the process was ended by signal {}", sig), String::new())));
            }
            let Some(lines) = parse_out(&out) else {
                return Err(format!("replay worker failed: {}", std::fs::read_to_string(&err).unwrap_or_default()));
            };
            return Ok(vios(&lines).into_iter().next().map(|v| (v.message, v.input)));
        }
        if start.elapsed() > Duration::from_secs(HANG_S) {
            let _ = c.kill();
            let _ = c.wait();
            return Ok(Some((format!("did not end within {} s", HANG_S), String::new())));
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}

/// Repeats the whole exploration of one worker, which is deterministic, to see whether a violation
/// that needs the cases before it in the same process comes again.
fn run_shard(prop: &str, t: Tier, scratch: &Path, shard: u64, family: &str, choices: &str) -> Result<Option<(String, String)>, String> {
    let out = scratch.join("shard.out");
    let err = scratch.join("shard.err");
    let status = scratch.join("shard.status");
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(&status);
    let mut c = spawn(
        &[("shard", shard.to_string()), ("out", out.display().to_string()), ("status", status.display().to_string())],
        prop,
        t,
        scratch,
        &err,
    );
    let fams = families(prop);
    let same = |f: usize, c: &[u32]| {
        fams[f].name == family && c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") == choices
    };
    let (mut last, mut since) = (0, Instant::now());
    loop {
        let at = read_status(&status);
        if let Some(st) = c.try_wait().map_err(|e| e.to_string())? {
            use std::os::unix::process::ExitStatusExt;
            if let Some(sig) = st.signal() {
                return Ok(at.filter(|a| same(a.2, &a.3)).map(|_| (format!("the process was ended by signal {}", sig), String::new())));
            }
            let Some(lines) = parse_out(&out) else {
                return Err(format!("replay worker failed: {}", std::fs::read_to_string(&err).unwrap_or_default()));
            };
            return Ok(vios(&lines).into_iter().find(|v| v.family == family && v.choices == choices).map(|v| (v.message, v.input)));
        }
        if let Some((n, running, f, ch)) = at {
            if n != last {
                last = n;
                since = Instant::now();
            } else if running && since.elapsed() > Duration::from_secs(HANG_S) {
                let _ = c.kill();
                let _ = c.wait();
                return Ok(if same(f, &ch) { Some((format!("did not end within {} s", HANG_S), String::new())) } else { None });
            }
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn check(a: &Args) -> i32 {
    let prop = a.m["prop"].clone();
    let t = tier(a.m.get("tier").map(|s| s.as_str()).unwrap_or("quick"));
    let start = Instant::now();
    let vdir = verif_dir();
    let scratch = std::env::temp_dir().join(format!("ledger-mc-{}-{}", prop, std::process::id()));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).unwrap();
    let fams = families(&prop);
    let mut kids = vec![];
    for i in 0..WORKERS {
        let out = scratch.join(format!("{}.out", i));
        let status = scratch.join(format!("{}.status", i));
        let err = scratch.join(format!("{}.err", i));
        let c = spawn(
            &[("shard", i.to_string()), ("out", out.display().to_string()), ("status", status.display().to_string())],
            &prop,
            t,
            &scratch,
            &err,
        );
        kids.push((i, c, out, status, err, 0u64, Instant::now(), false));
    }
    let mut ends: Vec<(u64, End)> = vec![];
    let mut records: Vec<Vec<Vec<String>>> = vec![];
    let mut states: HashSet<u64> = HashSet::new();
    let mut stop = false;
    while kids.iter().any(|k| !k.7) && !stop {
        std::thread::sleep(Duration::from_millis(20));
        for k in kids.iter_mut().filter(|k| !k.7) {
            let at = read_status(&k.3);
            if let Some(st) = k.1.try_wait().unwrap() {
                k.7 = true;
                use std::os::unix::process::ExitStatusExt;
                if let Some(sig) = st.signal() {
                    ends.push((k.0, End::Died(format!("a worker was ended by signal {}", sig), at.map(|s| (s.2, s.3)))));
                    stop = true;
                } else if let Some(lines) = parse_out(&k.2) {
                    let v = vios(&lines);
                    if !v.is_empty() {
                        stop = true;
                    }
                    records.push(lines);
                    if let Ok(b) = std::fs::read(format!("{}.states", k.2.display())) {
                        for c in b.chunks_exact(8) {
                            states.insert(u64::from_le_bytes(c.try_into().unwrap()));
                        }
                    }
                    ends.push((k.0, End::Done(v)));
                } else {
                    ends.push((k.0, End::Error(std::fs::read_to_string(&k.4).unwrap_or_default())));
                    stop = true;
                }
                continue;
            }
            if let Some((n, running, f, c)) = at {
                if n != k.5 {
                    k.5 = n;
                    k.6 = Instant::now();
                } else if running && k.6.elapsed() > Duration::from_secs(HANG_S) {
                    let _ = k.1.kill();
                    let _ = k.1.wait();
                    k.7 = true;
                    ends.push((k.0, End::Died(format!("no progress for {} s", HANG_S), Some((f, c)))));
                    stop = true;
                }
            }
        }
    }
    for k in kids.iter_mut().filter(|k| !k.7) {
        let _ = k.1.kill();
        let _ = k.1.wait();
    }
    // verdict
    let mut confirmed: Option<V> = None;
    let mut with_history: Option<u64> = None;
    let mut error: Option<String> = None;
    for (shard, e) in &ends {
        let cands: Vec<V> = match e {
            End::Done(v) => v.iter().map(|v| V { family: v.family.clone(), choices: v.choices.clone(), message: v.message.clone(), input: v.input.clone() }).collect(),
            End::Died(m, Some((f, c))) => vec![V {
                family: fams[*f].name.into(),
                choices: c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                message: m.clone(),
                input: String::new(),
            }],
            End::Died(m, None) => {
                error = Some(m.clone());
                vec![]
            }
            End::Error(m) => {
                error = Some(m.clone());
                vec![]
            }
        };
        for v in cands {
            let mut hit = None;
            let mut broken = false;
            for _ in 0..3 {
                match run_one(&prop, t, &scratch, &v.family, &v.choices) {
                    Ok(Some(h)) => {
                        hit = Some(h);
                        break;
                    }
                    Ok(None) => (),
                    Err(m) => {
                        error = Some(m);
                        broken = true;
                        break;
                    }
                }
            }
            if hit.is_none() && !broken {
                match run_shard(&prop, t, &scratch, *shard, &v.family, &v.choices) {
                    Ok(h) => {
                        with_history = h.as_ref().map(|_| *shard);
                        hit = h;
                    }
                    Err(m) => error = Some(m),
                }
            }
            match hit {
                Some((m, input)) => {
                    confirmed = Some(V { message: m, input: if input.is_empty() { v.input } else { input }, ..v });
                    break;
                }
                None => {
                    error.get_or_insert(format!("a violation did not repeat on replay: {} {} {}", v.family, v.choices, v.message));
                }
            }
        }
        if confirmed.is_some() {
            break;
        }
    }
    // evidence
    let ev = vdir.join("evidence");
    let _ = std::fs::create_dir_all(ev.join("replay"));
    let mut stats: BTreeMap<String, [u64; 6]> = BTreeMap::new();
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut notes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    for rec in &records {
        for l in rec {
            match l[0].as_str() {
                "stat" => {
                    let e = stats.entry(l[1].clone()).or_default();
                    for i in 0..6 {
                        let v: u64 = l[2 + i].parse().unwrap();
                        if i == 5 {
                            e[i] = e[i].max(v);
                        } else {
                            e[i] += v;
                        }
                    }
                }
                "known" => {
                    let e = known.entry(l[1].clone()).or_insert((0, l[3].clone()));
                    e.0 += l[2].parse::<u64>().unwrap();
                }
                "note" => *notes.entry(l[1].clone()).or_default() += l[2].parse::<u64>().unwrap(),
                "sample" => samples.push(l[1].clone()),
                _ => (),
            }
        }
    }
    samples.sort();
    // one or two per family
    let mut per: BTreeMap<String, usize> = BTreeMap::new();
    samples.retain(|s| {
        let f = s.split(']').next().unwrap_or("").to_string();
        let n = per.entry(f).or_default();
        *n += 1;
        *n <= 2
    });
    let sum = |i: usize| stats.values().map(|s| s[i]).sum::<u64>();
    let cut = records.iter().any(|r| r.iter().any(|l| l[0] == "cut"));
    let complete = confirmed.is_none() && error.is_none() && !cut;
    let mut cov = String::new();
    cov += &format!("\"states\": {}, ", states.len());
    cov += &format!("\"transitions\": {}, ", sum(4));
    cov += &format!("\"traces_validated_against_impl\": {}, ", sum(1) + sum(2));
    cov += &format!("\"executions\": {}, ", sum(0));
    cov += &format!("\"unspecified_not_judged\": {}, ", sum(3));
    cov += &format!("\"exhaustive\": {}, ", complete);
    cov += &format!("\"hooks\": {}, ", cfg!(ledger_verif));
    cov += "\"families\": [";
    let mut first = true;
    for f in &fams {
        if let Some(s) = stats.get(f.name) {
            if !first {
                cov += ", ";
            }
            first = false;
            cov += &format!(
                "{{\"name\": {}, \"bound\": {}, \"executions\": {}, \"agreed\": {}, \"refused_as_required\": {}, \"unspecified\": {}, \"transitions\": {}}}",
                esc(f.name), esc(f.bound), s[0], s[1], s[2], s[3], s[4]
            );
        }
    }
    cov += "], \"measures\": {";
    cov += &notes.iter().map(|(k, n)| format!("{}: {}", esc(k), n)).collect::<Vec<_>>().join(", ");
    cov += "}, \"known_findings\": {";
    cov += &known.iter().map(|(k, n)| format!("{}: {}", esc(k), n.0)).collect::<Vec<_>>().join(", ");
    cov += "}, \"samples\": [";
    cov += &samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ");
    cov += "]";
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let json = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\", \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        esc(&prop),
        esc(tier_name(t)),
        seed,
        cov,
        [
            "the enumeration covers the stated alphabets and bounds, nothing is sampled",
            "states are distinct canonical observations of the real journal; transitions are directives or operations executed on it",
            "the reference model (mc/src/model.rs) states the intended meaning",
            "the library is compiled unoptimised, as for its own tests",
        ]
        .iter()
        .map(|s| esc(s))
        .collect::<Vec<_>>()
        .join(", "),
        start.elapsed().as_secs_f64(),
        confirmed.is_some() as u32
    );
    std::fs::File::create(ev.join(format!("{}.json", prop))).and_then(|mut f| f.write_all(json.as_bytes())).expect("evidence written");
    let _ = std::fs::remove_dir_all(&scratch);
    for (_, (n, w)) in &known {
        println!("KNOWN-FINDING: property={} {} ({} explored cases)", prop, w, n);
    }
    println!(
        "{} {}: {} executions, {} agreed with the model, {} refused as required, {} unspecified, {} states, {} transitions, {:.1} s",
        prop, tier_name(t), sum(0), sum(1), sum(2), sum(3), states.len(), sum(4), start.elapsed().as_secs_f64()
    );
    if std::env::var("MC_VERBOSE").is_ok() {
        for f in &fams {
            if let Some(s) = stats.get(f.name) {
                println!("  {:14} {:8} exec {:8} ok {:7} refused {:7} unspec  {:6} ms", f.name, s[0], s[1], s[2], s[3], s[5]);
            }
        }
        for (k, n) in &notes {
            println!("  {}: {}", k, n);
        }
    }
    if let Some(v) = confirmed {
        let path = ev.join("replay").join(format!("{}.txt", prop));
        let text = format!(
            "property: {}\ntier: {}\nfamily: {}\nchoices: {}\nhistory: {}\nviolation: {}\nreplay: cd /verif && ./check.sh --replay {}\ninput:\n{}\n",
            prop,
            tier_name(t),
            v.family,
            v.choices,
            with_history.map_or("none".to_string(), |s| format!("{} (needs the cases before it in this worker)", s)),
            v.message,
            path.display(),
            v.input
        );
        let _ = std::fs::write(&path, &text);
        println!("{}", text);
        println!("VIOLATION property={} replay={}", prop, path.display());
        return 1;
    }
    if let Some(e) = error {
        eprintln!("check error: {}", e);
        return 2;
    }
    let _ = std::fs::remove_file(ev.join("replay").join(format!("{}.txt", prop)));
    0
}

fn replay_file(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let scratch = std::env::temp_dir().join(format!("ledger-mc-replay-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let r = match get("history:").split(' ').next().and_then(|s| s.parse::<u64>().ok()) {
        Some(s) => run_shard(&get("property:"), tier(&get("tier:")), &scratch, s, &get("family:"), &get("choices:")),
        None => run_one(&get("property:"), tier(&get("tier:")), &scratch, &get("family:"), &get("choices:")),
    };
    let _ = std::fs::remove_dir_all(&scratch);
    match r {
        Ok(Some((m, i))) => {
            println!("{}\n{}", m, i);
            println!("VIOLATION property={} replay={}", get("property:"), path);
            1
        }
        Ok(None) => {
            println!("the property held");
            0
        }
        Err(e) => {
            eprintln!("{}", e);
            2
        }
    }
}

fn main() {
    let a = args();
    let code = match a.rest.first().map(|s| s.as_str()) {
        Some("worker") => {
            worker(&a);
            0
        }
        Some("check") => check(&a),
        Some("replay") => replay_file(&a.rest[1]),
        _ => {
            eprintln!("usage: ledger-mc check --prop ID [--tier quick|thorough] | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
