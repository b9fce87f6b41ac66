mod agree;
mod refuse;
mod algo;
mod curve;
mod engine;
mod enc;
mod gen;
mod hist;
mod ints;
mod model;
mod poly;
mod sym;

use engine::*;
use std::io::Write;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static A: Counting = Counting;

fn scale(id: &str) -> u64 {
    match id {
        "C01" | "C02" => 14, "C03" | "C04" => 25, "C05" => 10, "C06" | "C07" => 18, "C08" => 20, "C09" => 12,
        "C10" => 40, "C11" => 10, "C12" => 9, "C13" => 30, "C14" => 60, "C15" => 40, "C16" => 25, "C17" => 30, "C20" => 25, "C18" => 25, "C19" => 40,
        "C21" => 60, "C22" => 60, "C23" => 30, "C24" => 10, "C25" => 20, "C26" => 2, "C27" => 4, "C28" => 25, "C29" => 12,
        "C33" => 4, "C35" => 8, "C36" => 15, "C38" => 4, "C39" => 25,
        _ => 1,
    }
}
fn subs(id: &str) -> Vec<Sub> {
    SCALE.store(scale(id), std::sync::atomic::Ordering::SeqCst);
    match id {
        "C01" => ints::c01(), "C02" => ints::c02(), "C03" => ints::c03(), "C04" => ints::c04(),
        "C05" => poly::c05(), "C06" => poly::c06(), "C07" => poly::c07(), "C08" => poly::c08(),
        "C09" => poly::c09(), "C10" => poly::c10(), "C11" => poly::c11(), "C12" => poly::c12(),
        "C13" => poly::c13(), "C14" => poly::c14(), "C15" => poly::c15(), "C16" => poly::c16(),
        "C17" => poly::c17(), "C18" => poly::c18(), "C19" => poly::c19(), "C20" => sym::c20(),
        "C21" => sym::c21(), "C22" => sym::c22(),
        "C23" => curve::c23(), "C24" => curve::c24(), "C25" => curve::c25(), "C26" => curve::c26(),
        "C27" => curve::c27(), "C28" => curve::c28(), "C29" => curve::c29(), "C32" => curve::c32(),
        "C30" => algo::c30(), "C31" => algo::c31(), "C33" => algo::c33(), "C34" => algo::c34(),
        "C35" => algo::c35(), "C36" => algo::c36(), "C37" => hist::c37(), "C38" => agree::c38(), "C39" => refuse::c39(),
        _ => { eprintln!("unknown property {}", id); std::process::exit(2) }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn env_seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1) }
fn env_tier() -> Tier { if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { Tier::Thorough } else { Tier::Quick } }
fn tier_name(t: Tier) -> &'static str { if t == Tier::Quick { "quick" } else { "thorough" } }
fn threads() -> usize { std::env::var("PBT_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16)) }

fn write_evidence(id: &str, tier: Tier, seed: u64, out: Option<&Outcome>, wall: f64, violations: usize, note: &str) {
    let mut s = String::new();
    let (mut ev, mut dn) = (0u64, 0u64);
    let mut rules = String::new();
    let mut samples = Vec::new();
    let mut per = Vec::new();
    if let Some(o) = out {
        for (name, rule, st) in &o.per_sub {
            ev += st.evals;
            dn += st.distinct.len() as u64;
            rules.push_str(&format!("{}: {} ", name, rule));
            for x in st.samples.iter().take(2) { samples.push(esc(&format!("{}: {}", name, x))); }
            let labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
            per.push(format!("{{\"name\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"max_allocations_in_a_case\": {}, \"max_cpu_ms_of_a_case\": {}, \"classes\": {{{}}}}}", esc(name), st.evals, st.distinct.len(), st.max_allocs, st.max_ns / 1_000_000, labels.join(", ")));
        }
    }
    rules.push_str("Cases are shown in replay encoding: integers of arbitrary size in hex, lists as length then items.");
    if !note.is_empty() { rules.push_str(" NOTE: "); rules.push_str(note); }
    s.push_str(&format!("{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"sub_checks\": [\n   {}\n  ]\n }},\n",
        esc(id), esc(tier_name(tier)), seed, ev, dn, esc(&rules), samples.join(",\n   "), per.join(",\n   ")));
    s.push_str(&format!(" \"assumptions\": [\"num-bigint/num-integer arithmetic is correct (shared with the reference models)\", \"domain of each property as stated in properties.jsonl and DESIGN.md\"],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n", wall, violations));
    let _ = std::fs::create_dir_all("evidence");
    std::fs::write(format!("evidence/{}.json", id), s).expect("write evidence");
}

fn write_replay(id: &str, sub: &str, seed: u64, msg: &str, case: &str) -> String {
    let _ = std::fs::create_dir_all("evidence/replay");
    let path = format!("evidence/replay/{}-{}.txt", id, sub);
    std::fs::write(&path, format!("property {}\nsub {}\nseed {}\nmessage {}\ncase {}\n", id, sub, seed, msg.replace('\n', " | "), case)).expect("write replay");
    path
}
fn read_replay(path: &str) -> (String, String, String) {
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| { eprintln!("{}: {}", path, e); std::process::exit(2) });
    let get = |k: &str| s.lines().find(|l| l.split(' ').next() == Some(k)).map(|l| l[k.len()..].trim().to_string()).unwrap_or_default();
    (get("property"), get("sub"), get("case"))
}

/// known_findings.txt: lines "finding: property=<id> sub=<name> case=<exact encoding> :: <what fails>"
fn known(id: &str) -> Vec<(String, String, String)> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string("known_findings.txt") {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let (head, what) = r.split_once(" :: ").unwrap_or((r, ""));
                let (p, rest) = head.split_once(" sub=").unwrap_or((head, ""));
                let (sub, case) = rest.split_once(" case=").unwrap_or((rest, ""));
                if p == format!("property={}", id) { v.push((sub.into(), case.trim().into(), what.into())); }
            }
        }
    }
    v
}

fn worker(id: &str, work: &str) -> i32 {
    install_hook();
    start_watchdog();
    *TRIP_FILE.lock().unwrap() = format!("{}/trip", work);
    let (tier, seed) = (env_tier(), env_seed());
    let t = Instant::now();
    let list = subs(id);
    let out = run_all(&list, tier, seed, threads(), work);
    let wall = t.elapsed().as_secs_f64();
    if let Some(e) = &out.harness_error {
        eprintln!("harness error: {}", e);
        return 2;
    }
    write_evidence(id, tier, seed, Some(&out), wall, out.failures.len(), "");
    let mut lines = String::new();
    for f in &out.failures {
        let p = write_replay(id, f.sub, seed, &f.msg, &f.case);
        lines.push_str(&format!("{}\t{}\t{}\t{}\n", f.sub, p, f.case.trim(), clip(&f.msg.replace(['\n', '\t'], " "), 1500)));
    }
    std::fs::write(format!("{}/result", work), lines).unwrap();
    if out.failures.is_empty() { 0 } else { 1 }
}

fn run_child(args: &[&str], log: &str, limit: Duration) -> Result<std::process::ExitStatus, ()> {
    let exe = std::env::current_exe().unwrap();
    let f = std::fs::OpenOptions::new().create(true).append(true).open(log).unwrap();
    let mut c = Command::new(exe).args(args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(f).spawn().expect("spawn");
    let t = Instant::now();
    loop {
        if let Some(s) = c.try_wait().unwrap() { return Ok(s); }
        if t.elapsed() > limit { let _ = c.kill(); let _ = c.wait(); return Err(()); }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn check(id: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let (tier, seed) = (env_tier(), env_seed());
    let work = format!("{}/pbt-{}-{}", std::env::temp_dir().display(), id, std::process::id());
    std::fs::create_dir_all(&work).unwrap();
    let log = format!("{}/log", work);
    let t = Instant::now();
    let limit = Duration::from_secs(if tier == Tier::Quick { 780 } else { 6 * 3600 });
    let _ = std::fs::remove_file(format!("evidence/{}.json", id));
    let st = run_child(&["worker", id, &work], &log, limit);
    let mut found: Vec<(String, String, String, String)> = Vec::new(); // sub, replay, case, msg
    let mut code = 0;
    match st {
        Err(()) => {
            println!("check {}: wall-clock limit of the check reached, no verdict (not a violation)", id);
            for i in 0..threads() {
                if let Ok(b) = std::fs::read(format!("{}/slot{}", work, i)) {
                    let s = String::from_utf8_lossy(&b[..b.iter().position(|c| *c == 0).unwrap_or(b.len())]).to_string();
                    if !s.is_empty() { println!("  in progress: {}", clip(&s.replace('\n', " "), 300)); }
                }
            }
            code = 2;
        }
        Ok(s) if s.code() == Some(0) => {}
        Ok(s) if s.code() == Some(1) => {
            for l in std::fs::read_to_string(format!("{}/result", work)).unwrap_or_default().lines() {
                let v: Vec<&str> = l.split('\t').collect();
                found.push((v[0].into(), v[1].into(), v[2].into(), v[3].into()));
            }
            if found.is_empty() { code = 2; }
        }
        Ok(s) if s.code() == Some(77) => {
            let trip = std::fs::read_to_string(format!("{}/trip", work)).unwrap_or_default();
            let v: Vec<&str> = trip.lines().collect();
            if v.len() >= 3 {
                let msg = format!("the call does not end within {}, which is far above what any case needs on the original code", v[1]);
                let p = write_replay(id, v[0], seed, &msg, v[2]);
                found.push((v[0].into(), p, v[2].trim().into(), msg));
            } else { code = 2; }
            write_evidence(id, tier, seed, None, t.elapsed().as_secs_f64(), found.len(), "run ended by the work bound of one case; counts were lost");
        }
        Ok(s) if matches!(s.signal(), Some(6) | Some(11) | Some(7) | Some(4) | Some(8)) => {
            // an abort (stack overflow, for example): find which case in flight does it on its own
            for i in 0..threads() {
                if let Ok(b) = std::fs::read(format!("{}/slot{}", work, i)) {
                    let s = String::from_utf8_lossy(&b[..b.iter().position(|c| *c == 0).unwrap_or(b.len())]).to_string();
                    let v: Vec<&str> = s.lines().collect();
                    if v.len() < 2 { continue; }
                    let p = write_replay(id, v[0], seed, "the process is aborted by this case", v[1]);
                    if let Ok(r) = run_child(&["replay1", &p], &log, Duration::from_secs(120)) {
                        if matches!(r.signal(), Some(6) | Some(11) | Some(7) | Some(4) | Some(8)) {
                            found.push((v[0].into(), p, v[1].trim().into(), "the process is aborted (stack overflow or abort) by this case".into()));
                            break;
                        }
                    }
                    let _ = std::fs::remove_file(&p);
                }
            }
            if found.is_empty() { code = 2; }
            write_evidence(id, tier, seed, None, t.elapsed().as_secs_f64(), found.len(), "worker aborted; counts were lost");
        }
        Ok(s) => { println!("check {}: worker ended with {}", id, s); code = 2; }
    }
    if code == 2 { print!("{}", clip(&std::fs::read_to_string(&log).unwrap_or_default(), 4000)); }
    let kn = known(id);
    for (_, _, what) in &kn { println!("KNOWN-FINDING: property={} {}", id, what); }
    for (sub, replay, case, msg) in found {
        if kn.iter().any(|k| k.0 == sub && k.1 == case) { continue; }
        println!("sub-check {}: {}\n  case: {}", sub, msg, clip(&case, 600));
        println!("VIOLATION property={} replay={}", id, replay);
        if code == 0 { code = 1; }
    }
    let _ = std::fs::remove_dir_all(&work);
    if code == 0 {
        let e = std::fs::read_to_string(format!("evidence/{}.json", id)).unwrap_or_default();
        let pick = |k: &str| e.lines().find(|l| l.trim_start().starts_with(&format!("\"{}\"", k))).map(|l| l.trim().trim_end_matches(',').to_string()).unwrap_or_default();
        println!("{} held: {}, {}, {:.1} s", id, pick("evaluations"), pick("distinct_nontrivial"), t.elapsed().as_secs_f64());
    }
    let _ = std::io::stdout().flush();
    code
}

fn replay1(path: &str) -> i32 {
    install_hook();
    start_watchdog();
    let (id, sub, case) = read_replay(path);
    for s in subs(&id) {
        if s.name == sub {
            // same stack as in a check
            let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || (s.replay)(&case)).unwrap().join();
            return match r {
                Ok(Ok(())) => { eprintln!("replay: holds"); 0 }
                Ok(Err(m)) => { eprintln!("replay: {}", clip(&m, 4000)); 1 }
                Err(_) => { eprintln!("replay: cannot be decoded"); 2 }
            };
        }
    }
    eprintln!("no sub-check {} in {}", sub, id);
    2
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("worker") => worker(&a[2], &a[3]),
        Some("probe") => { let r = if a[2] == "c37" { hist::probe_main(&a[2..]) } else { sym::probe_main(&a[2..]) }; println!("\nprobe: {}", r); 0 }
        Some("replay1") => replay1(&a[2]),
        Some("replay") => {
            let (id, _, _) = read_replay(&a[2]);
            match run_child(&["replay1", &a[2]], "/dev/stderr", Duration::from_secs(600)) {
                Ok(s) if s.code() == Some(0) => 0,
                Ok(s) if s.code() == Some(2) => 2,
                Ok(_) => { println!("VIOLATION property={} replay={}", id, a[2]); 1 }
                Err(()) => { println!("replay: no verdict within 600 s"); 2 }
            }
        }
        _ => { eprintln!("usage: pbt check <id> | replay <file>"); 2 }
    };
    std::process::exit(code);
}
