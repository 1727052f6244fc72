//! zkmc: bounded exhaustive exploration of the real zkp-implementation crates.
//!
//!   zkmc check  <PROPERTY> [quick|thorough]
//!   zkmc replay <FILE>
//!   zkmc list
mod core;
mod props;
mod util;

use crate::core::*;
use std::collections::HashSet;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

fn verif_dir() -> PathBuf {
    std::env::var("ZKMC_HOME").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn tier_of(s: Option<&str>) -> Tier {
    let v = s.map(|x| x.to_string()).or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_default();
    if v == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// Library code prints; keep the real stdout for the verdict.
fn steal_stdio() -> std::fs::File {
    use std::os::fd::FromRawFd;
    let _ = std::io::stdout().flush();
    unsafe {
        let out = dup(1);
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
        use std::os::fd::AsRawFd;
        dup2(null.as_raw_fd(), 1);
        if std::env::var("ZKMC_STDERR").is_err() {
            dup2(null.as_raw_fd(), 2);
        }
        std::fs::File::from_raw_fd(out)
    }
}

struct KnownLine {
    property: String,
    key: String,
}

fn load_known() -> Vec<KnownLine> {
    let p = verif_dir().join("known_findings.txt");
    let text = std::fs::read_to_string(p).unwrap_or_default();
    text.lines()
        .filter(|l| l.starts_with("known: "))
        .filter_map(|l| {
            let mut property = None;
            let mut key = None;
            for w in l.split_whitespace() {
                if let Some(x) = w.strip_prefix("property=") {
                    property = Some(x.to_string());
                }
                if let Some(x) = w.strip_prefix("key=") {
                    key = Some(x.to_string());
                }
            }
            Some(KnownLine { property: property?, key: key? })
        })
        .collect()
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{}...", t)
    }
}

fn write_replay(id: &str, tier: Tier, v: &Violation) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.replay", id, v.scenario.replace(['/', ' '], "_")));
    let mut t = String::new();
    t.push_str(&format!("property: {}\n", id));
    t.push_str(&format!("tier: {}\nseed: {}\n", tier_name(tier), seed()));
    t.push_str(&format!("trace: {}\n", encode(&v.scenario, &v.choices)));
    t.push_str(&format!("key: {}\nwhat: {}\n", v.key, v.msg.replace('\n', " ")));
    t.push_str(&format!("deterministic: {}\n", v.deterministic));
    for n in &v.notes {
        t.push_str(&format!("note: {}\n", n.replace('\n', " ")));
    }
    t.push_str("# replay with: bash /verif/run.sh replay <this file>\n");
    let _ = std::fs::write(&path, t);
    path
}

fn write_evidence(id: &str, tier: Tier, rep: &Report, wall: f64, prop: &props::Prop) {
    let mut samples: Vec<String> = rep.samples.iter().take(12).map(|s| js(&clip(s, 900))).collect();
    if samples.is_empty() {
        samples.push(js("no execution completed"));
    }
    let outcomes: Vec<String> = rep.outcomes.iter().take(200).map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let scs: Vec<String> = rep
        .per_scenario
        .iter()
        .map(|(n, e, s, d)| format!("{{\"scenario\": {}, \"executions\": {}, \"states\": {}, \"deviation_bound\": {}}}", js(n), e, s, d))
        .collect();
    let assumptions: Vec<String> = prop.assumptions.iter().map(|a| js(a)).collect();
    let kn: Vec<String> = rep.known.iter().map(|(k, m, n)| format!("{{\"key\": {}, \"what\": {}, \"executions\": {}}}", js(k), js(&clip(m, 300)), n)).collect();
    let j = format!(
        "{{\n \"property\": {id},\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {states},\n  \"transitions\": {trans},\n  \"traces_validated_against_impl\": {ex},\n  \"choice_points\": {cp},\n  \"max_trace_choices\": {md},\n  \"pruned_combinations\": {pr},\n  \"exhaustive\": {exh},\n  \"bounds\": {bounds},\n  \"how_validated\": \"every trace is an execution of the real crates; the reference model is evaluated on the same choices and compared at every step\",\n  \"scenarios\": [{scs}],\n  \"outcomes\": {{{outc}}},\n  \"known_findings_reproduced\": [{kn}],\n  \"samples\": [{samples}]\n }},\n \"assumptions\": [{assm}],\n \"wall_s\": {wall:.3},\n \"violations\": {viol}\n}}\n",
        id = js(id),
        tier = tier_name(tier),
        seed = seed(),
        states = rep.states,
        trans = rep.transitions,
        ex = rep.executions,
        cp = rep.choice_points,
        md = rep.max_depth,
        pr = rep.pruned,
        exh = !rep.capped && rep.engine_errors.is_empty() && rep.violations.is_empty(),
        bounds = js(prop.bounds),
        scs = scs.join(", "),
        outc = outcomes.join(", "),
        kn = kn.join(", "),
        samples = samples.join(", "),
        assm = assumptions.join(", "),
        wall = wall,
        viol = rep.violations.len(),
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", id)), j);
}

fn journal_path(id: &str) -> PathBuf {
    let d = verif_dir().join("target");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("journal-{}-{}", id, std::process::id()))
}

fn child(id: &str, tier: Tier, journal: &Path) -> i32 {
    let mut out = steal_stdio();
    install_panic_hook();
    let t0 = Instant::now();
    let Some(prop) = props::find(id) else {
        let _ = writeln!(out, "unknown property {}", id);
        return 2;
    };
    let known: HashSet<String> = load_known().into_iter().filter(|k| k.property == id).map(|k| k.key).collect();
    let budget = match tier {
        Tier::Quick => 600,
        Tier::Thorough => 780,
    };
    let opt = Options {
        tier,
        seed: seed(),
        threads: std::env::var("ZKMC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8)),
        deadline: Some(t0 + Duration::from_secs(budget)),
        known,
        journal: std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(journal).ok(),
        hang_limit: Duration::from_secs(200),
    };
    let mut rep = Report::default();
    let only = std::env::var("ZKMC_ONLY").ok();
    for sc in (prop.scenarios)(tier) {
        if let Some(o) = &only {
            if !sc.name.contains(o.as_str()) {
                continue;
            }
        }
        let t = Instant::now();
        explore(&sc, &opt, &mut rep);
        let (n, e, s, _) = rep.per_scenario.last().unwrap().clone();
        let _ = writeln!(out, "  scenario {:<34} executions {:>9}  states {:>9}  {:.1}s", n, e, s, t.elapsed().as_secs_f64());
        if rep.violations.len() >= 3 {
            break;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(id, tier, &rep, wall, &prop);
    let _ = writeln!(
        out,
        "{} {}: {} executions, {} states, {} transitions, {} outcomes, {:.1}s{}",
        id,
        tier_name(tier),
        rep.executions,
        rep.states,
        rep.transitions,
        rep.outcomes.len(),
        wall,
        if rep.capped { " (CAPPED by wall budget)" } else { "" }
    );
    for (k, m, _) in &rep.known {
        let _ = writeln!(out, "KNOWN-FINDING: property={} key={} {}", id, k, clip(&m.replace('\n', " "), 400));
    }
    if !rep.violations.is_empty() {
        for v in &rep.violations {
            let p = write_replay(id, tier, v);
            let _ = writeln!(out, "  [{}] {}", v.key, clip(&v.msg.replace('\n', " "), 600));
            let _ = writeln!(out, "VIOLATION property={} replay={}", id, p.display());
        }
        return 1;
    }
    if !rep.engine_errors.is_empty() {
        for e in rep.engine_errors.iter().take(5) {
            let _ = writeln!(out, "ENGINE ERROR {}", clip(e, 600));
        }
        return 2;
    }
    if rep.executions == 0 {
        let _ = writeln!(out, "ENGINE ERROR nothing was executed");
        return 2;
    }
    0
}

fn run_with_timeout(mut c: std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn supervise(id: &str, tier: Tier) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let t0 = Instant::now();
    let exe = std::env::current_exe().expect("own path");
    let journal = journal_path(id);
    let c = Command::new(&exe).args(["child", id, tier_name(tier)]).arg(&journal).spawn();
    let status = match c.and_then(|mut c| c.wait()) {
        Ok(s) => s,
        Err(e) => {
            println!("ENGINE ERROR cannot run: {}", e);
            return 2;
        }
    };
    let code = match status.code() {
        Some(0..=2) => status.code().unwrap(),
        other => {
            // The process died under library code (abort, stack overflow, hang):
            // find which of the running executions does it, alone.
            let hang = other == Some(97);
            let what = if hang { "an execution did not terminate".to_string() } else { format!("process died: {:?}", status) };
            println!("  {} - replaying what was running", what);
            let entries = std::fs::read(&journal).map(|b| journal_read(&b)).unwrap_or_default();
            let mut code = 2;
            for (sc, choices) in entries.into_iter().filter(|e| !e.0.is_empty()) {
                let v = Violation {
                    scenario: sc,
                    devs: 0,
                    choices,
                    key: if hang { "nontermination".into() } else { "process-death".into() },
                    msg: format!("library code killed or hung the process ({})", what),
                    notes: vec![],
                    deterministic: true,
                };
                let p = write_replay(id, tier, &v);
                let died = if hang {
                    true
                } else {
                    match Command::new(&exe).arg("replay").arg(&p).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
                        Ok(c) => match run_with_timeout(c, Duration::from_secs(60)) {
                            Some(s) => matches!(s.signal(), Some(4) | Some(6) | Some(7) | Some(8) | Some(11)),
                            None => true,
                        },
                        Err(_) => false,
                    }
                };
                if died {
                    let mut rep = Report { executions: 1, transitions: 1, states: 1, ..Default::default() };
                    rep.samples.push(encode(&v.scenario, &v.choices));
                    rep.violations.push(v);
                    if let Some(prop) = props::find(id) {
                        write_evidence(id, tier, &rep, t0.elapsed().as_secs_f64(), &prop);
                    }
                    println!("VIOLATION property={} replay={}", id, p.display());
                    code = 1;
                    break;
                }
                let _ = std::fs::remove_file(&p);
            }
            code
        }
    };
    let _ = std::fs::remove_file(&journal);
    code
}

fn replay_file(path: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        println!("cannot read {}", path);
        return 2;
    };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{}: ", k)).map(|s| s.to_string()));
    let (Some(id), Some(trace)) = (get("property"), get("trace")) else {
        println!("not a replay file");
        return 2;
    };
    let tier = tier_of(get("tier").as_deref());
    let sd = get("seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let Some((scn, choices)) = decode(&trace) else {
        println!("bad trace");
        return 2;
    };
    let mut out = steal_stdio();
    install_panic_hook();
    let Some(prop) = props::find(&id) else { return 2 };
    for sc in (prop.scenarios)(tier) {
        if sc.name == scn {
            return match replay(&sc, &choices, tier, sd) {
                Ok(notes) => {
                    for n in notes {
                        let _ = writeln!(out, "  {}", n);
                    }
                    let _ = writeln!(out, "no violation on replay");
                    0
                }
                Err((f, notes)) => {
                    for n in notes {
                        let _ = writeln!(out, "  {}", n);
                    }
                    let _ = writeln!(out, "[{}] {}", f.key, f.msg);
                    let _ = writeln!(out, "VIOLATION property={} replay={}", id, path);
                    1
                }
            };
        }
    }
    let _ = writeln!(out, "unknown scenario {}", scn);
    2
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() >= 3 => supervise(&a[2], tier_of(a.get(3).map(|s| s.as_str()))),
        Some("child") if a.len() >= 5 => child(&a[2], tier_of(Some(&a[3])), Path::new(&a[4])),
        Some("replay") if a.len() >= 3 => replay_file(&a[2]),
        Some("history") if a.len() >= 3 => {
            let mut out = steal_stdio();
            install_panic_hook();
            props::history_p::run_history(&a[2], &mut out)
        }
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.bounds);
            }
            0
        }
        _ => {
            println!("usage: zkmc check <PROPERTY> [quick|thorough] | replay <FILE> | list");
            2
        }
    };
    std::process::exit(code);
}
