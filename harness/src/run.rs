//! Parent and worker processes, replay files, evidence.

use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use crate::engine::*;
use crate::guide::Guide;
use crate::props::{self, Part, Prop};

const WORKERS: usize = 8;
/// Coverage-guided cases per random one.
const GUIDED: f64 = 0.3;

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32;
    fn _exit(code: i32) -> !;
}

fn cpu_seconds() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(2, &mut ts) };
    ts[0] as f64 + ts[1] as f64 / 1e9
}

static CASE: AtomicU64 = AtomicU64::new(0);

/// Address-space limit, quiet panics, and a watchdog on the CPU time of a single case.
fn guard() {
    let as_limit = [6u64 << 30, 6u64 << 30];
    unsafe { setrlimit(9, &as_limit) };
    let core = [0u64, 0];
    unsafe { setrlimit(4, &core) };
    std::panic::set_hook(Box::new(|info| {
        props::PANIC.with(|p| *p.borrow_mut() = info.to_string().replace('\n', " "));
        if std::env::var_os("VERIF_PANICS").is_some() {
            eprintln!("{info}");
        }
    }));
    std::thread::spawn(|| {
        let mut seen = u64::MAX;
        let mut since = 0.0;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = CASE.load(Ordering::Relaxed);
            if now != seen {
                seen = now;
                since = cpu_seconds();
            } else if cpu_seconds() - since > 40.0 {
                eprintln!("a single case used more than 40 s of CPU time");
                unsafe { _exit(97) };
            }
        }
    });
}

fn case_seed(seed: u64, id: &str, part: &str, index: u64) -> u64 {
    fnv(format!("{seed}/{id}/{part}/{index}").as_bytes())
}

fn run_case(part: &Part, src: &mut Src) -> (Case, Result<(), Failure>) {
    CASE.fetch_add(1, Ordering::Relaxed);
    let mut case = Case::default();
    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (part.run)(src, &mut case)));
    match result {
        Ok(r) => (case, r),
        Err(e) => {
            let text = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            eprintln!("HARNESS PANIC: {text}");
            let _ = std::io::stderr().flush();
            unsafe { _exit(98) }
        }
    }
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| {
        Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
    })
}

/// Signatures of the findings listed for a property.
fn listed(id: &str) -> Vec<(String, String)> {
    let text = fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("finding: ") {
            let mut words = rest.splitn(3, ' ');
            let prop = words.next().unwrap_or("").trim_start_matches("property=");
            let sig = words.next().unwrap_or("").trim_start_matches("sig=");
            if prop == id {
                out.push((sig.to_string(), words.next().unwrap_or("").to_string()));
            }
        }
    }
    out
}

fn find<'a>(props: &'a [Prop], id: &str, part: &str) -> Option<(&'a Prop, &'a Part)> {
    let p = props.iter().find(|p| p.id == id)?;
    let q = p.parts.iter().find(|q| q.name == part)?;
    Some((p, q))
}

fn choices_to_text(choices: &[u64]) -> String {
    choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ")
}

fn text_to_choices(text: &str) -> Vec<u64> {
    text.split_whitespace().filter_map(|w| w.parse().ok()).collect()
}

struct FailFile {
    part: String,
    index: u64,
    choices: Vec<u64>,
    message: String,
    detail: String,
}

fn write_fail(path: &Path, id: &str, f: &FailFile) {
    let text = format!(
        "property={id}\npart={}\nindex={}\nchoices={}\nmessage={}\n\n{}\n",
        f.part,
        f.index,
        choices_to_text(&f.choices),
        f.message.replace('\n', " "),
        f.detail
    );
    let tmp = path.with_extension("tmp");
    let _ = fs::write(&tmp, text);
    let _ = fs::rename(&tmp, path);
}

fn read_fail(path: &Path) -> Option<(String, FailFile)> {
    let text = fs::read_to_string(path).ok()?;
    let (head, detail) = text.split_once("\n\n").unwrap_or((&text, ""));
    let mut map = BTreeMap::new();
    for line in head.lines() {
        if let Some((k, v)) = line.split_once('=') {
            map.insert(k.to_string(), v.to_string());
        }
    }
    Some((
        map.get("property")?.clone(),
        FailFile {
            part: map.get("part")?.clone(),
            index: map.get("index").and_then(|v| v.parse().ok()).unwrap_or(0),
            choices: text_to_choices(map.get("choices").map(|s| s.as_str()).unwrap_or("")),
            message: map.get("message").cloned().unwrap_or_default(),
            detail: detail.to_string(),
        },
    ))
}

// ---------------------------------------------------------------- worker

/// worker ID SEED WORKER-NUMBER DIR PART START(case index to resume at) COUNT GUIDED
///
/// The first COUNT cases are random; the GUIDED ones after them are mutations of cases that showed something new.
pub fn worker(args: &[&str]) -> i32 {
    let [id, seed, w, dir, part, start, count, guided] = args else { return 2 };
    let (seed, w, start, count, guided): (u64, u64, u64, u64, u64) = (
        seed.parse().unwrap(),
        w.parse().unwrap(),
        start.parse().unwrap(),
        count.parse().unwrap(),
        guided.parse().unwrap(),
    );
    let dir = Path::new(dir);
    guard();
    let props = props::all();
    let Some((_, part)) = find(&props, id, part) else { return 2 };
    let known: HashSet<String> = listed(id).into_iter().map(|(s, _)| s).collect();
    let progress = fs::File::create(dir.join(format!("progress-{w}"))).unwrap();
    let mut stats = Stats::default();
    let tried = fs::File::create(dir.join(format!("tried-{w}"))).unwrap();
    let mut guide = Guide::new();
    let mut index = start;
    while index < count + guided {
        std::os::unix::fs::FileExt::write_at(&progress, &index.to_le_bytes(), 0).unwrap();
        let case_seed = case_seed(seed, id, part.name, index);
        let mut src = if index >= count && guide.available() {
            // the parent needs the choices when the case ends the process
            let choices = guide.next(case_seed);
            let text: Vec<u8> = std::iter::once(choices.len() as u64).chain(choices.iter().copied()).flat_map(u64::to_le_bytes).collect();
            std::os::unix::fs::FileExt::write_at(&tried, &text, 0).unwrap();
            Src::mutant(choices, !case_seed)
        } else {
            Src::random(case_seed)
        };
        let begin = std::time::Instant::now();
        let (case, result) = run_case(part, &mut src);
        if begin.elapsed().as_secs() > 2 && std::env::var("LV_SLOW").is_ok() {
            eprintln!("SLOW CASE {index} {:?}", begin.elapsed());
            let _ = fs::write(format!("/tmp/slow-{index}"), format!("{}\n{:?}", index, begin.elapsed()));
        }
        let new = guide.observe(&src, !case.discard);
        if index >= count {
            stats.guided += 1;
            stats.guided_new += new as u64;
        }
        match result {
            Ok(()) => stats.add(&case),
            Err(f) if f.known.is_some_and(|k| known.contains(k)) => {
                stats.add(&case);
                *stats.known.entry(f.known.unwrap().to_string()).or_default() += 1;
            }
            Err(f) => {
                stats.add(&case);
                let path = dir.join(format!("fail-{w}"));
                let mut best = FailFile { part: part.name.into(), index, choices: src.rec.clone(), message: f.message, detail: f.detail };
                write_fail(&path, id, &best);
                save_stats(&dir.join(format!("stats-{w}-{start}")), &stats);
                let mut last = None;
                let begin = std::time::Instant::now();
                let shrunk = shrink(best.choices.clone(), part.shrink, |candidate| {
                    if begin.elapsed().as_secs() > 60 {
                        return None;
                    }
                    let mut src = Src::replay(candidate.to_vec());
                    let (case, result) = run_case(part, &mut src);
                    match result {
                        Err(f) if !case.discard && !f.known.is_some_and(|k| known.contains(k)) => {
                            last = Some(f);
                            let mut used = src.rec;
                            used.truncate(candidate.len().max(1));
                            Some(used)
                        }
                        _ => None,
                    }
                });
                // the kept sequence, re-run for its own message
                let mut src = Src::replay(shrunk.clone());
                if let (_, Err(f)) = run_case(part, &mut src) {
                    best = FailFile { choices: shrunk, message: f.message, detail: f.detail, ..best };
                    write_fail(&path, id, &best);
                }
                return 1;
            }
        }
        index += WORKERS as u64;
    }
    save_stats(&dir.join(format!("stats-{w}-{start}")), &stats);
    fs::write(dir.join(format!("edges-{w}-{start}")), guide.edges.iter().map(|&e| e as u8).collect::<Vec<_>>()).unwrap();
    0
}

fn save_stats(path: &Path, s: &Stats) {
    let mut text = format!("n {} {} {}\n", s.evaluations, s.discarded, s.nontrivial);
    text += &format!("g {} {}\n", s.guided, s.guided_new);
    for (l, n) in &s.labels {
        text += &format!("l {n} {l}\n");
    }
    for (l, n) in &s.known {
        text += &format!("f {n} {l}\n");
    }
    for sample in &s.samples {
        text += &format!("s {}\n", sample.replace('\\', "\\\\").replace('\n', "\\n"));
    }
    for k in &s.keys {
        text += &format!("k {k:x}\n");
    }
    fs::write(path, text).unwrap();
}

fn load_stats(path: &Path, s: &mut Stats) {
    let Ok(text) = fs::read_to_string(path) else { return };
    for line in text.lines() {
        let (tag, rest) = line.split_once(' ').unwrap_or((line, ""));
        match tag {
            "n" => {
                let v: Vec<u64> = rest.split(' ').map(|x| x.parse().unwrap()).collect();
                s.evaluations += v[0];
                s.discarded += v[1];
                s.nontrivial += v[2];
            }
            "g" => {
                let v: Vec<u64> = rest.split(' ').map(|x| x.parse().unwrap()).collect();
                s.guided += v[0];
                s.guided_new += v[1];
            }
            "l" | "f" => {
                let (n, l) = rest.split_once(' ').unwrap();
                let map = if tag == "l" { &mut s.labels } else { &mut s.known };
                *map.entry(l.to_string()).or_default() += n.parse::<u64>().unwrap();
            }
            "s" => s.samples.push(rest.replace("\\n", "\n").replace("\\\\", "\\")),
            "k" => {
                s.keys.insert(u64::from_str_radix(rest, 16).unwrap());
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- single cases

pub fn exec(id: &str, part: &str, file: &str) -> i32 {
    guard();
    let props = props::all();
    let Some((_, part)) = find(&props, id, part) else { return 2 };
    let choices = text_to_choices(&fs::read_to_string(file).unwrap());
    let mut src = Src::replay(choices);
    let (case, result) = run_case(part, &mut src);
    match result {
        Ok(()) => 0,
        Err(_) if case.discard => 0,
        Err(f) => {
            println!("{}\n{}", f.message, f.detail);
            1
        }
    }
}

pub fn replay(file: &str) -> i32 {
    let Some((id, f)) = read_fail(Path::new(file)) else {
        eprintln!("not a replay file");
        return 2;
    };
    let dir = scratch(&format!("{id}-replay"));
    let path = dir.join("choices");
    fs::write(&path, choices_to_text(&f.choices)).unwrap();
    let out = Command::new(std::env::current_exe().unwrap())
        .args(["exec", &id, &f.part, path.to_str().unwrap()])
        .output()
        .unwrap();
    let _ = fs::remove_dir_all(&dir);
    let text = String::from_utf8_lossy(&out.stdout);
    print!("{text}");
    match out.status.code() {
        Some(0) => {
            println!("replay passes");
            0
        }
        Some(1) => {
            println!("VIOLATION property={id} replay={file}");
            1
        }
        other => {
            println!("the case ends the process: {other:?} {}", out.status);
            println!("VIOLATION property={id} replay={file}");
            1
        }
    }
}

pub fn dump(id: &str, part: &str, index: &str) -> i32 {
    let props = props::all();
    let Some((_, part)) = find(&props, id, part) else { return 2 };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut src = Src::random(case_seed(seed, id, part.name, index.parse().unwrap()));
    let (case, result) = run_case(part, &mut src);
    println!("labels {:?} nontrivial {} discard {}", case.labels, case.nontrivial, case.discard);
    println!("{}", case.sample.unwrap_or_default());
    if let Err(f) = result {
        println!("FAIL {}\n{}", f.message, f.detail);
    }
    0
}

fn scratch(name: &str) -> PathBuf {
    let dir = std::env::temp_dir().join(format!("verif-{name}-{}", std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    dir
}

// ---------------------------------------------------------------- parent

enum Verdict {
    Pass,
    Fail(String),
    Crash(String),
}

fn exec_choices(id: &str, part: &str, choices: &[u64], dir: &Path) -> Verdict {
    let path = dir.join("choices");
    fs::write(&path, choices_to_text(choices)).unwrap();
    let out = Command::new(std::env::current_exe().unwrap())
        .args(["exec", id, part, path.to_str().unwrap()])
        .stdin(Stdio::null())
        .output()
        .unwrap();
    match out.status.code() {
        Some(0) => Verdict::Pass,
        Some(1) => Verdict::Fail(String::from_utf8_lossy(&out.stdout).into_owned()),
        Some(98) => Verdict::Pass,
        _ => Verdict::Crash(format!("{} {}", out.status, String::from_utf8_lossy(&out.stderr).chars().take(400).collect::<String>())),
    }
}

/// The choices of a random case, recorded without running the code under test to the end is not possible
/// when it crashes; so the generator alone is asked for them.
fn record_choices(part: &Part, seed: u64, id: &str, index: u64, tried: Option<Vec<u64>>) -> Vec<u64> {
    let seed = case_seed(seed, id, part.name, index);
    let mut src = tried.map_or_else(|| Src::random(seed), |choices| Src::mutant(choices, !seed));
    props::GENERATE_ONLY.with(|g| g.set(true));
    let mut case = Case::default();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (part.run)(&mut src, &mut case)));
    props::GENERATE_ONLY.with(|g| g.set(false));
    src.rec
}

fn spawn(id: &str, seed: u64, w: usize, dir: &Path, part: &Part, start: u64, count: u64, guided: u64) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(["worker", id, &seed.to_string(), &w.to_string(), dir.to_str().unwrap(), part.name])
        .args([start.to_string(), count.to_string(), guided.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(fs::File::create(dir.join(format!("stderr-{w}"))).unwrap())
        .spawn()
        .unwrap()
}

fn read_tried(path: &Path) -> Option<Vec<u64>> {
    let bytes = fs::read(path).ok()?;
    let mut words = bytes.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
    let n = words.next()? as usize;
    Some(words.take(n).collect())
}

struct Found {
    fail: FailFile,
}

pub fn check(id: &str, rest: &[&str]) -> i32 {
    let started = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let scale: f64 = rest.iter().find_map(|r| r.strip_prefix("--scale=")).and_then(|v| v.parse().ok()).unwrap_or(1.0);
    let only: Option<&str> = rest.iter().find_map(|r| r.strip_prefix("--part="));
    let props = props::all();
    let Some(prop) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    std::panic::set_hook(Box::new(|_| {}));
    let dir = scratch(id);
    let mut total = Stats::default();
    let mut per_part = Vec::new();
    let mut all_edges: Vec<u8> = Vec::new();
    let mut found: Option<Found> = None;
    let mut broken: Option<String> = None;

    for part in &prop.parts {
        if only.is_some_and(|o| o != part.name) {
            continue;
        }
        let count = ((if thorough { part.thorough } else { part.quick }) as f64 * scale).ceil() as u64;
        let guided = (count as f64 * std::env::var("GUIDED").ok().and_then(|v| v.parse().ok()).unwrap_or(GUIDED)).ceil() as u64;
        let pdir = dir.join(part.name);
        fs::create_dir_all(&pdir).unwrap();
        let mut children: Vec<(usize, u64, Child)> =
            (0..WORKERS).map(|w| (w, w as u64, spawn(id, seed, w, &pdir, part, w as u64, count, guided))).collect();
        let mut crashes = 0;
        while !children.is_empty() {
            let mut next = Vec::new();
            for (w, start, mut child) in children {
                match child.try_wait().unwrap() {
                    None => next.push((w, start, child)),
                    Some(status) => match status.code() {
                        Some(0) => {}
                        _ if pdir.join(format!("fail-{w}")).exists() => {}
                        code => {
                            // the process died in some case: confirm it on its own
                            let index = fs::read(pdir.join(format!("progress-{w}")))
                                .ok()
                                .and_then(|b| b.try_into().ok().map(u64::from_le_bytes))
                                .unwrap_or(start);
                            crashes += 1;
                            let stderr = fs::read_to_string(pdir.join(format!("stderr-{w}"))).unwrap_or_default();
                            if code == Some(98) || code == Some(2) {
                                broken = Some(format!("harness failure in {} case {index}: {stderr}", part.name));
                                continue;
                            }
                            let tried = (index >= count).then(|| read_tried(&pdir.join(format!("tried-{w}")))).flatten();
                            let choices = record_choices(part, seed, id, index, tried);
                            match exec_choices(id, part.name, &choices, &pdir) {
                                Verdict::Crash(how) => {
                                    let shrunk = shrink(choices, if code == Some(97) { 0 } else { 150 }, |c| match exec_choices(id, part.name, c, &pdir) {
                                        Verdict::Crash(_) => Some(c.to_vec()),
                                        _ => None,
                                    });
                                    let fail = FailFile {
                                        part: part.name.into(),
                                        index,
                                        choices: shrunk,
                                        message: format!("the conversion ends the process: {how}"),
                                        detail: String::new(),
                                    };
                                    write_fail(&pdir.join(format!("fail-{w}")), id, &fail);
                                }
                                Verdict::Fail(text) => {
                                    let fail = FailFile {
                                        part: part.name.into(),
                                        index,
                                        choices,
                                        message: text.lines().next().unwrap_or("").into(),
                                        detail: text,
                                    };
                                    write_fail(&pdir.join(format!("fail-{w}")), id, &fail);
                                }
                                Verdict::Pass => {
                                    if crashes > 3 {
                                        broken = Some(format!("worker died ({status}) without a reproducible case: {stderr}"));
                                    } else {
                                        let resume = index + WORKERS as u64;
                                        next.push((w, resume, spawn(id, seed, w, &pdir, part, resume, count, guided)));
                                    }
                                }
                            }
                        }
                    },
                }
            }
            children = next;
            if !children.is_empty() {
                std::thread::sleep(Duration::from_millis(5));
            }
        }
        let mut stats = Stats::default();
        let mut edges: Vec<u8> = Vec::new();
        for entry in fs::read_dir(&pdir).unwrap().flatten() {
            let name = entry.file_name().to_string_lossy().into_owned();
            if name.starts_with("stats-") {
                load_stats(&entry.path(), &mut stats);
            }
            if name.starts_with("edges-") {
                let seen = fs::read(entry.path()).unwrap();
                edges.resize(edges.len().max(seen.len()), 0);
                edges.iter_mut().zip(seen).for_each(|(e, s)| *e |= s);
            }
            if name.starts_with("fail-") && !name.ends_with(".tmp") {
                if let Some((_, fail)) = read_fail(&entry.path()) {
                    let better = found.as_ref().map_or(true, |f| {
                        (fail.choices.len(), fail.index) < (f.fail.choices.len(), f.fail.index)
                    });
                    if better {
                        found = Some(Found { fail });
                    }
                }
            }
        }
        let met = edges.iter().filter(|&&e| e != 0).count() as u64;
        per_part.push(PartResult {
            part,
            cases: stats.evaluations,
            discarded: stats.discarded,
            distinct: stats.keys.len() as u64,
            guided: stats.guided,
            guided_new: stats.guided_new,
            edges: (met, edges.len() as u64),
        });
        for (k, e) in edges.iter().enumerate() {
            if all_edges.len() <= k {
                all_edges.push(0);
            }
            all_edges[k] |= e;
        }
        for (l, n) in std::mem::take(&mut stats.labels) {
            *total.labels.entry(format!("{}:{l}", part.name)).or_default() += n;
        }
        for (l, n) in std::mem::take(&mut stats.known) {
            *total.known.entry(l).or_default() += n;
        }
        total.evaluations += stats.evaluations;
        total.discarded += stats.discarded;
        total.nontrivial += stats.nontrivial;
        let part_hash = fnv(part.name.as_bytes());
        total.keys.extend(stats.keys.iter().map(|k| k ^ part_hash));
        total.samples.extend(stats.samples.into_iter().take(2));
        if found.is_some() || broken.is_some() {
            break;
        }
    }
    let _ = fs::remove_dir_all(&dir);

    // every listed finding is re-run on its own and reported
    if found.is_none() && broken.is_none() {
        for (sig, text) in listed(id) {
            if prop.findings.iter().any(|(s, _)| *s == sig) {
                // in a process of its own: it executes converted code
                let status = std::env::current_exe().ok().and_then(|exe| Command::new(exe).args(["finding", id, &sig]).status().ok());
                match status.and_then(|s| s.code()) {
                    Some(10) => println!("KNOWN-FINDING: property={id} {sig}: {text}"),
                    Some(0) => println!("note: the listed finding {sig} did not occur"),
                    other => println!("note: the reproduction of the listed finding {sig} ended with {other:?}"),
                }
            }
        }
    }

    let wall = started.elapsed().as_secs_f64();
    write_evidence(prop, &tier, seed, &total, &per_part, wall, found.is_some() as u64);
    println!(
        "{id} tier={tier} seed={seed}: {} cases, {} discarded, {} distinct non-trivial, {wall:.1} s",
        total.evaluations,
        total.discarded,
        total.keys.len()
    );
    for (l, n) in &total.labels {
        println!("  {n:>8} {l}");
    }
    for p in &per_part {
        println!("  {}: {} of {} edges, {} guided cases, {} new", p.part.name, p.edges.0, p.edges.1, p.guided, p.guided_new);
    }
    println!("  all: {} of {} edges", all_edges.iter().filter(|&&e| e != 0).count(), all_edges.len());
    if let Some(text) = broken {
        println!("ERROR: {text}");
        return 3;
    }
    if let Some(f) = found {
        let rdir = verif_dir().join("replays");
        let _ = fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{id}-{}-{seed}.txt", f.fail.part));
        write_fail(&path, id, &f.fail);
        println!("{}", f.fail.message);
        println!("{}", f.fail.detail.chars().take(6000).collect::<String>());
        println!("VIOLATION property={id} replay={}", path.display());
        return 1;
    }
    if total.keys.is_empty() {
        println!("ERROR: nothing non-trivial was generated");
        return 3;
    }
    0
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 || c as u32 == 127 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

struct PartResult<'a> {
    part: &'a Part,
    cases: u64,
    discarded: u64,
    distinct: u64,
    guided: u64,
    guided_new: u64,
    edges: (u64, u64),
}

fn write_evidence(prop: &Prop, tier: &str, seed: u64, s: &Stats, parts: &[PartResult], wall: f64, violations: u64) {
    let mut rule = String::from("Every case is generated from a seeded choice sequence; a case is non-trivial and distinct as follows. ");
    for p in parts {
        rule += &format!("[{}] {} ", p.part.name, p.part.rule);
    }
    let samples: Vec<String> = s.samples.iter().take(8).map(|t| json(&t.chars().take(2500).collect::<String>())).collect();
    let part_text: Vec<String> = parts
        .iter()
        .map(|p| {
            format!(
                "{}: {{\"cases\": {}, \"discarded\": {}, \"distinct_nontrivial\": {}, \"coverage_guided_cases\": {}, \"of_them_new_behaviour\": {}, \"edges_met\": \"{} of {}\"}}",
                json(p.part.name),
                p.cases,
                p.discarded,
                p.distinct,
                p.guided,
                p.guided_new,
                p.edges.0,
                p.edges.1
            )
        })
        .collect();
    let labels: Vec<String> = s.labels.iter().map(|(l, n)| format!("{}: {n}", json(l))).collect();
    let known: Vec<String> = s.known.iter().map(|(l, n)| format!("{}: {n}", json(l))).collect();
    let assumptions: Vec<String> = prop.assumptions.iter().map(|a| json(a)).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"discarded\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"parts\": {{{}}},\n  \"classes\": {{{}}},\n  \"known_findings_met\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n",
        json(prop.id),
        json(tier),
        s.evaluations,
        s.discarded,
        s.keys.len(),
        json(&rule),
        part_text.join(", "),
        labels.join(", "),
        known.join(", "),
        samples.join(",\n   "),
        assumptions.join(", ")
    );
    let dir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(dir.join(format!("{}.json", prop.id)), text).expect("evidence file");
}
