#![allow(invalid_runtime_symbol_definitions)]
//! Deterministic simulator for http-ntlm. See /verif/DESIGN.md.
mod alloc;
mod build;
mod choices;
mod ctx;
mod diag;
mod gen;
mod hygiene;
mod os;
mod props;
mod refntlm;
mod sched;
mod selftest;
mod sut;
mod threads;
mod world;

use choices::{mix, Choices};
use ctx::Ctx;
use std::collections::BTreeMap;
use std::io::Write;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

fn seed_of(prop: &str, seed: u64, index: u64) -> u64 {
    let mut h = seed;
    for b in prop.bytes() {
        h = mix(h, b as u64);
    }
    mix(h, index)
}

/// CPU limit per run: a run that exceeds it is a hang.
const RUN_CPU_S: i64 = 12;

/// Starts the CPU limit anew (a long run does so as long as it gets on).
pub fn arm() {
    let it = libc::itimerval {
        it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
        it_value: libc::timeval { tv_sec: RUN_CPU_S, tv_usec: 0 },
    };
    unsafe { libc::setitimer(libc::ITIMER_VIRTUAL, &it, std::ptr::null_mut()) };
}

fn exec(prop: &'static str, ch: Choices, known: &[String], verbose: bool) -> Ctx {
    arm();
    let mut cx = Ctx::new(prop, ch, known.to_vec(), verbose);
    let p = probe::probe();
    p.path = 1;
    p.steps = 0;
    os::reset_observations();
    alloc::NET.with(|n| n.set(0));
    // the application's logger is on in half of the runs
    let level = if cx.ch.chance(128) { log::LevelFilter::Trace } else { log::LevelFilter::Off };
    log::set_max_level(level);
    props::run(&mut cx);
    cx
}

fn fresh(prop: &str, seed: u64, index: u64) -> Choices {
    Choices::random(seed_of(prop, seed, index))
}

fn one_line(s: &str) -> String {
    s.replace(['\n', '\t', '\r'], " ")
}

fn worker(a: &[String]) {
    let prop = props::canonical_name(&a[0]).expect("property");
    let seed: u64 = a[1].parse().unwrap();
    let start: u64 = a[2].parse().unwrap();
    let count: u64 = a[3].parse().unwrap();
    let out = &a[4];
    let known: Vec<String> = a.get(5).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();
    // choices survive the death of this process
    unsafe {
        let path = std::ffi::CString::new(format!("{}.sink", out)).unwrap();
        let fd = libc::creat(path.as_ptr(), 0o600);
        libc::close(fd);
        let fd = libc::openat(libc::AT_FDCWD, path.as_ptr(), libc::O_RDWR);
        libc::ftruncate(fd, (choices::SINK_WORDS * 8) as i64);
        let p = libc::mmap(std::ptr::null_mut(), choices::SINK_WORDS * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        assert!(p != libc::MAP_FAILED);
        libc::close(fd);
        choices::set_sink(p.cast());
    }
    let t0 = os::raw_time_ns();
    let mut faults: BTreeMap<&str, u64> = BTreeMap::new();
    let mut counts: BTreeMap<&str, u64> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, (u64, String, u64)> = BTreeMap::new();
    let (mut sim_ms, mut checks, mut steps, mut runs) = (0u64, 0u64, 0u64, 0u64);
    let mut shapes: Vec<u8> = Vec::new();
    let mut digests: Vec<u8> = Vec::new();
    let mut paths: Vec<u8> = Vec::new();
    let mut lib_steps = 0u64;
    let mut viol = None;
    let mut sample = Vec::new();
    for i in start..start + count {
        choices::sink_run(i);
        let cx = exec(prop, fresh(prop, seed, i), &known, i == start);
        runs += 1;
        for (k, v) in &cx.faults {
            *faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in &cx.counts {
            *counts.entry(k).or_insert(0) += v;
        }
        for (k, v) in &cx.known_hits {
            let e = known_hits.entry(k.clone()).or_insert((0, v.1.clone(), i));
            e.0 += v.0;
        }
        sim_ms += cx.sim_ms;
        checks += cx.checks;
        steps += cx.steps;
        if cx.nontrivial {
            shapes.extend(cx.shape.to_le_bytes());
        }
        digests.extend(cx.full.to_le_bytes());
        paths.extend(probe::probe().path.to_le_bytes());
        lib_steps += probe::probe().steps;
        if i == start {
            sample = cx.text.clone();
        }
        if let Some(v) = cx.viol {
            viol = Some((i, v.kind, v.detail, cx.ch.rec.clone(), cx.full));
            break;
        }
    }
    std::fs::write(format!("{}.shapes", out), &shapes).unwrap();
    std::fs::write(format!("{}.digests", out), &digests).unwrap();
    std::fs::write(format!("{}.paths", out), &paths).unwrap();
    std::fs::write(format!("{}.edges", out), probe::probe().hit).unwrap();
    let mut s = String::new();
    s += &format!("lib_steps\t{}\n", lib_steps);
    s += &format!("runs\t{}\nsim_ms\t{}\nchecks\t{}\nsteps\t{}\nns\t{}\n", runs, sim_ms, checks, steps, os::raw_time_ns() - t0);
    for (k, v) in &faults {
        s += &format!("fault\t{}\t{}\n", k, v);
    }
    for (k, v) in &counts {
        s += &format!("count\t{}\t{}\n", k, v);
    }
    for (k, v) in &known_hits {
        s += &format!("known\t{}\t{}\t{}\t{}\n", k, v.0, v.2, one_line(&v.1));
    }
    for l in sample.iter().take(60) {
        s += &format!("sample\t{}\n", one_line(l));
    }
    if let Some((i, kind, detail, rec, full)) = viol {
        let rec: Vec<String> = rec.iter().map(|x| x.to_string()).collect();
        s += &format!("viol\t{}\t{}\t{:016x}\t{}\nchoices\t{}\n", i, kind, full, one_line(&detail), rec.join(" "));
    }
    s += "done\n";
    std::fs::write(format!("{}.stats", out), s).unwrap();
    // threads blocked for ever must not keep us
    unsafe { libc::_exit(0) };
}

struct Replay {
    prop: &'static str,
    kind: String,
    /// "choices" or "batch"
    mode: String,
    seed: u64,
    start: u64,
    index: u64,
    digest: String,
    choices: Vec<u64>,
    known: Vec<String>,
}

fn load(path: &str) -> Replay {
    let t = std::fs::read_to_string(path).expect("replay file");
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    for l in t.lines() {
        if l.starts_with("---") {
            break;
        }
        if let Some((k, v)) = l.split_once(": ") {
            m.insert(k.to_string(), v.to_string());
        }
    }
    let g = |k: &str| m.get(k).cloned().unwrap_or_default();
    Replay {
        prop: props::canonical_name(&g("property")).expect("property"),
        kind: g("kind"),
        mode: g("mode"),
        seed: g("seed").parse().unwrap_or(0),
        start: g("start").parse().unwrap_or(0),
        index: g("index").parse().unwrap_or(0),
        digest: g("digest"),
        choices: g("choices").split_whitespace().map(|x| x.parse().unwrap()).collect(),
        known: g("known").split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(),
    }
}

fn replay(path: &str, verbose: bool) -> i32 {
    let r = load(path);
    let cx = if r.mode == "batch" {
        for i in r.start..r.index {
            let cx = exec(r.prop, fresh(r.prop, r.seed, i), &r.known, false);
            if cx.failed() {
                eprintln!("run {} of the batch already fails", i);
            }
        }
        exec(r.prop, fresh(r.prop, r.seed, r.index), &r.known, verbose)
    } else {
        exec(r.prop, Choices::replay(r.choices.clone()), &r.known, verbose)
    };
    if verbose {
        for l in &cx.text {
            println!("{}", l);
        }
    }
    let digest = format!("{:016x}", cx.full);
    let used = cx.ch.used();
    let code = match &cx.viol {
        Some(v) => {
            println!("RESULT violation kind={} digest={} used={} step={}", v.kind, digest, used, v.step);
            println!("DETAIL {}", one_line(&v.detail));
            if v.kind == r.kind && (r.digest.is_empty() || r.digest == digest) {
                println!("REPRODUCED {}", r.kind);
            } else if v.kind == r.kind {
                println!("REPRODUCED-KIND {} (digest {} recorded {})", r.kind, digest, r.digest);
            } else {
                println!("DIFFERENT kind {} recorded {}", v.kind, r.kind);
            }
            1
        }
        None => {
            println!("RESULT clean digest={} used={}", digest, used);
            0
        }
    };
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(code) };
}

/// Runs one candidate in a child process (so that it may crash, and starts with fresh statics).
/// Returns (kind, digest, choices used).
fn attempt(r: &Replay, c: &[u64]) -> Option<(String, u64, usize)> {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            let null = libc::openat(libc::AT_FDCWD, c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 2);
            let cx = exec(r.prop, Choices::replay(c.to_vec()), &r.known, false);
            let s = match &cx.viol {
                Some(v) => format!("{}\t{}\t{}", v.kind, cx.full, cx.ch.used()),
                None => String::new(),
            };
            os::raw6(libc::SYS_write, fds[1] as i64, s.as_ptr() as i64, s.len() as i64, 0, 0, 0);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut buf = Vec::new();
        let mut tmp = [0u8; 512];
        loop {
            let n = os::raw6(libc::SYS_read, fds[0] as i64, tmp.as_mut_ptr() as i64, tmp.len() as i64, 0, 0, 0);
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&tmp[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            let k = if libc::WTERMSIG(st) == libc::SIGVTALRM { "hang".to_string() } else { format!("process-died-signal-{}", libc::WTERMSIG(st)) };
            return Some((k, 0, c.len()));
        }
        let s = String::from_utf8_lossy(&buf).to_string();
        let mut p = s.split('\t');
        let k = p.next()?.to_string();
        if k.is_empty() {
            return None;
        }
        Some((k, p.next()?.parse().ok()?, p.next()?.parse().ok()?))
    }
}

/// Shortens and lowers the choices while the same kind of violation remains.
fn shrink(path: &str, out: &str, budget_s: u64) {
    let r = load(path);
    let t0 = os::raw_time_ns();
    let over = || (os::raw_time_ns() - t0) / 1_000_000_000 > budget_s;
    let mut best = r.choices.clone();
    let good = |c: &[u64]| -> Option<(u64, usize)> { attempt(&r, c).filter(|a| a.0 == r.kind).map(|a| (a.1, a.2)) };
    let Some((mut digest, used)) = good(&best) else {
        println!("SHRINK not-reproduced");
        return;
    };
    best.truncate(used.max(1).min(best.len()));
    let mut tries = 1u64;
    loop {
        let before = best.clone();
        // delete chunks
        let mut n = (best.len() / 2).max(1);
        while n >= 1 && !over() {
            let mut i = 0;
            while i < best.len() && !over() {
                let mut c = best.clone();
                let e = (i + n).min(c.len());
                c.drain(i..e);
                tries += 1;
                if let Some((d, u)) = good(&c) {
                    c.truncate(u.min(c.len()));
                    best = c;
                    digest = d;
                } else {
                    i += n;
                }
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
        // zero chunks, then single values lower
        for n in [8usize, 1] {
            let mut i = 0;
            while i < best.len() && !over() {
                let e = (i + n).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].fill(0);
                    tries += 1;
                    if let Some((d, u)) = good(&c) {
                        c.truncate(u.min(c.len()));
                        best = c;
                        digest = d;
                    }
                }
                i += n;
            }
        }
        let mut i = 0;
        while i < best.len() && !over() {
            for v in [1, best[i] / 2, best[i].saturating_sub(1)] {
                if v < best[i] {
                    let mut c = best.clone();
                    c[i] = v;
                    tries += 1;
                    if let Some((d, u)) = good(&c) {
                        c.truncate(u.min(c.len()));
                        best = c;
                        digest = d;
                        break;
                    }
                }
            }
            i += 1;
        }
        while best.last() == Some(&0) {
            best.pop();
        }
        if best == before || over() {
            break;
        }
    }
    if let Some((d, _)) = good(&best) {
        digest = d;
    }
    let list: Vec<String> = best.iter().map(|x| x.to_string()).collect();
    std::fs::write(out, format!("{:016x}\n{}\n", digest, list.join(" "))).unwrap();
    println!("SHRINK ok from={} to={} tries={}", r.choices.len(), best.len(), tries);
}

fn main() {
    probe::probe().on_empty = Some(sched::on_empty);
    sut::install_hook();
    let _ = log::set_logger(&os::Logger);
    log::set_max_level(log::LevelFilter::Trace);
    sut::prime();
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("worker") => worker(&a[1..]),
        Some("replay") => {
            replay(&a[1], true);
        }
        Some("try") => {
            replay(&a[1], false);
        }
        Some("selftest") => match selftest::run() {
            Ok(n) => println!("selftest: {} published values reproduced", n),
            Err(e) => {
                println!("selftest FAILED: {}", e);
                std::process::exit(2);
            }
        },
        Some("shrink") => shrink(&a[1], &a[2], a.get(3).and_then(|x| x.parse().ok()).unwrap_or(20)),
        _ => {
            eprintln!("usage: ntlmsim worker PROP SEED START COUNT OUT [KNOWN] | replay FILE | shrink FILE OUT [SECONDS]");
            std::process::exit(2);
        }
    }
}
