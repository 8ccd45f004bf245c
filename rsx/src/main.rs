mod comp; mod exec; mod ir; mod run; mod solver; mod term;
use exec::*;
use solver::Mode;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;

extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; fn kill(p: i32, s: i32) -> i32; fn setpgid(p: i32, g: i32) -> i32; fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32; fn pipe2(p: *mut i32, f: i32) -> i32; fn read(f: i32, b: *mut u8, n: usize) -> isize; fn write(f: i32, b: *const u8, n: usize) -> isize; }

fn esc(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }

enum Job { Path(State), Check(Vec<(State, term::T, String, String, Option<(term::T, term::T)>, Option<Vec<Option<u128>>>)>) }
fn dump(e: &Engine) -> String {
    let s = &e.stats;
    let mut o = String::new();
    let nums: [u64; 22] = [s.paths, s.ok_paths, s.assumed, s.forks, s.instrs, s.checks_trivial, s.checks_proved, s.checks_real, s.checks_ieee, s.undecided, s.incomplete, s.infeasible, s.cache_hits, e.uf.queries, e.ieee.queries, e.real.queries + e.ord.queries, e.uf.unknowns + e.ieee.unknowns + e.real.unknowns, e.uf.sats + e.ieee.sats + e.real.sats + e.ord.sats, e.uf.unsats + e.ieee.unsats + e.real.unsats + e.ord.unsats, ((e.uf.secs + e.ieee.secs + e.real.secs + e.ord.secs) * 1e6) as u64, s.unknown, 0];
    o.push_str(&format!("S {}\n", nums.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
    for v in &e.viols { o.push_str(&format!("V {}\t{}\t{}\t{}\t{}\n", v.kind, v.msg.replace(['\t', '\n'], " "), v.inputs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), v.confirmed as u8, v.log.join("; ").replace(['\t', '\n'], " "))); }
    for n in &e.notes { o.push_str(&format!("N {}\n", n.replace('\n', " "))); }
    for (c, n) in &e.covers { o.push_str(&format!("C {} {}\n", c, n)); }
    for (i, b) in &e.samples { o.push_str(&format!("P {}\t{}\n", i.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))); }
    let hit: Vec<String> = e.dbg_hit.iter().enumerate().filter(|x| *x.1).map(|x| x.0.to_string()).collect();
    o.push_str(&format!("D {}\n", hit.join(" ")));
    o
}

/// one byte in the pipe per idle processor
#[derive(Clone, Copy)]
struct Slots(i32, i32);
impl Slots {
    fn new(n: usize) -> Slots { let mut p = [0i32; 2]; assert!(unsafe { pipe2(p.as_mut_ptr(), 0o4000 | 0o2000000) } == 0); let s = Slots(p[0], p[1]); for _ in 0..n { s.give(); } s }
    fn take(&self) -> bool { let mut b = 0u8; unsafe { read(self.0, &mut b, 1) == 1 } }
    fn give(&self) { unsafe { write(self.1, &0u8, 1); } }
}
/// after fork: fresh counters and solver processes
fn fresh(e: &mut Engine, k: u64) {
    e.uf.detach(); e.ieee.detach(); e.real.detach(); e.ord.detach();
    e.stats = Stats::default(); e.viols.clear(); e.notes.clear(); e.covers.clear(); e.samples.clear(); for d in e.dbg_hit.iter_mut() { *d = false; }
    e.rng ^= (k + 1).wrapping_mul(0x9E3779B97F4A7C15);
}
/// Explore everything on the stack; hand half of it to a child process whenever a processor is idle.
/// Writes the result to `name`; gives its slot back; waits for its children.
fn worker(e: &mut Engine, todo: Vec<(State, term::T, String, String, Option<(term::T, term::T)>, Option<Vec<Option<u128>>>)>, slots: Slots, mut name: String) -> ! {
    let mut last = std::time::Instant::now();
    let mut kids: Vec<i32> = vec![];
    let mut nkid = 0u64;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        for (mut st, c, k, m, r, h) in todo { if e.stop_now { e.stats.incomplete += 1; break; } let _ = e.hard(&mut st, c, &k, m, r, h); }
        while let Some(s) = e.stack.pop() {
            if e.stop_now || std::time::Instant::now() > e.deadline { e.stats.incomplete += 1 + e.stack.len() as u64; break; }
            if e.stack.len() >= 2 && last.elapsed().as_millis() > 150 && slots.take() {
                let half = e.stack.len().div_ceil(2);
                let pid = unsafe { fork() };
                nkid += 1;
                if pid == 0 {
                    unsafe { prctl(1, 9, 0, 0, 0); }
                    drop(s); e.stack.truncate(half);
                    fresh(e, nkid); e.max_samples = 0; kids.clear(); name = format!("{}.{}", name, nkid); nkid = 0; last = std::time::Instant::now();
                    continue;
                }
                if pid > 0 { kids.push(pid); e.stack.drain(..half); } else { slots.give(); }
                last = std::time::Instant::now();
            }
            e.run(s);
        }
    }));
    if r.is_err() { e.stats.incomplete += 1; e.notes.push("engine error in worker".into()); }
    e.uf.kill(); e.ieee.kill(); e.real.kill(); e.ord.kill();
    let mut d = dump(e);
    slots.give();
    for p in kids { let mut stt = 0; unsafe { waitpid(p, &mut stt, 0); } if stt != 0 { d.push_str(&format!("{}N worker failed (status {})\n", LOST, stt)); slots.give(); } }
    d.push_str("END\n");
    let _ = std::fs::write(&name, d);
    unsafe { _exit(0) }
}
const LOST: &str = "S 0 0 0 0 0 0 0 0 0 0 1 0 0 0 0 0 0 0 0 0 0 0\n";

fn main() {
    // deep term DAGs: run on a large stack
    std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join().unwrap();
}
fn real_main() {
    let mut ll = String::new(); let mut harness = vec![]; let mut mode = Mode::Uf; let mut jobs = 1usize; let mut timeout = 300u64; let mut max_steps = 50_000_000u64; let mut out = String::new(); let mut work = String::from("/tmp"); let mut samples = 4usize; let mut mviol = 2u32; let mut list = false; let mut params: Vec<u64> = vec![]; let mut stop_after = 4usize; let mut ieee_to = 20000u64; let mut real_to = 20000u64;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() { match a.as_str() {
        "--ll" => ll = it.next().unwrap(), "--harness" => harness.push(it.next().unwrap()), "--jobs" => jobs = it.next().unwrap().parse().unwrap(), "--timeout" => timeout = it.next().unwrap().parse().unwrap(), "--max-steps" => max_steps = it.next().unwrap().parse().unwrap(), "--out" => out = it.next().unwrap(), "--work" => work = it.next().unwrap(), "--samples" => samples = it.next().unwrap().parse().unwrap(), "--max-viol" => mviol = it.next().unwrap().parse().unwrap(), "--list" => list = true, "--params" => params = it.next().unwrap().split(',').map(|x| x.parse().unwrap()).collect(), "--stop-after" => stop_after = it.next().unwrap().parse().unwrap(), "--ieee-timeout" => ieee_to = it.next().unwrap().parse().unwrap(), "--real-timeout" => real_to = it.next().unwrap().parse().unwrap(),
        "--mode" => mode = match it.next().unwrap().as_str() { "uf" => Mode::Uf, "ieee" => Mode::Ieee, o => panic!("mode {}", o) },
        o => panic!("argument {}", o) } }
    if list { let m = ir::Module::load(&ll); let mut v: Vec<_> = m.bodies.keys().filter(|x| x.starts_with("h_")).cloned().collect(); v.sort(); for x in v { println!("{}", x); } return; }
    let t0 = std::time::Instant::now();
    for h in harness {
        // each harness in its own child so that arenas start fresh
        let _ = std::fs::create_dir_all(&work);
        let m2 = ir::Module::load(&ll);
        let mut e = Engine::new(m2, mode);
        e.deadline = std::time::Instant::now() + std::time::Duration::from_secs(timeout);
        e.max_steps = max_steps; e.max_samples = samples; e.max_viol_per_site = mviol; e.params = params.clone(); e.stop_after = stop_after; e.ieee_timeout = ieee_to; e.real_timeout = real_to;
        let st = e.entry(&h);
        e.stack.push(st);
        let mut parts: Vec<String> = vec![];
        if jobs <= 1 {
            while let Some(s) = e.stack.pop() { if e.stop_now || std::time::Instant::now() > e.deadline { e.stats.incomplete += 1 + e.stack.len() as u64; break; } e.run(s); }
            parts.push(dump(&e));
        } else {
            // breadth-first until enough pending states exist, then fork workers
            let target = jobs * 24; let t1 = std::time::Instant::now();
            let mut n = 0;
            e.defer = true;
            while !e.stack.is_empty() && e.stack.len() < target && !(t1.elapsed().as_millis() > 2000 && e.stack.len() >= 4) && !e.stop_now && !e.late() && n < 100000 { let s = e.stack.remove(0); e.run(s); n += 1; }
            e.defer = false;
            let mut pend: Vec<Job> = vec![];
            let obl = std::mem::take(&mut e.obl); let nb = (jobs * 6).min(obl.len());
            let mut bs: Vec<Vec<_>> = (0..nb).map(|_| vec![]).collect();
            for (i, o) in obl.into_iter().enumerate() { bs[i % nb].push(o); }
            pend.extend(bs.into_iter().map(Job::Check));
            pend.extend(std::mem::take(&mut e.stack).into_iter().map(Job::Path));
            if e.stop_now { e.stats.incomplete += pend.len() as u64; pend.clear(); }
            parts.push(dump(&e));
            e.uf.kill(); e.ieee.kill(); e.real.kill(); e.ord.kill();
            let pre = format!("rsx.{}.{}.", std::process::id(), h);
            let slots = Slots::new(jobs);
            let mut running: BTreeMap<i32, usize> = BTreeMap::new();
            let mut nviol = 0usize; let mut stop = false; let mut next = 0usize;
            let mut pend: std::collections::VecDeque<Job> = pend.into();
            let mut read_parts = |parts: &mut Vec<String>| -> usize {
                if let Ok(d) = std::fs::read_dir(&work) { for f in d.flatten() { let n = f.file_name().to_string_lossy().to_string(); if n.starts_with(&pre) { if let Ok(s) = std::fs::read_to_string(f.path()) { if s.ends_with("END\n") { nviol += s.lines().filter(|l| l.starts_with("V ")).count(); parts.push(s); let _ = std::fs::remove_file(f.path()); } } } } }
                nviol
            };
            let mut tick = 0u64;
            while !running.is_empty() || !pend.is_empty() {
                let mut idle = true;
                while !stop && !pend.is_empty() && slots.take() {
                    idle = false;
                    let s = pend.pop_front().unwrap(); let k = next; next += 1;
                    let pid = unsafe { fork() };
                    if pid == 0 {
                        unsafe { setpgid(0, 0); prctl(1, 9, 0, 0, 0); }
                        fresh(&mut e, k as u64);
                        e.max_samples = if k < samples { 1 } else { 0 };
                        let s = match s { Job::Path(s) => { e.stack.push(s); vec![] } Job::Check(o) => o };
                        worker(&mut e, s, slots, format!("{}/{}{}", work, pre, k));
                    }
                    running.insert(pid, k);
                }
                if stop { if !pend.is_empty() { parts.push(LOST.replace(" 1 ", &format!(" {} ", pend.len()))); pend.clear(); } for &p in running.keys() { unsafe { kill(-p, 9); kill(p, 9); } } }
                let mut stt = 0; let p = unsafe { waitpid(-1, &mut stt, 1) };
                if p > 0 { idle = false; if running.remove(&p).is_some() && stt != 0 { parts.push(format!("{}N worker failed (status {})\n", LOST, stt)); slots.give(); } }
                tick += 1;
                if (p > 0 || tick % 50 == 0) && read_parts(&mut parts) >= stop_after { stop = true; }
                if idle { std::thread::sleep(std::time::Duration::from_millis(2)); }
            }
            read_parts(&mut parts);
            if let Ok(d) = std::fs::read_dir(&work) { for f in d.flatten() { if f.file_name().to_string_lossy().starts_with(&pre) { let _ = std::fs::remove_file(f.path()); } } }
        }
        // merge
        let mut nums = vec![0u64; 22]; let mut viols: Vec<Vec<String>> = vec![]; let mut notes: BTreeSet<String> = BTreeSet::new(); let mut covers: BTreeMap<u64, u64> = BTreeMap::new(); let mut samp: Vec<(String, String)> = vec![]; let mut dbg: BTreeSet<u32> = BTreeSet::new();
        for p in &parts { for l in p.lines() { let (k, r) = l.split_at(1.min(l.len())); let r = r.trim_start_matches(' '); match k {
            "S" => for (i, x) in r.split(' ').enumerate() { nums[i] += x.parse::<u64>().unwrap(); },
            "V" => viols.push(r.split('\t').map(|x| x.to_string()).collect()),
            "N" => { notes.insert(r.to_string()); }
            "C" => { let mut q = r.split(' '); let c: u64 = q.next().unwrap().parse().unwrap(); let n: u64 = q.next().unwrap().parse().unwrap(); *covers.entry(c).or_insert(0) += n; }
            "P" => { let mut q = r.split('\t'); samp.push((q.next().unwrap_or("").to_string(), q.next().unwrap_or("").to_string())); }
            "D" => for x in r.split(' ') { if !x.is_empty() { dbg.insert(x.parse().unwrap()); } },
            _ => {} } } }
        // source functions and lines executed symbolically
        let mut fns: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
        let me = &e.m;
        let field = |s: &str, f: &str| -> Option<String> { let p = s.find(&format!("{}: ", f))? + f.len() + 2; let r = &s[p..]; let e = r.find([',', ')']).unwrap_or(r.len()); Some(r[..e].to_string()) };
        for d in dbg {
            let mut cur = Some(d); let mut guard = 0;
            while let Some(x) = cur { guard += 1; if guard > 64 { break; }
                let Some(s) = me.meta.get(&x) else { break };
                let line: u32 = field(s, "line").and_then(|v| v.parse().ok()).unwrap_or(0);
                let mut sc = field(s, "scope").and_then(|v| v.trim_start_matches('!').parse::<u32>().ok());
                while let Some(y) = sc { let Some(t) = me.meta.get(&y) else { break }; if t.contains("!DISubprogram(") {
                        let nm = t.find("name: \"").map(|p| { let r = &t[p + 7..]; r[..r.find('"').unwrap()].to_string() }).unwrap_or_default();
                        let file = field(t, "file").and_then(|v| v.trim_start_matches('!').parse::<u32>().ok()).and_then(|f| me.meta.get(&f)).map(|f| f.find("filename: \"").map(|p| { let r = &f[p + 11..]; r[..r.find('"').unwrap()].to_string() }).unwrap_or_default()).unwrap_or_default();
                        if !file.starts_with("/rustc") && !file.contains(".cargo/registry") && !file.contains("/rust/deps") && !file.contains("/rustlib/src/") && !file.contains(".rustup") && !file.starts_with("library/") { fns.entry(format!("{}::{}", file.rsplit("/repo/").next().unwrap_or(&file), nm)).or_default().insert(line); }
                        break; } else { sc = field(t, "scope").and_then(|v| v.trim_start_matches('!').parse::<u32>().ok()); } }
                cur = field(s, "inlinedAt").and_then(|v| v.trim_start_matches('!').parse::<u32>().ok());
            }
        }
        let names = ["paths", "completed_paths", "assumed_away", "forks", "ir_instructions", "checks_trivial", "checks_proved", "checks_proved_real", "checks_proved_ieee", "undecided", "incomplete", "infeasible", "query_cache_hits", "queries_uf", "queries_ieee", "queries_real", "solver_unknown", "solver_sat", "solver_unsat", "solver_us", "branch_unknown"];
        let mut j = String::from("{");
        j.push_str(&format!("\"harness\":{}", esc(&h)));
        for (i, n) in names.iter().enumerate() { j.push_str(&format!(",\"{}\":{}", n, nums[i])); }
        j.push_str(&format!(",\"wall_s\":{:.3}", t0.elapsed().as_secs_f64()));
        j.push_str(",\"violations\":["); j.push_str(&viols.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"inputs\":[{}],\"confirmed\":{},\"log\":{}}}", esc(&v[0]), esc(&v[1]), v[2], v[3], esc(&v[4]))).collect::<Vec<_>>().join(",")); j.push(']');
        j.push_str(",\"notes\":["); j.push_str(&notes.iter().map(|v| esc(v)).collect::<Vec<_>>().join(",")); j.push(']');
        j.push_str(",\"covers\":{"); j.push_str(&covers.iter().map(|(c, n)| format!("\"{}\":{}", c, n)).collect::<Vec<_>>().join(",")); j.push('}');
        j.push_str(",\"samples\":["); j.push_str(&samp.iter().map(|(a, b)| format!("{{\"inputs\":[{}],\"obs\":[{}]}}", a, b)).collect::<Vec<_>>().join(",")); j.push(']');
        j.push_str(",\"functions\":{"); j.push_str(&fns.iter().map(|(f, l)| format!("{}:{}", esc(f), l.len())).collect::<Vec<_>>().join(",")); j.push_str("}}\n");
        if out.is_empty() { print!("{}", j); } else { std::fs::OpenOptions::new().create(true).append(true).open(&out).unwrap().write_all(j.as_bytes()).unwrap(); }
        e.uf.kill(); e.ieee.kill(); e.real.kill(); e.ord.kill();
    }
}
