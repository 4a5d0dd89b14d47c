mod exec; mod expr; mod fp; mod ir; mod mem; mod z3;
use std::io::{BufRead, Write};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn fnv(v: &[u64]) -> u64 { let mut h = 0xcbf29ce484222325u64; for x in v { for b in x.to_le_bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } } h }

/// usage: ksym FILE.ll   then one job per stdin line:
///   entry param arg-hex|- seconds-alone seconds-total parts keep
/// When the first limit passes with work left, the pending states are split over `parts` forked
/// processes.  One JSON line per job on stdout: an array with one report per process.
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1] == "--version" { println!("ksym 1 with libz3 {}", z3::Z3::version()); return; }
    let th = std::thread::Builder::new().stack_size(1 << 30).spawn(move || real(args)).unwrap();
    th.join().unwrap();
}
extern "C" { fn fork() -> i32; fn pipe(p: *mut i32) -> i32; fn close(f: i32) -> i32; fn read(f: i32, b: *mut u8, n: usize) -> isize; fn write(f: i32, b: *const u8, n: usize) -> isize; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; }

fn report(x: &exec::Exec, entry: &str, param: u64, t0: Instant) -> String {
    let s = &x.st;
    let mut o = format!("{{\"entry\":{},\"param\":{},\"paths\":{},\"done\":{},\"assumed\":{},\"forks\":{},\"decisions\":{},\"instrs\":{},\"pending\":{},\"dom_unsat\":{},\"dom_sat\":{},\"cache_hits\":{},\"queries\":{},\"q_sat\":{},\"q_unsat\":{},\"q_unknown\":{},\"solver_s\":{:.3},\"q_max_s\":{:.3},\"exprs\":{},\"wall_s\":{:.3},\"reach\":{}",
        esc(entry), param, s.paths, s.done, s.assumed, s.forks, s.decisions, s.instrs, s.pending, s.dom_unsat, s.dom_sat, s.cache_hits, x.z.queries, x.z.sat, x.z.unsat, x.z.unknown, x.z.time, x.z.maxq, x.c.nodes.len(), t0.elapsed().as_secs_f64(), x.reach);
    o.push_str(",\"unsup\":{");
    for (i, (k, v)) in s.unsup.iter().enumerate() { if i > 0 { o.push(','); } o.push_str(&format!("{}:{}", esc(k), v)); }
    o.push_str("},\"funcs\":[");
    let mut fs: Vec<&str> = x.executed.iter().map(|i| x.m.globals[*i].name.as_str()).collect(); fs.sort();
    for (i, f) in fs.iter().enumerate() { if i > 0 { o.push(','); } o.push_str(&esc(f)); }
    o.push_str("],\"recs\":[");
    for (i, r) in x.recs.iter().enumerate() {
        if i > 0 { o.push(','); }
        o.push_str(&format!("{{\"o\":\"{}\",\"msg\":{},\"in\":\"{}\",\"obs\":\"{:016x}\",\"nobs\":{},\"reach\":{}}}", r.outcome, esc(&r.msg), hex(&r.model), fnv(&r.obs), r.obs.len(), r.reach));
    }
    o.push_str("]}");
    o
}

fn real(args: Vec<String>) {
    let tmo = std::env::var("KSYM_Z3_TIMEOUT_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(60_000);
    let mut x = exec::Exec::new(&args[1], tmo);
    x.trace = std::env::var("KSYM_TRACE").is_ok();
    if let Ok(d) = std::env::var("KSYM_DUMP") { let mut it = d.split(':'); let dir = it.next().unwrap().to_string(); let ev = it.next().and_then(|s| s.parse().ok()).unwrap_or(1); x.z.dump = Some((dir, ev, 0)); }
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = match line { Ok(l) => l, Err(_) => break };
        let p: Vec<&str> = line.split_whitespace().collect();
        if p.len() < 2 { continue; }
        let n = |i: usize, d: u64| p.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
        x.reset();
        let t0 = Instant::now();
        x.cfg.arg = p.get(2).filter(|h| **h != "-").map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).unwrap_or_default();
        x.cfg.max_paths = u64::MAX; x.cfg.keep = n(6, 64) as usize;
        let end = t0 + Duration::from_secs(n(4, 3600));
        x.cfg.end = end;
        x.cfg.deadline = end.min(t0 + Duration::from_secs(n(3, 3600)));
        let parts = n(5, 1) as usize;
        x.cfg.confirm = std::env::var("KSYM_NOCONFIRM").is_err();
        if std::env::var("KSYM_PROF").is_ok() { x.prof = Some(Default::default()); }
        if let Err(e) = x.start(p[0], n(1, 0)) { println!("{{\"error\":{}}}", esc(&e)); let _ = std::io::stdout().flush(); continue; }
        x.run_all();
        let mut out = String::from("[");
        if x.st.pending > 0 && parts > 1 && Instant::now() < end {
            x.spread(parts * 12);
            x.st.pending = 0;
            out.push_str(&report(&x, p[0], n(1, 0), t0));
            // split the pending states over child processes
            let mut fds = vec![];
            for i in 0..parts {
                let mut fd = [0i32; 2];
                unsafe { pipe(fd.as_mut_ptr()) };
                let pid = unsafe { fork() };
                if pid == 0 {
                    let t1 = Instant::now();
                    unsafe { close(fd[0]) };
                    x.keep_part(i, parts);
                    x.cfg.deadline = end;
                    x.run_all();
                    let r = report(&x, p[0], n(1, 0), t1);
                    let mut b = r.as_bytes();
                    while !b.is_empty() { let k = unsafe { write(fd[1], b.as_ptr(), b.len()) }; if k <= 0 { break } b = &b[k as usize..]; }
                    unsafe { _exit(0) };
                }
                unsafe { close(fd[1]) };
                fds.push((fd[0], pid));
            }
            x.work.clear();
            for (fd, pid) in fds {
                let mut v = vec![]; let mut b = [0u8; 65536];
                loop { let k = unsafe { read(fd, b.as_mut_ptr(), b.len()) }; if k <= 0 { break } v.extend_from_slice(&b[..k as usize]); }
                unsafe { close(fd); waitpid(pid, std::ptr::null_mut(), 0); }
                out.push(',');
                if v.is_empty() { out.push_str("{\"lost\":1}"); } else { out.push_str(&String::from_utf8_lossy(&v)); }
            }
        } else {
            out.push_str(&report(&x, p[0], n(1, 0), t0));
            x.work.clear();
        }
        println!("{}]", out);
        let _ = std::io::stdout().flush();
        if let Some(p) = &x.prof { let mut v: Vec<_> = p.iter().collect(); v.sort_by_key(|k| std::cmp::Reverse(k.1)); for ((f, b), c) in v.iter().take(20) { eprintln!("{} {} {}", c, x.m.globals[*f].name, b); } }
    }
}
