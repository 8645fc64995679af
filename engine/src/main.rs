mod term; mod selftest; mod smt; mod ir; mod mem; mod exec;
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; fn pipe(f: *mut i32) -> i32; fn close(f: i32) -> i32; fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, l: usize, p: i32, fl: i32, fd: i32, o: i64) -> *mut u8;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += " ", c => o.push(c) } }
    o + "\""
}
fn result_json(e: &exec::Engine, case: i64, wall: f64) -> String {
    let mut s = String::from("{");
    s += &format!("\"case\":{},\"wall\":{:.3},\"steps\":{},\"forks\":{},\"merges\":{},\"merge_fails\":{},\"paths\":{},\"killed\":{},\"closing\":{},\"table_decisions\":{},", case, wall, e.st.steps, e.st.forks, e.st.merges, e.st.merge_fails, e.st.paths, e.st.killed, e.st.closing, e.st.table_decisions);
    s += &format!("\"queries\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"unknowns\":{},\"fallback\":{},\"max_query_s\":{:.3},\"sum_decisions\":{},\"terms\":{},", e.sol.queries, e.sol.cache_hits, e.sol.time, e.sol.unknowns, e.sol.fallback, e.sol.max_q, e.sol.sum_decisions, term::ts().nodes.len());
    s += "\"checks\":{"; s += &e.st.checks.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","); s += "},";
    s += "\"covers\":{"; s += &e.st.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","); s += "},";
    s += "\"fns\":["; s += &e.st.fns.iter().map(|f| js(&e.m.fns[*f as usize].pretty)).collect::<Vec<_>>().join(","); s += "],";
    s += "\"incomplete\":["; s += &e.incomplete.iter().map(|x| js(x)).collect::<Vec<_>>().join(","); s += "],";
    s += "\"violations\":["; s += &e.viol.iter().map(|v| format!("{{\"kind\":{},\"id\":{},\"msg\":{},\"inputs\":{:?},\"observed\":{:?}}}", js(&v.kind), js(&v.id), js(&v.msg), v.inputs.iter().map(|x| x.to_string()).collect::<Vec<_>>(), v.observed.iter().map(|x| x.to_string()).collect::<Vec<_>>())).collect::<Vec<_>>().join(","); s += "],";
    s += "\"traces\":["; s += &e.traces.iter().map(|(i, o)| format!("{{\"inputs\":{:?},\"observed\":{:?}}}", i.iter().map(|x| x.to_string()).collect::<Vec<_>>(), o.iter().map(|x| x.map_or("?".to_string(), |v| v.to_string())).collect::<Vec<_>>())).collect::<Vec<_>>().join(","); s += "]}";
    s
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let ir = &args[1];
    if ir == "--selftest" { return selftest::run(args.get(2).map_or(2000, |x| x.parse().unwrap())); }
    let entry = get("--entry").unwrap_or_default();
    let jobs: usize = get("--jobs").map_or(8, |x| x.parse().unwrap());
    let secs: u64 = get("--secs").map_or(600, |x| x.parse().unwrap());
    let t0 = Instant::now();
    let mut m = ir::Module::load(ir);
    if args.iter().any(|a| a == "--parse-all") { let n = m.fns.len(); let mut k = 0; for i in 0..n { if m.func(i as u32).is_some() { k += 1; } } println!("{} of {} functions parsed", k, n); return 0; }
    let mut e = exec::Engine::new(m);
    e.verbose = std::env::var("SYMIR_V").is_ok();
    e.trace_calls = std::env::var("SYMIR_T").is_ok();
    e.deadline = Some(t0 + Duration::from_secs(secs));
    if let Some(x) = get("--timeout-ms") { e.sol.timeout_ms = x.parse().unwrap(); }
    if let Some(x) = get("--hard-timeout-ms") { e.sol.hard_timeout_ms = x.parse().unwrap(); }
    if let Some(x) = get("--concrete") { e.concrete = Some(x.split(',').map(|v| v.parse().unwrap()).collect()); }
    if let Some(x) = get("--max-steps") { e.max_steps = x.parse().unwrap(); }
    if let Some(x) = get("--merge") { e.merge_level = x.parse().unwrap(); }
    if args.iter().any(|a| a == "--stop-first") { e.stop_first = true; }
    if e.verbose { eprintln!("loaded in {:.2}s", t0.elapsed().as_secs_f64()); }
    e.case_probe = true;
    let s = e.initial(&entry);
    if e.verbose { eprintln!("globals in {:.2}s", t0.elapsed().as_secs_f64()); }
    e.explore(s);
    if e.case_state.is_none() { e.close(); }
    let mut results: Vec<String> = vec![];
    if let Some((st, n)) = e.case_state.take() {
        let only: Option<u64> = get("--case").map(|x| x.parse().unwrap());
        e.sol.reset_proc(); e.case_probe = false;
        if let Some(k) = only {
            e.case = Some(k); e.explore(st); e.close();
            results.push(result_json(&e, k as i64, t0.elapsed().as_secs_f64()));
        } else {
            let ctr = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *mut std::sync::atomic::AtomicU64;
            let nw = jobs.min(n as usize);
            let mut kids = vec![];
            for _ in 0..nw {
                let mut fds = [0i32; 2];
                unsafe { pipe(fds.as_mut_ptr()) };
                let pid = unsafe { fork() };
                if pid == 0 {
                    unsafe { prctl(1, 9, 0, 0, 0); close(fds[0]); }
                    let mut out = unsafe { std::fs::File::from_raw_fd(fds[1]) };
                    loop {
                        let k = unsafe { (*ctr).fetch_add(1, std::sync::atomic::Ordering::SeqCst) };
                        if k >= n { break; }
                        let tk = Instant::now();
                        // fresh statistics per case
                        e.st = exec::Stats::default(); e.viol.clear(); e.traces.clear(); e.incomplete.clear();
                        let (q0, c0, s0, f0, d0) = (e.sol.queries, e.sol.cache_hits, e.sol.time, e.sol.fallback, e.sol.sum_decisions);
                        e.sol.queries = 0; e.sol.cache_hits = 0; e.sol.time = 0.0; e.sol.unknowns = 0; e.sol.fallback = 0; e.sol.max_q = 0.0; e.sol.sum_decisions = 0;
                        let _ = (q0, c0, s0, f0, d0);
                        e.case = Some(k);
                        let st2 = st.clone();
                        e.explore(st2); e.close();
                        if e.verbose { eprintln!("case {} done in {:.2}s paths {} forks {} merges {} queries {} solver {:.1}", k, tk.elapsed().as_secs_f64(), e.st.paths, e.st.forks, e.st.merges, e.sol.queries, e.sol.time); }
                        let j = result_json(&e, k as i64, tk.elapsed().as_secs_f64());
                        let _ = out.write_all(j.as_bytes()); let _ = out.write_all(b"\n");
                    }
                    drop(out);
                    e.sol.reset_proc();
                    unsafe { _exit(0) }
                }
                unsafe { close(fds[1]) };
                kids.push((pid, fds[0]));
            }
            let mut bad = 0;
            let mut hs = vec![];
            for (pid, fd) in kids {
                hs.push(std::thread::spawn(move || {
                    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
                    let mut t = String::new();
                    let _ = f.read_to_string(&mut t);
                    let mut st = 0;
                    unsafe { waitpid(pid, &mut st, 0) };
                    (t, st)
                }));
            }
            for h in hs { let (t, st) = h.join().unwrap(); if st != 0 { bad += 1; } for l in t.lines() { results.push(l.to_string()); } }
            if bad > 0 || results.len() != n as usize { results.push(format!("{{\"case\":-1,\"incomplete\":[\"{} worker(s) failed; {} of {} cases reported\"]}}", bad, results.len(), n)); }
        }
    } else {
        results.push(result_json(&e, -1, t0.elapsed().as_secs_f64()));
    }
    if e.verbose {
        let mut h: Vec<_> = e.hot.iter().collect(); h.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (f, n) in h.iter().take(15) { eprintln!("{:8} calls {}", n, e.m.fns[**f as usize].pretty); }
        let mut h: Vec<_> = e.fork_sites.iter().collect(); h.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b), n) in h.iter().take(15) { eprintln!("{:8} forks {} bb{}", n, e.m.fns[*f as usize].pretty, b); }
    }
    let out = get("--out");
    let txt = format!("[{}]\n", results.join(",\n"));
    match out { Some(p) => std::fs::write(p, txt).unwrap(), None => print!("{}", txt) }
    0
}
fn main() {
    // deep recursion over terms and regions: run on a big stack
    let h = std::thread::Builder::new().stack_size(8 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(101);
    std::process::exit(c);
}
