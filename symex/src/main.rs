mod dbg;
mod exec;
mod expr;
mod ir;
mod solver;

use std::fmt::Write as _;
use std::io::{Read, Write};
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn report(e: &exec::Engine, funcs: bool) -> String {
    let s = &e.st;
    let mut o = String::from("{");
    let _ = write!(
        o,
        "\"paths\":{},\"ok\":{},\"expected_panics\":{},\"killed\":{},\"steps\":{},\"forks\":{},\"domain_queries\":{},\"model_hits\":{},\"smt_sat\":{},\"smt_unsat\":{},\"smt_unknown\":{},\"smt_cached\":{},\"solver_s\":{:.3},\"asserts\":{},\"assert_queries\":{},\"max_syms\":{},\"nodes\":{},",
        s.paths, s.ok, s.expected_panics, s.killed, s.steps, s.forks, s.dom_queries, s.model_hits,
        e.sol.n_sat, e.sol.n_unsat, e.sol.n_unknown, e.sol.n_cached, e.sol.time, s.asserts, s.assert_queries, s.max_syms,
        expr::ar().nodes.len()
    );
    let _ = write!(
        o,
        "\"incomplete\":{},\"fatal\":{},",
        e.incomplete.as_ref().map(|x| format!("\"{}\"", esc(x))).unwrap_or("null".into()),
        e.fatal.as_ref().map(|x| format!("\"{}\"", esc(x))).unwrap_or("null".into())
    );
    o.push_str("\"violations\":[");
    for (i, v) in e.viols.values().enumerate() {
        let _ = write!(
            o,
            "{}{{\"kind\":\"{}\",\"loc\":\"{}\",\"known\":{},\"input\":\"{}\",\"count\":{}}}",
            if i > 0 { "," } else { "" },
            esc(&v.kind),
            esc(&v.loc),
            v.known.as_ref().map(|x| format!("\"{}\"", esc(x))).unwrap_or("null".into()),
            hex(&v.input),
            v.count
        );
    }
    o.push_str("],\"samples\":[");
    for (i, v) in e.samples.iter().enumerate() {
        let _ = write!(
            o,
            "{}{{\"input\":\"{}\",\"status\":\"{}\",\"log\":\"{:016x}\"}}",
            if i > 0 { "," } else { "" },
            hex(&v.input),
            v.status,
            v.log
        );
    }
    o.push_str("],\"covers\":{");
    for (i, (k, v)) in e.covers.iter().enumerate() {
        let _ = write!(o, "{}\"{}\":{}", if i > 0 { "," } else { "" }, esc(k), v);
    }
    o.push_str("},\"unmodelled\":{");
    for (i, (k, v)) in e.unmodelled.iter().enumerate() {
        let _ = write!(o, "{}\"{}\":{}", if i > 0 { "," } else { "" }, esc(k), v);
    }
    o.push_str("},\"functions\":[");
    if funcs {
        let mut d = vec![];
        for (f, b) in &e.seen_blocks {
            if let Some(fu) = &e.m.funcs[*f as usize].func {
                for (_, x) in &fu.blocks[*b as usize].insts {
                    d.push(*x);
                }
            }
        }
        for (i, f) in dbg::repo_functions(&e.m, &d).iter().enumerate() {
            let _ = write!(o, "{}\"{}\"", if i > 0 { "," } else { "" }, esc(f));
        }
    }
    o.push_str("]}");
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut max_time = 600.0;
    let mut max_steps = 50_000_000u64;
    let mut jobs = 1usize;
    let mut timeout = 20_000u32;
    let mut samples = 64usize;
    let mut dump = None;
    let mut i = 1;
    while i < a.len() {
        let nx = || a[i + 1].clone();
        match a[i].as_str() {
            "--entry" => entry = nx(),
            "--out" => out = nx(),
            "--max-time" => max_time = nx().parse().unwrap(),
            "--max-steps" => max_steps = nx().parse().unwrap(),
            "--jobs" => jobs = nx().parse().unwrap(),
            "--smt-timeout-ms" => timeout = nx().parse().unwrap(),
            "--samples" => samples = nx().parse().unwrap(),
            "--dump-smt" => dump = Some(nx()),
            _ => {
                file = a[i].clone();
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    // Deep recursion over expression DAGs and IR types
    let h = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || run(file, entry, out, max_time, max_steps, jobs, timeout, samples, dump, t0))
        .unwrap();
    std::process::exit(h.join().unwrap_or(4));
}

#[allow(clippy::too_many_arguments)]
fn run(
    file: String, entry: String, out: String, max_time: f64, max_steps: u64, jobs: usize, timeout: u32, samples: usize,
    dump: Option<String>, t0: Instant,
) -> i32 {
    let m = ir::Module::load(&file);
    let mut e = exec::Engine::new(m, t0 + Duration::from_secs_f64(max_time), max_steps, timeout);
    e.max_samples = samples;
    e.sol.dump = dump;
    e.start(&entry);
    let mut parts = vec![];
    let shared: &'static exec::Shared = unsafe {
        // PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        &*(p as *const exec::Shared)
    };
    use std::sync::atomic::Ordering::SeqCst;
    shared.active.store(1, SeqCst);
    shared.next_id.store(1, SeqCst);
    if jobs > 1 {
        e.pool = Some(exec::Pool { shared, jobs: jobs as u32, id: 0, kids: vec![], last: t0 });
    }
    e.drain();
    shared.active.fetch_sub(1, SeqCst);
    let (id, kids) = e.pool.take().map_or((0, vec![]), |p| (p.id, p.kids));
    if id > 0 && std::fs::write(format!("{}.{}", out, id), report(&e, true)).is_err() {
        shared.died.fetch_add(1, SeqCst);
    }
    for p in kids {
        let mut s = 0;
        unsafe { waitpid(p, &mut s, 0) };
        if s != 0 {
            shared.died.fetch_add(1, SeqCst);
        }
    }
    if id > 0 {
        unsafe { _exit(0) }
    }
    for j in 1..shared.next_id.load(SeqCst) {
        let f = format!("{}.{}", out, j);
        let mut s = String::new();
        if let Ok(mut x) = std::fs::File::open(&f) {
            let _ = x.read_to_string(&mut s);
            parts.push(s);
        }
        let _ = std::fs::remove_file(&f);
    }
    if shared.died.load(SeqCst) > 0 {
        e.fatal.get_or_insert("worker process died".into());
    }
    parts.insert(0, report(&e, true));
    let txt = format!("{{\"wall_s\":{:.3},\"parts\":[{}]}}\n", t0.elapsed().as_secs_f64(), parts.join(",\n"));
    if out.is_empty() {
        print!("{}", txt);
    } else {
        std::fs::File::create(&out).unwrap().write_all(txt.as_bytes()).unwrap();
    }
    0
}
