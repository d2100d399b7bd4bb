
// Harnesses for measurements
use super::{
    main::MonitorStatus,
    worker::{self, JobError, WorkReceiver},
    *,
};
use crate::output::UnitProfile;
use std::{path::PathBuf, sync::mpsc};
use symrt::{
    os::{Listed, Proc},
    *,
};

// ---------------------------------------------------------------- stop flags

/// Flags of which all but three are raised
fn flags_left(len: usize) {
    let flags = StopFlags::new(len);
    let server = flags.server();
    let clients: Vec<_> = flags.clients().collect();
    check(clients.len() == len && server.num_active() == len, "number of workers");
    let i: [usize; 3] = std::array::from_fn(|k| {
        // around the ends of words, and two anywhere
        let i = if k == 0 && len > 8 { [0, 1, 62, 63, 64, 65, len - 1][choice(7) as usize] } else { symrt::u8() as usize };
        assume(i < len);
        i
    });
    for (w, word) in flags.0.iter().enumerate() {
        let mut v = 0usize;
        for i in i {
            v |= if i / 64 == w { 1 << (i % 64) } else { 0 };
        }
        word.store(v, Ordering::Relaxed);
    }
    let (lo, hi) = (i[0].min(i[1]).min(i[2]), i[0].max(i[1]).max(i[2]));
    let mid = i[0] ^ i[1] ^ i[2] ^ lo ^ hi;
    let mut want = vec![lo];
    if mid != lo && mid != hi {
        want.push(mid);
    }
    if hi != lo {
        want.push(hi);
    }
    if want.len() == 3 {
        cover("three left");
    } else if want.len() == 1 {
        cover("one left");
    }
    check(server.num_active() == want.len(), "number of active workers");
    let mut got = server.enumerate_active();
    for w in &want {
        check(got.next() == Some(*w), "active worker");
    }
    check(got.next().is_none(), "more workers are active than there are");
    drop(got);
    server.stop(i[0]);
    check(server.num_active() == want.len() - 1, "number of active workers after a stop");
    let mut got = server.enumerate_active();
    for w in &want {
        if *w != i[0] {
            check(got.next() == Some(*w), "active worker after a stop");
        }
    }
    check(got.next().is_none(), "a stopped worker is active");
    drop(got);
    server.stop_all();
    check(server.num_active() == 0 && server.enumerate_active().next().is_none(), "active workers after stopping all");
    check(clients.iter().all(|c| c.must_stop()), "no request to stop after stopping all");
}
/// The first stops
fn flags_first(len: usize, all: bool) {
    let flags = StopFlags::new(len);
    let server = flags.server();
    let clients: Vec<_> = flags.clients().collect();
    check(clients.len() == len, "number of clients");
    check(!clients.iter().any(|c| c.must_stop()), "request to stop from nowhere");
    let looked_at = |k: usize| all || matches!(k % 64, 0 | 1 | 62 | 63) || k == len - 1;
    let (i, j) = if all { (choice(len as u32) as usize, choice(len as u32) as usize) } else { (symrt::u8() as usize, symrt::u8() as usize) };
    assume(i < len && j < len && i != j);
    server.stop(i);
    check(server.num_active() == len - 1, "number of active workers");
    for (k, c) in clients.iter().enumerate() {
        if looked_at(k) {
            check(c.must_stop() == (k == i), "request to stop for another worker");
        }
    }
    server.stop(j);
    check(server.num_active() == len - 2, "number of active workers after two stops");
    for (k, c) in clients.iter().enumerate() {
        if looked_at(k) {
            check(c.must_stop() == (k == i || k == j), "request to stop for another worker after two");
        }
    }
    cover("two stops");
}

// -------------------------------------------------------- running out of memory

static mut AVAILABLE: u64 = 0;
fn available() -> u64 {
    unsafe { AVAILABLE }
}
fn memory(max: u64) -> u64 {
    let a = symrt::u64();
    assume(a < max);
    unsafe { AVAILABLE = a }
    a
}
const MARGIN: u64 = 100_000_000;
fn oom(n: usize, updates: usize, max: u64) {
    unsafe { os::WORLD.available = available }
    let mut last = memory(max);
    let monitor = Monitor::new(n);
    let mut server = monitor.server();
    let clients: Vec<_> = monitor.clients().collect();
    // memory that is kept free, per thread that may use it
    let mut margin = MARGIN * (n as u64 + 1);
    let mut elapsed = vec![0; n];
    for _ in 0..updates {
        let free = memory(max);
        for (k, e) in monitor.elapsed.iter().enumerate() {
            elapsed[k] = symrt::u8() as usize;
            e.store(elapsed[k], Ordering::Relaxed);
        }
        let before: Vec<bool> = clients.iter().map(|c| !c.must_stop()).collect();
        let mut left = before.iter().filter(|x| **x).count();
        let got = server.update();
        let after: Vec<bool> = clients.iter().map(|c| !c.must_stop()).collect();
        // the margin grows with what is used up from one look to the next
        let used = last.saturating_sub(free);
        last = free;
        if used > margin {
            let threads = left as u64 + 1;
            margin = (used / threads + 1) * threads;
            cover("margin grows");
        }
        let mut dead = 0;
        while free < margin && left > 0 {
            margin = margin / (left as u64 + 1) * left as u64;
            left -= 1;
            dead += 1;
        }
        check(after.iter().filter(|x| **x).count() == left, "number of workers stopped for lack of memory");
        check(before.iter().zip(&after).all(|(b, a)| *b || !*a), "a stopped worker goes on");
        for k in 0..n {
            if before[k] && !after[k] {
                // no other one is younger
                check((0..n).all(|j| !after[j] || elapsed[j] >= elapsed[k]), "an older job is stopped first");
            }
        }
        check(got == if left == 0 { MonitorStatus::KilledEveryone } else { MonitorStatus::Running }, "status");
        if dead > 0 && left > 0 {
            cover("some");
        }
        if left == 0 {
            cover("everyone");
            return;
        }
        if dead == 0 {
            cover("nobody");
        }
    }
}
/// What workers tell about their jobs
fn client() {
    let monitor = Monitor::new(2);
    let server = monitor.server();
    let mut clients: Vec<_> = monitor.clients().collect();
    let mut want = [0usize; 2];
    let mut stopped = [false; 2];
    for _ in 0..5 {
        let k = choice(2) as usize;
        match choice(3) {
            0 => {
                let r = clients[k].keep_job();
                check(r.is_err() == stopped[k], "request to stop, while working");
                want[k] += r.is_ok() as usize;
            }
            1 => {
                let r = clients[k].switch_job();
                check(r.is_err() == stopped[k], "request to stop, before work");
                if r.is_ok() {
                    want[k] = 0;
                }
            }
            _ => {
                if !stopped[k] {
                    monitor.stop.server().stop(k);
                    stopped[k] = true;
                    cover("stop");
                }
            }
        }
        for k in 0..2 {
            check(monitor.elapsed[k].load(Ordering::Relaxed) == want[k], "age of a job");
            check(clients[k].must_stop() == stopped[k], "request to stop");
        }
    }
    std::mem::forget(server);
}

/// A job that takes long
fn client_long(n: usize) {
    let monitor = Monitor::new(1);
    let mut client = monitor.clients().next().unwrap();
    for _ in 0..2 {
        for k in 1..=n {
            check(client.keep_job().is_ok(), "request to stop from nowhere");
            check(monitor.elapsed[0].load(Ordering::Relaxed) == k, "age of a long job");
        }
        check(client.switch_job().is_ok() && monitor.elapsed[0].load(Ordering::Relaxed) == 0, "age of a new job");
    }
    cover("long");
}

// -------------------------------------------------------------------- polling

fn clock(polls: usize, unit: u64) {
    let start_ms = [1, 7, 50, 1000][choice(4) as usize];
    let which = choice(polls as u32) as usize;
    PollClock::set_polling_interval(Duration::from_millis(start_ms));
    let mut clock = PollClock::start();
    let mut due = os::now();
    let mut interval = start_ms * 1_000_000;
    for k in 0..polls {
        // something takes its time
        let late = if k == which { symrt::u8() as u64 } else { [0, 60, 255][choice(3) as usize] };
        os::elapse(late * unit);
        let delay = clock.poll_delay().as_nanos() as u64;
        let next = PollClock::polling_interval().as_nanos() as u64;
        if due + interval >= os::now() {
            check(next == interval, "the interval changes although polls are in time");
            check(os::now() + delay == due + interval, "polls are not evenly spaced");
            due += interval;
            cover("in time");
        } else {
            let took = os::now() - due;
            check(next >= took && next <= took + took / 8 + 2_000_000, "interval after a late poll");
            check(os::now() + delay == due + next, "delay after a late poll");
            due += next;
            interval = next;
            cover("late");
        }
        os::elapse(delay);
    }
}

// ------------------------------------------------------------------ processes

/// Every process of the system, over time
static mut SYSTEM: Vec<Vec<Listed>> = Vec::new();
/// How many times the system was looked at
static mut LOOKS: usize = 0;
static mut LOOKED: Option<usize> = None;
static mut KILLED: Vec<u32> = Vec::new();
static mut MONITOR: Option<&'static Monitor> = None;
static mut KILL_AT: usize = usize::MAX;
static mut TICKS: usize = 0;
fn listed() -> Vec<Listed> {
    unsafe {
        LOOKED = Some(LOOKS);
        SYSTEM.get(LOOKS).cloned().unwrap_or_default()
    }
}
fn killed(pid: u32) {
    unsafe { KILLED.push(pid) }
    os::end(pid);
}
/// The main thread looks at the system, then the worker wakes up
fn tick(_: u32) {
    unsafe {
        TICKS += 1;
        LOOKS = TICKS;
        if TICKS == KILL_AT {
            // processes came and went since
            MONITOR.unwrap().stop.server().stop_all();
        } else {
            let mut system = MONITOR.unwrap().system.write().unwrap();
            system.refresh_specifics(Monitor::refresh_kind());
        }
    }
}
/// Is there a way up from a process to the root, and by what kinds?
fn descends(all: &[Listed], mut k: usize, root: u32) -> bool {
    for _ in 0..=all.len() {
        if all[k].thread {
            return false;
        }
        if all[k].pid == root {
            return true;
        }
        if all[k].parent == Some(root) {
            // whether it is still there or not
            return true;
        }
        match all[k].parent.and_then(|p| all.iter().position(|q| q.pid == p)) {
            Some(p) => k = p,
            None => return false,
        }
    }
    false
}
/// Some processes, children of each other
fn forest(n: usize, symbolic: bool) -> Vec<Listed> {
    const PIDS: [u32; 5] = [os::FIRST_PID, 7, 1000, 103, 50];
    let mut all: Vec<Listed> = vec![];
    for k in 0..n {
        let parent = if k == 0 {
            Some(1)
        } else {
            // an earlier one, or one that is not there
            let c = choice(k as u32 + 2) as usize;
            if c < k {
                Some(PIDS[c])
            } else if c == k {
                Some(1)
            } else {
                None
            }
        };
        let thread = k > 0 && choice(2) == 1;
        let memory = if symbolic { symrt::u32() as u64 } else { 1 << (8 * k) };
        all.push(Listed { pid: PIDS[k], parent, memory, thread });
    }
    all
}
fn spawn(_: &mut Proc) -> Result<(), i32> {
    Ok(())
}
fn two(p: &mut Proc) -> Result<(), i32> {
    p.polls = 2;
    Ok(())
}
/// A worker without others
fn work(jobs: Vec<DatabaseEntry>, time: bool) -> Vec<Result<UnitProfile, JobError>> {
    sys::file_at("/dev/null", b"");
    os::schedule(0, 0, 0, 0);
    os::helpers(0);
    let monitor: &'static Monitor = Box::leak(Box::new(Monitor::new(1)));
    unsafe { MONITOR = Some(monitor) }
    let mut queue = WorkQueue::new(jobs);
    let local = queue.local_queues(1).next().unwrap();
    let (send, receive) = mpsc::channel();
    let client = monitor.clients().next().unwrap();
    let mut sender = queue.sender();
    sender.start();
    drop(sender);
    worker::run(WorkReceiver::new(local, &queue), send, client, time);
    receive.try_iter().collect()
}
fn job(command: &str, file: &str) -> DatabaseEntry {
    DatabaseEntry::new(Path::new("/d"), command, Path::new(file), None)
}
/// Peak memory of a process and its descendants
fn peak(n: usize, polls: usize) {
    unsafe {
        os::WORLD.spawn = two;
        os::WORLD.processes = listed;
        os::TICK = Some(tick);
        SYSTEM.push(vec![]);
        for p in 0..polls {
            SYSTEM.push(forest(n, true));
            if p == 1 && choice(2) == 1 {
                // the process itself is not there (any more)
                SYSTEM[2].remove(0);
                cover("gone");
            }
        }
    }
    let got = work(vec![job("cc f.c", "/build/x/f.c")], false);
    let mut want = 0;
    for s in unsafe { &SYSTEM } {
        let mut m = 0;
        for k in 0..s.len() {
            if descends(s, k, os::FIRST_PID) {
                m += s[k].memory;
            } else {
                cover("elsewhere");
            }
        }
        want = want.max(m);
    }
    check(got.len() == 1, "number of results");
    match &got[0] {
        Ok(u) => {
            check(u.max_rss_bytes() == want, "peak memory");
            check(u.rel_path() == Path::new("x/f.c"), "path of the unit");
            check(u.wall_time().is_none(), "time that nobody asked for");
            log(&u.max_rss_bytes().to_le_bytes());
            cover("measured");
        }
        Err(_) => check(false, "job fails for no reason"),
    }
}
/// Every process of a job gets killed, and no other one
fn kill(n: usize) {
    unsafe {
        os::WORLD.spawn = two;
        os::WORLD.processes = listed;
        os::WORLD.kill = killed;
        os::TICK = Some(tick);
        // what the main thread saw last may be nothing, or the same
        let seen = choice(2) as usize;
        let now = forest(n, false);
        KILL_AT = 1 + seen;
        SYSTEM.push(vec![]);
        if seen == 1 {
            SYSTEM.push(now[..1 + choice(n as u32) as usize].to_vec());
            cover("seen");
        }
        SYSTEM.push(now.clone());
        let got = work(vec![job("cc f.c", "f.c"), job("cc g.c", "g.c")], false);
        check(got.len() == 1, "number of results");
        match &got[0] {
            Err(JobError::Killed(j)) => check(j.input() == Path::new("f.c"), "which job was killed"),
            _ => check(false, "result of a killed job"),
        }
        for k in 0..n {
            let dead = KILLED.contains(&now[k].pid);
            if descends(&now, k, os::FIRST_PID) {
                check(dead, "a process survives");
            } else if !now[k].thread {
                check(!dead, "a process that has nothing to do with it is killed");
                cover("spared");
            }
        }
        check(os::PROCS.len() == 1, "the worker goes on");
    }
}
/// Command, outcome and output of a single process
static mut STATUS: i32 = 0;
static mut POLLS: u32 = 0;
static mut OUTPUT: [Vec<u8>; 2] = [Vec::new(), Vec::new()];
static mut ERRNO: i32 = 0;
fn scripted(p: &mut Proc) -> Result<(), i32> {
    unsafe {
        if ERRNO != 0 {
            return Err(ERRNO);
        }
        p.polls = POLLS;
        p.status = STATUS;
        p.out = OUTPUT[0].clone();
        p.err = OUTPUT[1].clone();
    }
    Ok(())
}
fn outcome() {
    // an exit code, or a signal with or without core dump
    let status = if choice(2) == 0 { (symrt::u8() as i32) << 8 } else { symrt::u8() as i32 };
    assume(status & 0x7f != 0x7f);
    let kind = choice(3);
    let cmd = match kind {
        0 => "cc -c 'a b' f.c",
        1 => "cc",
        _ => "  ",
    };
    unsafe {
        os::WORLD.spawn = scripted;
        STATUS = status;
        POLLS = choice(3);
        ERRNO = if choice(4) == 0 { 2 } else { 0 };
        let texts: [&[u8]; 3] = [b"", b"w", b"\xe9 warning\n"];
        OUTPUT = [texts[choice(3) as usize].to_vec(), texts[choice(3) as usize].to_vec()];
        os::PIPE_CAPACITY = 4;
    }
    let time = choice(2) == 1;
    let start = os::now();
    let got = work(vec![job(cmd, "/build/f.c")], time);
    check(got.len() == 1, "number of results");
    let procs = unsafe { &os::PROCS };
    if kind == 2 {
        check(matches!(got[0], Err(JobError::NoProgram)) && procs.is_empty(), "command without a program");
        cover("no program");
        return;
    }
    if unsafe { ERRNO } != 0 {
        match &got[0] {
            Err(JobError::SpawnFailed(e)) => check(e.kind() == std::io::ErrorKind::NotFound, "error of a process that cannot be started"),
            _ => check(false, "process that cannot be started"),
        }
        cover("not started");
        return;
    }
    check(procs.len() == 1, "number of processes");
    let want: &[&str] = if kind == 0 { &["cc", "-c", "a b", "f.c"] } else { &["cc"] };
    check(procs[0].argv == want, "command that is run");
    check(procs[0].cwd == "/d", "directory of the command");
    check(procs[0].reaped, "left behind");
    match &got[0] {
        Ok(u) => {
            check(status == 0, "a failure is taken for success");
            // single precision
            match u.wall_time() {
                Some(Ok(t)) => check(time && t.abs_diff(Duration::from_nanos(os::now() - start)) < Duration::from_micros(1), "time"),
                other => check(!time && other.is_none(), "time or not"),
            }
            check(u.rel_path() == Path::new("f.c"), "path of the unit");
            cover("success");
        }
        Err(JobError::JobFailed) => {
            check(status != 0, "a success is taken for failure");
            cover("failure");
        }
        _ => check(false, "outcome"),
    }
}

// ----------------------------------------------------------- whole measurements

static mut RUNS: usize = 0;
static mut STEPS: usize = 0;
static mut RESULT: Option<Result<(), MeasureError>> = None;
/// Which runs of processes fail, if any
static mut FAIL: usize = usize::MAX;
/// Number of processes that may run at the same time
static mut WORKERS: usize = 0;
/// Largest number of them
static mut MOST: usize = 0;
/// How often one looks at a process that goes on
static mut POLLS_OF: [Option<u32>; 4] = [None; 4];
/// Are exit statuses anything?
static mut ANY_STATUS: bool = false;
static mut STATUSES: Vec<i32> = Vec::new();
/// When the first failed process ended
static mut FAILED_AT: Option<u64> = None;
fn started(p: &mut Proc) -> Result<(), i32> {
    unsafe {
        p.polls = POLLS_OF.get(RUNS).copied().flatten().unwrap_or(POLLS);
        p.status = if RUNS == FAIL { 256 } else { 0 };
        if ANY_STATUS {
            p.status = (symrt::u8() as i32) << 8;
            STATUSES.push(p.status);
        }
        let n = os::running().len() + 1;
        MOST = MOST.max(n);
        check(n <= WORKERS, "more processes than workers");
        RUNS += 1;
    }
    Ok(())
}
/// When memory is short
static mut SHORT: [usize; 2] = [usize::MAX; 2];
static mut QUERIES: usize = 0;
fn short() -> u64 {
    unsafe {
        let low = SHORT.contains(&QUERIES);
        QUERIES += 1;
        // enough for one, but not for two workers
        if low {
            2 * MARGIN
        } else {
            20 * MARGIN
        }
    }
}
/// Any amount of memory
fn any_memory() -> u64 {
    unsafe { QUERIES += 1 };
    symrt::u8() as u64 * (MARGIN / 40)
}
/// Enough memory, of which not too much is used at a time
fn enough_memory() -> u64 {
    unsafe { QUERIES += 1 };
    let m = symrt::u64();
    assume(m >= 3 * MARGIN && m <= 6 * MARGIN);
    m
}
static mut AVAIL: fn() -> u64 = short;
/// Time is measured
static mut DEFAULT_IS_ONE: bool = false;
/// Processes that run, and how large they are
fn sized() -> Vec<Listed> {
    let pids = os::running();
    for pid in &pids {
        os::proc(*pid).unwrap().listed = true;
    }
    pids.into_iter().map(|pid| Listed { pid, parent: Some(1), memory: size(pid), thread: false }).collect()
}
fn size(pid: u32) -> u64 {
    (pid as u64 + 7) << 20
}
struct Plan {
    jobs: usize,
    workers: usize,
    kill: Option<usize>,
    preempt: u32,
    early: u32,
    spurious: u32,
    retry: u32,
}
fn whole(p: Plan) {
    sys::file_at("/dev/null", b"");
    unsafe {
        WORKERS = if p.workers == 0 { 4 } else { p.workers };
        if DEFAULT_IS_ONE {
            WORKERS = 1;
        }
        os::WORLD.spawn = started;
        os::WORLD.available = AVAIL;
        os::WORLD.processes = sized;
        os::TICK = Some(|pid| {
            let p = os::proc(pid).unwrap();
            p.seen |= p.listed;
        });
        os::schedule(p.preempt, p.early, p.spurious, p.retry);
    }
    let names = ["/build/a.c", "/build/b.c", "/build/c.c", "/build/d.c", "/build/e.c"];
    let db = CompilationDatabase::from_entries(names[..p.jobs].iter().map(|n| job(&format!("cc {n}"), n)));
    let path = PathBuf::from(unsafe { CSV });
    let (send, receive) = mpsc::channel();
    let send2 = send.clone();
    let m = Measurement::start(
        path,
        &db,
        unsafe { DEFAULT_IS_ONE },
        NonZeroUsize::new(p.workers),
        move || {
            unsafe { STEPS += 1 };
            let _ = send2.send(());
        },
        move |r| {
            unsafe { RESULT = Some(r) };
            drop(send);
        },
    );
    match p.kill {
        // after so many units
        Some(n) => {
            for _ in 0..n {
                let _ = receive.recv();
            }
        }
        None => while receive.recv().is_ok() {},
    }
    // nothing runs between these two
    let before = unsafe { STEPS };
    drop(m);
    if p.kill.is_some() {
        // all but what was about to be looked at
        check(unsafe { STEPS } <= before + 1, "the measurement goes on although it is to stop");
    }
    let result = unsafe { RESULT.take() };
    // the result has been told, and scoped threads may still wind up
    os::settle();
    let time = os::now();
    check(os::running().is_empty(), "processes are left");
    let steps = unsafe { STEPS };
    let text = String::from_utf8(sys::contents("/verif-files/out.csv").unwrap_or_default()).unwrap();
    let units: Vec<&str> = text.lines().skip(1).map(|l| l.split(',').next().unwrap()).collect();
    let procs = unsafe { &os::PROCS };
    let lines: Vec<&str> = text.lines().skip(1).collect();
    for (k, u) in units.iter().enumerate() {
        check(!units[..k].contains(u), "a unit comes twice");
        check(names[..p.jobs].iter().any(|n| n[7..] == **u), "unit that nobody asked for");
        check(procs.iter().filter(|q| q.argv[1][7..] == **u && q.reaped && !q.killed).count() == 1, "a unit was not run once");
        let at = procs.iter().position(|q| q.argv[1][7..] == **u && !q.killed).unwrap();
        let want = size(os::FIRST_PID + at as u32).to_string();
        let got = lines[k].split(',').nth(1).unwrap();
        // if it ends soon, nobody may have looked
        check(got == want || (got == "0" && !procs[at].seen), "peak memory in the table");
        if got == want {
            cover("peak memory");
        }
    }
    if unsafe { AVAIL == enough_memory as fn() -> u64 } {
        check(unsafe { RUNS } == p.jobs, "a process is killed although there is enough memory");
    }
    for n in &names[..p.jobs] {
        let all = procs.iter().filter(|q| q.argv[1] == *n).count();
        let ok = procs.iter().filter(|q| q.argv[1] == *n && q.reaped && !q.killed).count();
        check(ok <= 1, "a unit is compiled again");
        if all > ok {
            cover("again");
        }
    }
    match result {
        None => check(false, "end of a measurement that is never told"),
        Some(Ok(())) => {
            check(units.len() == p.jobs, "units are missing");
            check(steps == p.jobs, "number of steps");
            check(unsafe { RUNS <= FAIL }, "a failure is not told");
            check(unsafe { STATUSES.iter().all(|s| *s == 0) }, "a failure is not told");
            check(p.jobs == 0 || text.lines().next() == Some("file,max_rss,time"), "head of the table");
            check(p.jobs == 0 || text.ends_with('\n'), "table is not complete");
            let all = p.jobs.min(unsafe { WORKERS });
            if unsafe { MOST } == all {
                cover("as many at a time as there can be");
            } else {
                let calm = p.preempt + p.early + p.retry == 0 && unsafe { POLLS > 0 && QUERIES > 0 && AVAIL != any_memory as fn() -> u64 && SHORT[0] == usize::MAX };
                check(!calm, "a worker stays idle although there is work");
            }
            cover("complete");
        }
        Some(Err(MeasureError::Killed)) => {
            check(p.kill.is_some(), "killed by nobody");
            check(steps >= p.kill.unwrap_or(0), "killed too early");
            cover("killed");
        }
        Some(Err(MeasureError::OutOfMemory)) => {
            check(unsafe { SHORT[0] < QUERIES || AVAIL == any_memory as fn() -> u64 }, "out of memory that is there");
            cover("out of memory");
        }
        Some(Err(MeasureError::Job(JobError::JobFailed))) => {
            check(unsafe { RUNS > FAIL || STATUSES.iter().any(|s| *s != 0) }, "failure of nothing");
            cover("failed");
        }
        Some(Err(MeasureError::Io(_))) => {
            check(unsafe { CSV } != CSV_PATH && procs.is_empty(), "error of the table");
            cover("no table");
        }
        Some(Err(_)) => check(false, "error"),
    }
    if unsafe { POLLS_OF[0] } == Some(NEVER) {
        // nobody waits for the process that goes on for ever
        check(time < 400_000_000, "end of a measurement that comes late");
    }
}
const NEVER: u32 = 1000;
const CSV_PATH: &str = "/verif-files/out.csv";
static mut CSV: &str = CSV_PATH;
const PLAIN: Plan = Plan { jobs: 1, workers: 1, kill: None, preempt: 0, early: 0, spurious: 0, retry: 0 };

harnesses! {
    fn h_flags_left_1() { flags_left(1) }
    fn h_flags_left_3() { flags_left(3) }
    fn h_flags_left_64() { flags_left(64) }
    fn h_flags_left_65() { flags_left(65) }
    fn h_flags_left_130() { flags_left(130) }
    fn h_flags_first_2() { flags_first(2, false) }
    fn h_flags_first_63() { flags_first(63, false) }
    fn h_flags_first_64() { flags_first(64, false) }
    fn h_flags_first_65() { flags_first(65, false) }
    fn h_flags_first_130() { flags_first(130, false) }
    fn h_flags_all_63() { flags_first(63, true) }
    fn h_flags_all_65() { flags_first(65, true) }
    fn h_oom_1() { oom(1, 2, 1 << 40) }
    fn h_oom_2() { oom(2, 2, 1 << 40) }
    fn h_oom_3() { oom(3, 1, 1 << 40) }
    fn h_oom_32() { oom(3, 2, 1 << 32) }
    fn h_oom_4() { oom(4, 1, 1 << 32) }
    fn h_client() { client() }
    fn h_client_long() { client_long(70_000) }
    fn h_clock_1() { clock(1, 125_000) }
    fn h_clock_2() { clock(2, 1_700_000) }
    fn h_clock_3() { clock(3, 90_000_000) }
    fn h_peak_2() { peak(2, 2) }
    fn h_peak_3() { peak(3, 2) }
    fn h_peak_4() { peak(4, 1) }
    fn h_kill_2() { kill(2) }
    fn h_kill_3() { kill(3) }
    fn h_kill_4() { kill(4) }
    fn h_outcome() { outcome() }
    fn h_whole_1() { whole(PLAIN) }
    fn h_whole_2() { whole(Plan { jobs: 2, workers: 2, preempt: 1, ..PLAIN }) }
    fn h_whole_22() { whole(Plan { jobs: 2, workers: 2, preempt: 2, ..PLAIN }) }
    fn h_whole_3() { whole(Plan { jobs: 3, workers: 2, preempt: 1, ..PLAIN }) }
    fn h_whole_kill_0() { whole(Plan { jobs: 2, workers: 2, preempt: 1, kill: Some(0), ..PLAIN }) }
    fn h_whole_kill_1() { whole(Plan { jobs: 2, workers: 2, preempt: 1, kill: Some(1), ..PLAIN }) }
    fn h_whole_kill_many() { slow(choice(2)); whole(Plan { jobs: 5, workers: 1 + choice(2) as usize, kill: Some(choice(3) as usize), ..PLAIN }) }
    fn h_whole_kill_slow() { slow(1); whole(Plan { jobs: 2, workers: 1, kill: Some(choice(2) as usize), ..PLAIN }) }
    fn h_whole_slow() { slow(1); whole(Plan { jobs: 2, workers: 2, preempt: 1, ..PLAIN }) }
    fn h_whole_fail() { fails(2); whole(Plan { jobs: 2, workers: 2, preempt: 1, ..PLAIN }) }
    fn h_whole_fail_slow() { slow(1); fails(3); whole(Plan { jobs: 3, workers: 1, ..PLAIN }) }
    fn h_whole_spurious() { whole(Plan { jobs: 2, workers: 2, spurious: 1, early: 1, retry: 1, ..PLAIN }) }
    fn h_whole_none() { whole(Plan { jobs: 0, workers: 2, preempt: 1, ..PLAIN }) }
    fn h_whole_extra() { whole(Plan { jobs: 1, workers: 3, preempt: 1, ..PLAIN }) }
    fn h_whole_no_table() { unsafe { CSV = "/not/there.csv" }; whole(Plan { jobs: 2, workers: 2, preempt: 1, ..PLAIN }) }
    fn h_whole_5() { slow(choice(2)); whole(Plan { jobs: 5, workers: 3, ..PLAIN }) }
    fn h_whole_status_1() { unsafe { ANY_STATUS = true }; whole(Plan { jobs: 2, workers: 1, ..PLAIN }) }
    fn h_whole_status_2() { unsafe { ANY_STATUS = true }; slow(choice(2)); whole(Plan { jobs: 3, workers: 2, ..PLAIN }) }
    fn h_whole_default() { slow(1); whole(Plan { jobs: 5, workers: 0, ..PLAIN }) }
    fn h_whole_default_time() { slow(1); unsafe { DEFAULT_IS_ONE = true }; whole(Plan { jobs: 2, workers: 0, ..PLAIN }) }
    fn h_whole_never_fail() { unsafe { POLLS_OF[0] = Some(NEVER); FAIL = 1 }; slow(choice(3)); whole(Plan { jobs: 3, workers: 2, preempt: 1, ..PLAIN }) }
    fn h_whole_never_kill() { unsafe { POLLS_OF[0] = Some(NEVER) }; slow(choice(3)); whole(Plan { jobs: 3, workers: 2, kill: Some(choice(3) as usize), ..PLAIN }) }
    fn h_whole_memory() { slow(2); unsafe { AVAIL = any_memory }; whole(Plan { jobs: 2, workers: 2, ..PLAIN }) }
    fn h_whole_memory_3() { slow(1); unsafe { AVAIL = any_memory }; whole(Plan { jobs: 3, workers: 2, ..PLAIN }) }
    fn h_whole_enough() { slow(2); unsafe { AVAIL = enough_memory }; whole(Plan { jobs: 2, workers: 2, ..PLAIN }) }
    fn h_whole_oom() { slow(2); unsafe { SHORT = [2 + choice(2) as usize, usize::MAX] }; whole(Plan { jobs: 2, workers: 2, ..PLAIN }) }
    fn h_whole_oom_all() { slow(3); unsafe { SHORT = [2, 3] }; whole(Plan { jobs: 2, workers: 2, ..PLAIN }) }
}
fn slow(polls: u32) {
    unsafe { POLLS = polls }
}
fn fails(runs: u32) {
    unsafe { FAIL = choice(runs) as usize }
}
