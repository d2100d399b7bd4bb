//! Stand-ins for file metadata, the clock, processes and threads, used in the
//! symbolic and in the native build alike.
#![allow(static_mut_refs)]

#[cfg(not(feature = "native"))]
mod no {
    static mut ERRNO: i32 = 0;
    #[no_mangle]
    pub unsafe extern "C" fn __errno_location() -> *mut i32 {
        &raw mut ERRNO
    }
}
#[cfg(not(feature = "native"))]
use no::__errno_location;
#[cfg(feature = "native")]
extern "C" {
    fn __errno_location() -> *mut i32;
}
pub(crate) unsafe fn errno(e: i32) {
    *__errno_location() = e
}
const ENOENT: i32 = 2;
const EACCES: i32 = 13;
const EFAULT: i32 = 14;

/// Metadata of files: path, (seconds, nanoseconds) or no permission to tell
static mut TIMES: Vec<(String, Option<(i64, u32)>)> = Vec::new();
/// Give a file a modification time; other files do not exist
pub fn file_time(path: &str, time: Option<(i64, u32)>) {
    unsafe {
        TIMES.retain(|f| f.0 != path);
        TIMES.push((path.to_string(), time));
    }
}
unsafe fn cstr<'a>(p: *const u8) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p, n)
}
#[no_mangle]
pub unsafe extern "C" fn statx(_dir: i32, path: *const u8, _flags: i32, mask: u32, buf: *mut u8) -> i32 {
    if path.is_null() || buf.is_null() {
        errno(EFAULT);
        return -1;
    }
    let path = cstr(path);
    match TIMES.iter().find(|f| f.0.as_bytes() == path) {
        None => errno(ENOENT),
        Some((_, None)) => errno(EACCES),
        Some((_, Some((s, ns)))) => {
            std::ptr::write_bytes(buf, 0, 256);
            (buf as *mut u32).write_unaligned(mask);
            (buf.add(28) as *mut u16).write_unaligned(0o100644);
            (buf.add(112) as *mut i64).write_unaligned(*s);
            (buf.add(120) as *mut u32).write_unaligned(*ns);
            return 0;
        }
    }
    -1
}
#[no_mangle]
pub unsafe extern "C" fn realpath(_: *const u8, _: *mut u8) -> *mut u8 {
    errno(ENOENT);
    std::ptr::null_mut()
}
/// Current directory
pub const CWD: &str = "/build";
#[no_mangle]
pub unsafe extern "C" fn getcwd(p: *mut u8, n: usize) -> *mut u8 {
    assert!(n > CWD.len());
    std::ptr::copy_nonoverlapping(CWD.as_ptr(), p, CWD.len());
    *p.add(CWD.len()) = 0;
    p
}

/// Time of day and time since boot
static mut CLOCK: [(i64, i64); 2] = [(1_700_000_000, 0), (1000, 0)];
/// Virtual time that has gone by since the scheduler started, in nanoseconds
static mut NOW: u64 = 0;
pub fn clock(realtime: bool, secs: i64, nanos: i64) {
    unsafe { CLOCK[!realtime as usize] = (secs, nanos) }
}
/// Let time go by
pub fn elapse(nanos: u64) {
    unsafe { NOW += nanos }
}
pub fn now() -> u64 {
    unsafe { NOW }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut i64) -> i32 {
    let (mut s, mut n) = CLOCK[(id != 0) as usize];
    if id != 0 {
        n += (NOW % 1_000_000_000) as i64;
        s += (NOW / 1_000_000_000) as i64 + n / 1_000_000_000;
        n %= 1_000_000_000;
    }
    *ts = s;
    *ts.add(1) = n;
    0
}
/// Deadline given in terms of clock_gettime, in terms of NOW
unsafe fn deadline(ts: *const i64) -> u64 {
    let (s, n) = CLOCK[1];
    (((*ts - s) * 1_000_000_000) + (*ts.add(1) - n)).max(0) as u64
}

// ------------------------------------------------------------------ threads

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Run,
    Futex(usize),
    Join(usize),
    /// Reading the output of a process that has not ended
    Pipe(usize),
    Timer,
    Done,
}
struct T {
    s: S,
    deadline: Option<u64>,
    timed_out: bool,
    /// Helpers, threads started by threads other than the first two, go on as
    /// soon as they can and are never interrupted
    helper: bool,
}
/// Who was current before a helper took over
static mut INTERRUPTED: usize = 0;
static mut HELPERS: usize = 2;
/// Threads started by this thread or later ones are helpers
pub fn helpers(from: usize) {
    unsafe { HELPERS = from }
}
static mut THREADS: Vec<T> = Vec::new();
static mut CUR: usize = 0;
/// How often a thread that could go on is suspended
static mut PREEMPT: u32 = 0;
/// How often time passes although some thread could go on
static mut EARLY: u32 = 0;
/// How often a thread waiting for a futex wakes up for no reason
static mut SPURIOUS: u32 = 0;
/// How often stealing from a queue has to be retried for no reason
pub static mut RETRY: u32 = 0;

/// From here on threads are scheduled in every possible way within these bounds
pub fn schedule(preempt: u32, early: u32, spurious: u32, retry: u32) {
    unsafe {
        THREADS = vec![T { s: S::Run, deadline: None, timed_out: false, helper: false }];
        CUR = 0;
        #[cfg(feature = "native")]
        native::give(0);
        PREEMPT = preempt;
        EARLY = early;
        SPURIOUS = spurious;
        RETRY = retry;
    }
}

#[cfg(not(feature = "native"))]
mod co {
    extern "C" {
        fn __sym_co_new(f: extern "C" fn(*mut [usize; 2]), arg: *mut [usize; 2]) -> u32;
        fn __sym_co_switch(t: u32);
    }
    pub unsafe fn spawn(start: usize, arg: usize) -> usize {
        __sym_co_new(body, Box::into_raw(Box::new([start, arg]))) as usize
    }
    extern "C" fn body(a: *mut [usize; 2]) {
        unsafe {
            let f: extern "C" fn(usize) -> usize = std::mem::transmute((*a)[0]);
            f((*a)[1]);
            super::finish();
            __sym_co_switch(0);
        }
    }
    pub unsafe fn switch(t: usize) {
        __sym_co_switch(t as u32)
    }
}
#[cfg(feature = "native")]
mod native {
    //! The same schedule, with real threads of which only one may run
    use std::sync::atomic::{AtomicUsize, Ordering::*};
    static TURN: AtomicUsize = AtomicUsize::new(0);
    pub unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
        let r: isize;
        std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
            lateout("rcx") _, lateout("r11") _);
        r
    }
    pub fn give(t: usize) {
        TURN.store(t, SeqCst)
    }
    pub fn wait(t: usize) {
        while TURN.load(SeqCst) != t {
            // sched_yield
            unsafe { raw(24, 0, 0, 0, 0, 0, 0) };
        }
    }
    pub unsafe fn spawn(start: usize, arg: usize) -> usize {
        extern "C" {
            fn dlsym(h: usize, n: *const u8) -> usize;
        }
        extern "C" fn body(a: *mut [usize; 3]) -> usize {
            unsafe {
                let a = *Box::from_raw(a);
                wait(a[2]);
                let f: extern "C" fn(usize) -> usize = std::mem::transmute(a[0]);
                f(a[1]);
                super::finish();
            }
            0
        }
        let id = super::THREADS.len();
        // RTLD_NEXT
        let create: extern "C" fn(*mut usize, usize, extern "C" fn(*mut [usize; 3]) -> usize, *mut [usize; 3]) -> i32 =
            std::mem::transmute(dlsym(usize::MAX, c"pthread_create".as_ptr() as *const u8));
        let mut h = 0;
        assert_eq!(create(&mut h, 0, body, Box::into_raw(Box::new([start, arg, id]))), 0);
        id
    }
    pub unsafe fn switch(t: usize) {
        let me = super::ME.get();
        give(t);
        wait(me);
    }
}
#[cfg(feature = "native")]
use native as co;
#[cfg(feature = "native")]
thread_local! { static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(0) } }

/// Is there more than one thread?
fn active() -> bool {
    unsafe { THREADS.len() > 1 }
}
unsafe fn go(t: usize) {
    if t != CUR {
        #[cfg(feature = "native")]
        ME.set(CUR);
        CUR = t;
        co::switch(t);
    }
}
/// Another thread may take over here
pub fn point() {
    unsafe {
        if !active() || PREEMPT == 0 || THREADS[CUR].helper {
            return;
        }
        let mut other: [usize; 16] = [0; 16];
        let mut n = 1;
        for (i, t) in THREADS.iter().enumerate() {
            if i != CUR && t.s == S::Run && !t.helper {
                other[n] = i;
                n += 1;
            }
        }
        if n == 1 {
            return;
        }
        let c = crate::choice(n as u32) as usize;
        if c != 0 {
            PREEMPT -= 1;
            go(other[c]);
        }
    }
}
/// The current thread cannot go on: which one does?
unsafe fn suspend() {
    let c = pick();
    if c == CUR {
        return;
    }
    go(c);
}
unsafe fn pick() -> usize {
    if let Some(i) = THREADS.iter().position(|t| t.helper && t.s == S::Run) {
        if !THREADS[CUR].helper {
            INTERRUPTED = CUR;
        }
        return i;
    }
    if THREADS[CUR].helper && THREADS[INTERRUPTED].s == S::Run {
        return INTERRUPTED;
    }
    // what can happen: a thread goes on, a timer fires, a thread wakes up spuriously
    let mut what: [(u8, usize); 32] = [(0, 0); 32];
    let mut n = 0;
    for (i, t) in THREADS.iter().enumerate() {
        if t.s == S::Run {
            what[n] = (0, i);
            n += 1;
        }
    }
    let stuck = n == 0;
    let first = THREADS.iter().filter(|t| t.s != S::Done && t.s != S::Run).filter_map(|t| t.deadline).min();
    if let (Some(first), true) = (first, stuck || EARLY > 0) {
        for (i, t) in THREADS.iter().enumerate() {
            if t.s != S::Done && t.s != S::Run && t.deadline == Some(first) {
                what[n] = (1, i);
                n += 1;
            }
        }
    }
    if SPURIOUS > 0 {
        for (i, t) in THREADS.iter().enumerate() {
            if let S::Futex(_) = t.s {
                what[n] = (2, i);
                n += 1;
            }
        }
    }
    if n == 0 {
        // nobody waits for a process but those who read its output
        for (i, t) in THREADS.iter().enumerate() {
            if let S::Pipe(_) = t.s {
                what[n] = (3, i);
                n += 1;
            }
        }
    }
    crate::check(n != 0, "all threads wait for each other");
    let c = if n == 1 { 0 } else { crate::choice(n as u32) as usize };
    let (kind, i) = what[c];
    let t = &mut THREADS[i];
    match kind {
        0 => {}
        1 => {
            if !stuck {
                EARLY -= 1;
            }
            NOW = NOW.max(t.deadline.unwrap());
            t.s = S::Run;
            t.timed_out = true;
        }
        3 => {
            if let S::Pipe(p) = t.s {
                ends(p);
            }
        }
        _ => {
            SPURIOUS -= 1;
            t.s = S::Run;
        }
    }
    i
}
/// Wait; true if it was the time limit that ended the wait
unsafe fn block(s: S, deadline: Option<u64>) -> bool {
    let t = &mut THREADS[CUR];
    t.s = s;
    t.deadline = deadline;
    t.timed_out = false;
    let me = CUR;
    suspend();
    assert_eq!(me, CUR);
    let t = &mut THREADS[me];
    t.deadline = None;
    t.timed_out
}
/// The current thread ends
unsafe fn finish() {
    let me = CUR;
    THREADS[me].s = S::Done;
    for t in THREADS.iter_mut() {
        if t.s == S::Join(me) {
            t.s = S::Run;
        }
    }
    let c = pick();
    CUR = c;
    #[cfg(feature = "native")]
    native::give(c);
    #[cfg(not(feature = "native"))]
    co::switch(c);
}
/// How many threads are there that have not ended?
pub fn alive() -> usize {
    unsafe { THREADS.iter().filter(|t| t.s != S::Done).count() }
}

/// Wait until all other threads have ended, whether joined or not
pub fn settle() {
    unsafe {
        let mut i = 0;
        while i < THREADS.len() {
            if i != CUR && THREADS[i].s != S::Done {
                block(S::Join(i), None);
            } else {
                i += 1;
            }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(h: *mut usize, _attr: usize, start: usize, arg: usize) -> i32 {
    assert!(!THREADS.is_empty(), "no scheduler");
    let id = co::spawn(start, arg);
    assert_eq!(id, THREADS.len());
    let helper = CUR >= HELPERS;
    THREADS.push(T { s: S::Run, deadline: None, timed_out: false, helper });
    *h = id;
    if helper {
        if !THREADS[CUR].helper {
            INTERRUPTED = CUR;
        }
        go(id);
    } else {
        point();
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(h: usize, _ret: usize) -> i32 {
    point();
    if THREADS[h].s != S::Done {
        block(S::Join(h), None);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(_: usize) -> i32 {
    0
}
#[cfg(not(feature = "native"))]
mod attr {
    #[no_mangle]
    unsafe extern "C" fn pthread_attr_init(_: usize) -> i32 {
        0
    }
    #[no_mangle]
    unsafe extern "C" fn pthread_attr_setstacksize(_: usize, _: usize) -> i32 {
        0
    }
    #[no_mangle]
    unsafe extern "C" fn pthread_attr_destroy(_: usize) -> i32 {
        0
    }
    #[no_mangle]
    unsafe extern "C" fn dlsym(_: usize, _: *const u8) -> usize {
        0
    }
    #[no_mangle]
    unsafe extern "C" fn sigemptyset(p: *mut [u64; 16]) -> i32 {
        *p = [0; 16];
        0
    }
    #[no_mangle]
    unsafe extern "C" fn sigaddset(p: *mut [u64; 16], s: i32) -> i32 {
        (*p)[0] |= 1 << (s - 1);
        0
    }
    #[no_mangle]
    unsafe extern "C" fn gnu_get_libc_version() -> *const u8 {
        c"2.39".as_ptr() as *const u8
    }
}
unsafe fn fail(e: i32) -> isize {
    errno(e);
    -1
}
const FUTEX: i64 = 202;
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n != FUTEX || THREADS.is_empty() {
        #[cfg(feature = "native")]
        {
            let r = native::raw(n, a, b, c, d, e, f);
            return if (-4095..0).contains(&r) { fail(-r as i32) } else { r };
        }
        #[cfg(not(feature = "native"))]
        {
            let _ = (e, f);
            return if n == FUTEX { 0 } else { fail(38) };
        }
    }
    match b & 127 {
        // FUTEX_WAIT, FUTEX_WAIT_BITSET (which has an absolute time)
        0 | 9 => {
            point();
            if *(a as *const u32) != c as u32 {
                return fail(11);
            }
            let limit = (d != 0).then(|| if b & 127 == 9 { deadline(d as *const i64) } else { NOW + (*(d as *const i64) * 1_000_000_000 + *(d as *const i64).add(1)) as u64 });
            if block(S::Futex(a), limit) {
                fail(110)
            } else {
                0
            }
        }
        // FUTEX_WAKE, FUTEX_WAKE_BITSET
        1 | 10 => {
            point();
            let mut left = c as u32 as i32;
            let mut woken = 0;
            while left > 0 {
                let mut w: [usize; 16] = [0; 16];
                let mut n = 0;
                for (i, t) in THREADS.iter().enumerate() {
                    if t.s == S::Futex(a) {
                        w[n] = i;
                        n += 1;
                    }
                }
                if n == 0 {
                    break;
                }
                let k = if n == 1 || left as usize >= n { 0 } else { crate::choice(n as u32) as usize };
                THREADS[w[k]].s = S::Run;
                left -= 1;
                woken += 1;
            }
            woken
        }
        _ => fail(38),
    }
}
/// Number of processors
pub const CPUS: u32 = 4;
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_: i32, n: usize, p: *mut u8) -> i32 {
    std::ptr::write_bytes(p, 0, n);
    *p = (1 << CPUS) - 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    0
}
unsafe fn sleep(ts: *const i64) -> i32 {
    let t = NOW + (*ts * 1_000_000_000 + *ts.add(1)) as u64;
    if active() {
        block(S::Timer, Some(t));
    } else {
        NOW = t;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const i64, _: usize) -> i32 {
    sleep(ts)
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_: i32, flags: i32, ts: *const i64, _: usize) -> i32 {
    if flags & 1 == 0 {
        return sleep(ts);
    }
    let t = deadline(ts);
    if active() {
        block(S::Timer, Some(t));
    } else {
        NOW = NOW.max(t);
    }
    0
}

// ---------------------------------------------------------------- processes

/// A process that was started
#[derive(Clone, Debug)]
pub struct Proc {
    pub argv: Vec<String>,
    pub cwd: String,
    /// How many times one waits in vain for its end
    pub polls: u32,
    /// As of wait()
    pub status: i32,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub ended: bool,
    pub killed: bool,
    pub reaped: bool,
    /// No more output will come
    pub over: bool,
    /// How often it was found waiting for its output to be read
    pub stuck: u32,
    /// For harnesses
    pub listed: bool,
    pub seen: bool,
}
pub struct World {
    /// Size of free memory
    pub available: fn() -> u64,
    /// Every process: identifier, parent, memory
    pub processes: fn() -> Vec<Listed>,
    /// What a process does, or errno
    pub spawn: fn(&mut Proc) -> Result<(), i32>,
    /// A process gets a signal to end
    pub kill: fn(u32),
}
fn no_memory() -> u64 {
    u64::MAX
}
fn no_processes() -> Vec<Listed> {
    running().into_iter().map(|pid| Listed { pid, parent: Some(1), memory: 0, thread: false }).collect()
}
fn no_spawn(_: &mut Proc) -> Result<(), i32> {
    Err(EACCES)
}
/// Ends the process itself, its children just are told
pub fn end(pid: u32) {
    if let Some(p) = proc(pid) {
        if !p.ended {
            p.killed = true;
            ends((pid - FIRST_PID) as usize);
        }
    }
}
/// Those who read the output of a process that has ended can go on
fn ends(p: usize) {
    unsafe {
        PROCS[p].polls = 0;
        PROCS[p].over = true;
        for t in THREADS.iter_mut() {
            if t.s == S::Pipe(p) {
                t.s = S::Run;
            }
        }
    }
}
/// How much a process can write before somebody has to read it
pub static mut PIPE_CAPACITY: usize = 65536;
/// Does a process wait for its output to be read?
unsafe fn full(p: usize) -> bool {
    PIPES.iter().flatten().any(|(k, err, at)| *k == p && if *err { &PROCS[p].err } else { &PROCS[p].out }.len() - at > PIPE_CAPACITY)
}
/// A process or thread, as sysinfo lists them
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Listed {
    pub pid: u32,
    pub parent: Option<u32>,
    pub memory: u64,
    pub thread: bool,
}
pub static mut WORLD: World = World { available: no_memory, processes: no_processes, spawn: no_spawn, kill: end };
pub static mut PROCS: Vec<Proc> = Vec::new();
pub const FIRST_PID: u32 = 100;
/// Pipe ends: where one can read what a process writes (process, is stderr, position)
static mut PIPES: Vec<Option<(usize, bool, usize)>> = Vec::new();
const FIRST_PIPE: i32 = 5000;

pub fn proc(pid: u32) -> Option<&'static mut Proc> {
    unsafe { PROCS.get_mut(pid.wrapping_sub(FIRST_PID) as usize) }
}
/// Processes that have not ended
pub fn running() -> Vec<u32> {
    unsafe { (0..PROCS.len()).filter(|i| !PROCS[*i].ended && !PROCS[*i].killed).map(|i| i as u32 + FIRST_PID).collect() }
}
pub fn available_memory() -> u64 {
    point();
    unsafe { (WORLD.available)() }
}
pub fn processes() -> Vec<Listed> {
    unsafe { (WORLD.processes)() }
}
pub fn kill(pid: u32) {
    unsafe { (WORLD.kill)(pid) }
}
/// Called when one has waited in vain for the end of a process
pub static mut TICK: Option<fn(u32)> = None;
/// As in the crate wait-timeout
pub fn wait_process(pid: u32, limit: std::time::Duration) -> std::io::Result<Option<i32>> {
    point();
    let Some(p) = proc(pid) else { return Err(std::io::Error::from_raw_os_error(10)) };
    if p.killed {
        p.ended = true;
        p.reaped = true;
        return Ok(Some(15));
    }
    let k = (pid - FIRST_PID) as usize;
    if p.polls == 0 {
        if !unsafe { full(k) } {
            p.ended = true;
            p.reaped = true;
            ends(k);
            return Ok(Some(p.status));
        }
        p.stuck += 1;
        crate::check(p.stuck < 4, "a process waits for somebody to read its output");
    } else {
        p.polls -= 1;
    }
    unsafe {
        let t = NOW + limit.as_nanos() as u64;
        if active() {
            block(S::Timer, Some(t));
        } else {
            NOW = t;
        }
        if let Some(f) = TICK {
            f(pid);
        }
    }
    Ok(None)
}

#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut i32, _flags: i32) -> i32 {
    let r = FIRST_PIPE + PIPES.len() as i32;
    PIPES.push(None);
    PIPES.push(None);
    *fds = r;
    *fds.add(1) = r + 1;
    0
}
/// What is to be done in the process that is being started
static mut DUPS: Vec<(i32, i32)> = Vec::new();
static mut DIR: String = String::new();
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_init(_: usize) -> i32 {
    DUPS = Vec::new();
    DIR = String::new();
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(_: usize) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(_: usize, fd: i32, to: i32) -> i32 {
    DUPS.push((fd, to));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(_: usize, path: *const u8) -> i32 {
    DIR = String::from_utf8_lossy(cstr(path)).into_owned();
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_init(_: usize) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_destroy(_: usize) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_setflags(_: usize, _: i16) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_setsigmask(_: usize, _: usize) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_setsigdefault(_: usize, _: usize) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_setpgroup(_: usize, _: i32) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(pid: *mut i32, _path: *const u8, _actions: usize, _attr: usize, argv: *const *const u8, _env: usize) -> i32 {
    let mut p = Proc { argv: vec![], cwd: DIR.clone(), polls: 0, status: 0, out: vec![], err: vec![], ended: false, killed: false, reaped: false, over: false, stuck: 0, listed: false, seen: false };
    let mut k = 0;
    while !(*argv.add(k)).is_null() {
        p.argv.push(String::from_utf8_lossy(cstr(*argv.add(k))).into_owned());
        k += 1;
    }
    if let Err(e) = (WORLD.spawn)(&mut p) {
        return e;
    }
    for (fd, to) in &DUPS {
        if *fd >= FIRST_PIPE && (*to == 1 || *to == 2) {
            PIPES[(*fd - 1 - FIRST_PIPE) as usize] = Some((PROCS.len(), *to == 2, 0));
        }
    }
    *pid = FIRST_PID as i32 + PROCS.len() as i32;
    PROCS.push(p);
    0
}

pub(crate) unsafe fn read(fd: i32, p: *mut u8, n: usize) -> Option<isize> {
    if fd < FIRST_PIPE {
        return None;
    }
    let f = (fd - FIRST_PIPE) as usize;
    let Some((k, err, at)) = PIPES.get(f).copied().flatten() else { return Some(0) };
    loop {
        let d = if err { &PROCS[k].err } else { &PROCS[k].out };
        let n = n.min(d.len() - at);
        if n > 0 {
            std::ptr::copy_nonoverlapping(d[at..].as_ptr(), p, n);
            PIPES[f] = Some((k, err, at + n));
            return Some(n as isize);
        }
        if PROCS[k].over || PROCS[k].ended {
            return Some(0);
        }
        if active() {
            block(S::Pipe(k), None);
        } else {
            ends(k);
        }
    }
}
