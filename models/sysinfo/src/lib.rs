//! Model of sysinfo 0.31: free memory and processes are what the harness says
use std::collections::HashMap;
pub const IS_SUPPORTED_SYSTEM: bool = true;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Pid(u32);
impl Pid {
    pub fn from_u32(x: u32) -> Self {
        Self(x)
    }
    pub fn as_u32(self) -> u32 {
        self.0
    }
}
impl From<usize> for Pid {
    fn from(x: usize) -> Self {
        Self(x as u32)
    }
}

macro_rules! kind {
    ($n:ident $($f:ident)*) => {
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
        pub struct $n { _p: () }
        impl $n {
            pub fn new() -> Self { Self::default() }
            pub fn everything() -> Self { Self::default() }
            $(pub fn $f(self) -> Self { self })*
        }
    };
}
kind!(MemoryRefreshKind with_ram with_swap);
kind!(ProcessRefreshKind with_memory with_cpu);
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct RefreshKind {
    memory: bool,
    processes: bool,
}
impl RefreshKind {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn everything() -> Self {
        Self { memory: true, processes: true }
    }
    pub fn with_memory(self, _: MemoryRefreshKind) -> Self {
        Self { memory: true, ..self }
    }
    pub fn with_processes(self, _: ProcessRefreshKind) -> Self {
        Self { processes: true, ..self }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ProcessesToUpdate<'a> {
    All,
    Some(&'a [Pid]),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Signal {
    Hangup,
    Interrupt,
    Quit,
    Kill,
    Term,
}

#[derive(Debug)]
pub struct Process {
    pid: Pid,
    parent: Option<Pid>,
    memory: u64,
    thread: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ThreadKind {
    Kernel,
    Userland,
}
impl Process {
    pub fn thread_kind(&self) -> Option<ThreadKind> {
        self.thread.then_some(ThreadKind::Userland)
    }
    pub fn pid(&self) -> Pid {
        self.pid
    }
    pub fn parent(&self) -> Option<Pid> {
        self.parent
    }
    pub fn memory(&self) -> u64 {
        self.memory
    }
    pub fn kill(&self) -> bool {
        symrt::os::kill(self.pid.0);
        true
    }
    pub fn kill_with(&self, signal: Signal) -> Option<bool> {
        match signal {
            Signal::Term | Signal::Kill | Signal::Quit | Signal::Interrupt => {
                symrt::os::kill(self.pid.0);
                Some(true)
            }
            _ => None,
        }
    }
}

#[derive(Debug, Default)]
pub struct System {
    available: u64,
    processes: HashMap<Pid, Process>,
}
impl System {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn new_all() -> Self {
        Self::new_with_specifics(RefreshKind::everything())
    }
    pub fn new_with_specifics(r: RefreshKind) -> Self {
        let mut s = Self::default();
        s.refresh_specifics(r);
        s
    }
    pub fn refresh_specifics(&mut self, r: RefreshKind) {
        if r.memory {
            self.refresh_memory();
        }
        if r.processes {
            self.refresh_processes(ProcessesToUpdate::All);
        }
    }
    pub fn refresh_all(&mut self) {
        self.refresh_specifics(RefreshKind::everything())
    }
    pub fn refresh_memory(&mut self) {
        self.available = symrt::os::available_memory();
    }
    pub fn refresh_processes(&mut self, _: ProcessesToUpdate<'_>) -> usize {
        self.processes.clear();
        for p in symrt::os::processes() {
            let pid = Pid(p.pid);
            self.processes.insert(pid, Process { pid, parent: p.parent.map(Pid), memory: p.memory, thread: p.thread });
        }
        self.processes.len()
    }
    pub fn available_memory(&self) -> u64 {
        self.available
    }
    pub fn free_memory(&self) -> u64 {
        self.available
    }
    pub fn processes(&self) -> &HashMap<Pid, Process> {
        &self.processes
    }
    pub fn process(&self, pid: Pid) -> Option<&Process> {
        self.processes.get(&pid)
    }
}
