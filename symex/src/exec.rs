//! Symbolic interpreter: one state per path, forking at symbolic branches.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    E(Id),
    Agg(Rc<Vec<V>>),
}
impl V {
    fn from(i: Id) -> V {
        match as_const(i) {
            Some(c) => V::C(c),
            None => V::E(i),
        }
    }
    fn id(&self, w: u32) -> Id {
        match self {
            V::C(c) => konst(*c, w),
            V::E(i) => {
                debug_assert_eq!(width(*i), w);
                *i
            }
            V::Agg(_) => panic!("aggregate used as scalar"),
        }
    }
    fn c(&self) -> Option<u128> {
        match self {
            V::C(c) => Some(*c),
            _ => None,
        }
    }
}

#[derive(Clone)]
pub struct Obj {
    base: u64,
    size: u64,
    data: Vec<u8>,
    /// expression ids per byte (0 = concrete), empty when all concrete
    sym: Vec<Id>,
    dead: bool,
    ro: bool,
}
impl Obj {
    fn new(base: u64, size: u64) -> Obj {
        Obj { base, size, data: vec![0; size as usize], sym: vec![], dead: false, ro: false }
    }
}

const CH: usize = 64;
#[derive(Clone, Default)]
struct Heap {
    chunks: Vec<Rc<Vec<Rc<Obj>>>>,
    n: usize,
}
impl Heap {
    fn push(&mut self, o: Obj) {
        if self.n % CH == 0 {
            self.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(self.chunks.last_mut().unwrap()).push(Rc::new(o));
        self.n += 1;
    }
    fn find(&self, a: u64) -> Option<(usize, usize)> {
        let c = self.chunks.partition_point(|c| c[0].base <= a);
        if c == 0 {
            return None;
        }
        let ch = &self.chunks[c - 1];
        let k = ch.partition_point(|o| o.base <= a);
        Some((c - 1, k - 1))
    }
}

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    fid: u32,
    regs: Vec<V>,
    blk: u32,
    pc: u32,
    ret: Option<u32>,
    stack_len: usize,
    stack_addr: u64,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    heap: Heap,
    next_heap: u64,
    stack: Vec<Rc<Obj>>,
    next_stack: u64,
    globs: Rc<BTreeMap<u32, Rc<Obj>>>,
    conds: Vec<Id>,
    multi: u128,
    dom: Vec<[u64; 4]>,
    model: Vec<u8>,
    log: Rc<Vec<V>>,
    covers: Vec<u32>,
    known: Option<Rc<str>>,
    expect_panic: bool,
    steps: u64,
    depth: u32,
    /// Suspended threads (the running one's slot is empty)
    co: Vec<Co>,
    cur: usize,
    /// Address of the copy of a thread-local variable of a thread
    tls: Rc<BTreeMap<(usize, u64), u64>>,
}
#[derive(Clone, Default)]
pub struct Co {
    frames: Vec<Rc<Frame>>,
    stack: Vec<Rc<Obj>>,
    next_stack: u64,
}
/// Room for the stack of each thread
const CO_SHIFT: u32 = 36;

const HEAP_BASE: u64 = 0x1000_0000_0000;
const STACK_BASE: u64 = 0x7000_0000_0000;

pub enum Ev {
    Kill,
    Done(&'static str),
    Viol(String, String),
    Fatal(String),
}
type R<T> = Result<T, Ev>;

pub struct Violation {
    pub kind: String,
    pub loc: String,
    pub known: Option<String>,
    pub input: Vec<u8>,
    pub count: u64,
}
pub struct Sample {
    pub input: Vec<u8>,
    pub status: String,
    pub log: u64,
}
#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub ok: u64,
    pub expected_panics: u64,
    pub killed: u64,
    pub steps: u64,
    pub forks: u64,
    pub dom_queries: u64,
    pub model_hits: u64,
    pub unknown: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub max_syms: u64,
}

pub struct Engine {
    pub m: Module,
    pub sol: Solver,
    ginit: HashMap<u32, Rc<Obj>>,
    pub work: VecDeque<State>,
    pub st: Stats,
    pub viols: BTreeMap<(String, String, String), Violation>,
    pub samples: Vec<Sample>,
    pub max_samples: usize,
    pub covers: BTreeMap<String, u64>,
    cover_ids: Vec<String>,
    pub deadline: std::time::Instant,
    pub max_steps: u64,
    pub incomplete: Option<String>,
    pub seen_blocks: HashSet<(u32, u32)>,
    pub fatal: Option<String>,
    rng: u64,
    hang_is_violation: bool,
    gidx: Vec<u64>,
    pub unmodelled: BTreeMap<String, u64>,
    trace: bool,
    max_viols: usize,
    pub pool: Option<Pool>,
}

/// Processes that share the exploration
///
/// A process with pending states forks when there are fewer processes at work
/// than allowed; the child takes the older half of them.
pub struct Pool {
    pub shared: &'static Shared,
    pub jobs: u32,
    /// Which process this is
    pub id: u32,
    pub kids: Vec<i32>,
    pub last: std::time::Instant,
}
#[repr(C)]
pub struct Shared {
    pub active: std::sync::atomic::AtomicU32,
    pub next_id: std::sync::atomic::AtomicU32,
    pub died: std::sync::atomic::AtomicU32,
    pub stop: std::sync::atomic::AtomicU32,
}
extern "C" {
    fn fork() -> i32;
}

enum Feas {
    No,
    Yes(Vec<(u16, u8)>),
    Unk,
}

fn full() -> [u64; 4] {
    [u64::MAX; 4]
}
fn isect(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn first(a: &[u64; 4]) -> Option<u8> {
    for i in 0..4 {
        if a[i] != 0 {
            return Some((i * 64) as u8 + a[i].trailing_zeros() as u8);
        }
    }
    None
}

impl Engine {
    pub fn new(m: Module, deadline: std::time::Instant, max_steps: u64, timeout_ms: u32) -> Engine {
        konst(0, 1);
        let gidx = m.globals.iter().map(|g| g.addr).collect();
        Engine {
            m,
            sol: Solver::new(timeout_ms),
            ginit: HashMap::new(),
            work: VecDeque::new(),
            st: Stats::default(),
            viols: BTreeMap::new(),
            samples: vec![],
            max_samples: 64,
            covers: BTreeMap::new(),
            cover_ids: vec![],
            deadline,
            max_steps,
            incomplete: None,
            seen_blocks: HashSet::new(),
            fatal: None,
            rng: 0x9e3779b97f4a7c15,
            hang_is_violation: true,
            gidx,
            unmodelled: BTreeMap::new(),
            trace: std::env::var("SYMEX_TRACE").is_ok(),
            max_viols: 64,
            pool: None,
        }
    }

    /// Hand over some of the pending states to a new process, if there is room
    /// for one. True in that process.
    fn split(&mut self) -> bool {
        use std::sync::atomic::Ordering::SeqCst;
        let Some(p) = &mut self.pool else { return false };
        if self.work.len() < 2 || p.shared.active.load(SeqCst) >= p.jobs || p.last.elapsed().as_millis() < 20 {
            return false;
        }
        if p.shared.active.fetch_add(1, SeqCst) >= p.jobs {
            p.shared.active.fetch_sub(1, SeqCst);
            return false;
        }
        p.last = std::time::Instant::now();
        let id = p.shared.next_id.fetch_add(1, SeqCst);
        let half = self.work.len() / 2;
        match unsafe { fork() } {
            0 => {
                self.work.truncate(half);
                p.id = id;
                p.kids.clear();
                self.st = Default::default();
                self.viols.clear();
                self.samples.clear();
                self.covers.clear();
                self.unmodelled.clear();
                self.seen_blocks.clear();
                self.incomplete = None;
                self.sol.n_sat = 0;
                self.sol.n_unsat = 0;
                self.sol.n_unknown = 0;
                self.sol.n_cached = 0;
                self.sol.time = 0.0;
                self.rng ^= (id as u64).wrapping_mul(0x9e3779b97f4a7c15);
                true
            }
            -1 => {
                p.shared.active.fetch_sub(1, SeqCst);
                p.shared.died.fetch_add(1, SeqCst);
                false
            }
            pid => {
                p.kids.push(pid);
                self.work.drain(..half);
                false
            }
        }
    }
    fn stopped(&self) -> bool {
        self.pool.as_ref().is_some_and(|p| p.shared.stop.load(std::sync::atomic::Ordering::SeqCst) != 0)
    }
    fn stop(&self) {
        if let Some(p) = &self.pool {
            p.shared.stop.store(1, std::sync::atomic::Ordering::SeqCst);
        }
    }

    pub fn start(&mut self, entry: &str) {
        let id = *self.m.fmap.get(entry).unwrap_or_else(|| {
            eprintln!("symex: no function {}", entry);
            std::process::exit(4)
        });
        let f = self.m.func(id);
        let mut st = State {
            frames: vec![],
            heap: Heap::default(),
            next_heap: HEAP_BASE,
            stack: vec![],
            next_stack: STACK_BASE,
            globs: Rc::new(BTreeMap::new()),
            conds: vec![],
            multi: 0,
            dom: vec![],
            model: vec![],
            log: Rc::new(vec![]),
            covers: vec![],
            known: None,
            expect_panic: false,
            steps: 0,
            depth: 0,
            co: vec![],
            cur: 0,
            tls: Rc::new(BTreeMap::new()),
        };
        self.push_frame(&mut st, id, f, vec![], None);
        self.work.push_back(st);
    }

    fn push_frame(&mut self, st: &mut State, fid: u32, f: Rc<Func>, args: Vec<V>, ret: Option<u32>) {
        let mut regs = vec![V::C(0); f.nregs];
        for (p, a) in f.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        self.seen_blocks.insert((fid, 0));
        st.frames.push(Rc::new(Frame {
            f,
            fid,
            regs,
            blk: 0,
            pc: 0,
            ret,
            stack_len: st.stack.len(),
            stack_addr: st.next_stack,
        }));
    }

    // ---------------------------------------------------------------- solving
    fn slice(&self, st: &State, cond: Option<Id>) -> (Vec<Id>, Vec<(u16, [u64; 4])>) {
        let mut mask = match cond {
            Some(c) => nd(c).mask,
            None => u128::MAX,
        };
        let mut take = vec![false; st.conds.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.conds.iter().enumerate() {
                if !take[i] && nd(*c).mask & mask != 0 {
                    take[i] = true;
                    mask |= nd(*c).mask;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut cs: Vec<Id> = cond.into_iter().collect();
        for (i, c) in st.conds.iter().enumerate() {
            if take[i] {
                cs.push(*c);
            }
        }
        let mut ds = vec![];
        for (i, d) in st.dom.iter().enumerate() {
            if mask >> i.min(127) & 1 == 1 {
                ds.push((i as u16, *d));
            }
        }
        (cs, ds)
    }
    fn feas(&mut self, st: &State, cond: Id) -> Feas {
        if let Some(c) = as_const(cond) {
            return if c == 1 { Feas::Yes(vec![]) } else { Feas::No };
        }
        if eval(cond, &st.model) == 1 {
            self.st.model_hits += 1;
            return Feas::Yes(vec![]);
        }
        let mask = nd(cond).mask;
        if let Some(s) = single_sym(mask) {
            let t = truth(cond, s);
            let i = isect(&t, &st.dom[s as usize]);
            match first(&i) {
                None => {
                    self.st.dom_queries += 1;
                    return Feas::No;
                }
                Some(v) => {
                    if mask & st.multi == 0 {
                        self.st.dom_queries += 1;
                        return Feas::Yes(vec![(s, v)]);
                    }
                }
            }
        }
        self.z3(st, cond)
    }
    fn z3(&mut self, st: &State, cond: Id) -> Feas {
        let (cs, ds) = self.slice(st, Some(cond));
        match self.sol.check(&cs, &ds) {
            Res::Sat(m) => {
                let mut model = st.model.clone();
                for (k, v) in &m {
                    model[*k as usize] = *v;
                }
                // the model must satisfy what was asked: guards the encoding
                for c in &cs {
                    if eval(*c, &model) != 1 {
                        self.fatal = Some(format!("solver model does not satisfy the query (node {})", c));
                        return Feas::Unk;
                    }
                }
                Feas::Yes(m)
            }
            Res::Unsat => Feas::No,
            Res::Unknown => {
                self.st.unknown += 1;
                self.incomplete.get_or_insert("solver gave up on a query".into());
                Feas::Unk
            }
        }
    }
    /// Add a constraint known to be satisfiable; `patch` makes the model satisfy it
    fn add(&mut self, st: &mut State, cond: Id, patch: &[(u16, u8)]) {
        for (k, v) in patch {
            st.model[*k as usize] = *v;
        }
        self.add_rec(st, cond);
    }
    fn add_rec(&mut self, st: &mut State, cond: Id) {
        if as_const(cond).is_some() {
            return;
        }
        match nd(cond).op {
            Op::Bin(B::And, a, b) => {
                self.add_rec(st, a);
                self.add_rec(st, b);
                return;
            }
            Op::Bin(B::Xor, a, k) if as_const(k) == Some(1) => {
                if let Op::Bin(B::Or, p, q) = nd(a).op {
                    self.add_rec(st, not(p));
                    self.add_rec(st, not(q));
                    return;
                }
            }
            _ => {}
        }
        let mask = nd(cond).mask;
        if let Some(s) = single_sym(mask) {
            let t = truth(cond, s);
            st.dom[s as usize] = isect(&t, &st.dom[s as usize]);
        } else {
            st.conds.push(cond);
            st.multi |= mask;
        }
    }
    /// Split on a 1-bit condition. Returns the side this state continues on.
    fn branch(&mut self, st: &mut State, cond: Id, mut other: impl FnMut(&mut Self, &mut State, bool)) -> bool {
        let here = eval(cond, &st.model) == 1;
        let oc = if here { not(cond) } else { cond };
        match self.feas(st, oc) {
            Feas::No => {}
            Feas::Unk => {}
            Feas::Yes(p) => {
                self.st.forks += 1;
                let mut o = st.clone();
                o.depth += 1;
                self.add(&mut o, oc, &p);
                other(self, &mut o, !here);
                self.work.push_back(o);
                let c = if here { cond } else { not(cond) };
                self.add(st, c, &[]);
                st.depth += 1;
            }
        }
        here
    }
    /// Make a value concrete, forking so that every feasible value gets explored
    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> R<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::E(i) => {
                let c = eval(*i, &st.model);
                let eq = cmp(Cmp::Eq, *i, konst(c, w));
                // the other state re-executes the same instruction
                self.branch(st, eq, |_, _, _| {});
                Ok(c)
            }
            V::Agg(_) => Err(Ev::Fatal("aggregate address".into())),
        }
    }

    // ---------------------------------------------------------------- memory
    fn glob(&mut self, st: &State, g: u32) -> Rc<Obj> {
        if let Some(o) = st.globs.get(&g) {
            return o.clone();
        }
        if let Some(o) = self.ginit.get(&g) {
            return o.clone();
        }
        let gl = &self.m.globals[g as usize];
        let mut o = Obj::new(gl.addr, gl.size);
        o.ro = gl.constant;
        o.data = self.m.global_bytes(g);
        let o = Rc::new(o);
        self.ginit.insert(g, o.clone());
        o
    }
    fn fault(&self, st: &State, what: &str, a: u64) -> Ev {
        Ev::Viol(format!("memory: {} ({:#x})", what, a), self.where_(st))
    }
    fn lookup(&mut self, st: &State, a: u64, n: u64) -> R<Rc<Obj>> {
        let o = if a >= STACK_BASE {
            let t = ((a - STACK_BASE) >> CO_SHIFT) as usize;
            let stack = if t == st.cur { &st.stack } else { st.co.get(t).map_or(&st.stack, |c| &c.stack) };
            let k = stack.partition_point(|o| o.base <= a);
            if k == 0 {
                return Err(self.fault(st, "bad stack address", a));
            }
            stack[k - 1].clone()
        } else if a >= HEAP_BASE {
            match st.heap.find(a) {
                Some((c, k)) => st.heap.chunks[c][k].clone(),
                None => return Err(self.fault(st, "bad heap address", a)),
            }
        } else if a >= G_BASE {
            let k = self.gidx.partition_point(|b| *b <= a);
            if k == 0 {
                return Err(self.fault(st, "bad address", a));
            }
            self.glob(st, k as u32 - 1)
        } else {
            return Err(self.fault(st, "invalid address", a));
        };
        if o.dead {
            return Err(self.fault(st, "use after free", a));
        }
        if a + n > o.base + o.size {
            return Err(self.fault(st, "out of bounds", a));
        }
        Ok(o)
    }
    fn with_mut<T>(&mut self, st: &mut State, a: u64, n: u64, f: impl FnOnce(&mut Obj, usize) -> T) -> R<T> {
        if a >= STACK_BASE {
            let t = ((a - STACK_BASE) >> CO_SHIFT) as usize;
            let other = t != st.cur && t < st.co.len();
            let k = if other { &st.co[t].stack } else { &st.stack }.partition_point(|o| o.base <= a);
            if k == 0 {
                return Err(self.fault(st, "bad stack address", a));
            }
            let o = if other { &st.co[t].stack[k - 1] } else { &st.stack[k - 1] };
            if a + n > o.base + o.size {
                return Err(self.fault(st, "out of bounds write", a));
            }
            let o = Rc::make_mut(if other { &mut st.co[t].stack[k - 1] } else { &mut st.stack[k - 1] });
            let off = (a - o.base) as usize;
            return Ok(f(o, off));
        }
        if a >= HEAP_BASE {
            let (c, k) = match st.heap.find(a) {
                Some(x) => x,
                None => return Err(self.fault(st, "bad heap address", a)),
            };
            {
                let o = &st.heap.chunks[c][k];
                if o.dead {
                    return Err(self.fault(st, "write after free", a));
                }
                if a + n > o.base + o.size {
                    return Err(self.fault(st, "out of bounds write", a));
                }
            }
            let o = Rc::make_mut(&mut Rc::make_mut(&mut st.heap.chunks[c])[k]);
            let off = (a - o.base) as usize;
            return Ok(f(o, off));
        }
        if a >= G_BASE {
            let o = self.lookup(st, a, n)?;
            if o.ro {
                return Err(self.fault(st, "write to constant", a));
            }
            let g = self.gidx.partition_point(|b| *b <= a) as u32 - 1;
            let m = Rc::make_mut(&mut st.globs);
            let e = m.entry(g).or_insert(o);
            let o = Rc::make_mut(e);
            let off = (a - o.base) as usize;
            return Ok(f(o, off));
        }
        Err(self.fault(st, "invalid address", a))
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let base = st.next_heap.div_ceil(al) * al;
        st.next_heap = base + size.max(1) + 32;
        st.heap.push(Obj::new(base, size));
        base
    }
    fn read_scalar(o: &Obj, off: usize, n: usize) -> V {
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|s| *s == 0) {
            let mut v = 0u128;
            for k in (0..n).rev() {
                v = v << 8 | o.data[off + k] as u128;
            }
            return V::C(v);
        }
        let byte = |k: usize| -> Id {
            let s = o.sym[off + k];
            if s == 0 {
                konst(o.data[off + k] as u128, 8)
            } else {
                s
            }
        };
        let mut acc = byte(n - 1);
        for k in (0..n - 1).rev() {
            acc = concat(acc, byte(k));
        }
        V::from(acc)
    }
    fn load(&mut self, st: &mut State, a: &V, ty: &Ty) -> R<V> {
        if let (V::E(i), false) = (a, ty.is_agg()) {
            // table look-up keyed by one symbolic byte
            if let Some(s) = single_sym(nd(*i).mask) {
                if let Some(v) = self.lut_load(st, *i, s, ty) {
                    return Ok(v);
                }
            }
        }
        let addr = self.conc(st, a, 64)? as u64;
        self.load_at(st, addr, ty)
    }
    fn load_at(&mut self, st: &State, addr: u64, ty: &Ty) -> R<V> {
        if ty.is_agg() {
            let n = ty.count();
            let mut v = Vec::with_capacity(n);
            if let Ty::Vec(_, e) = ty {
                if e.bits() % 8 != 0 {
                    // bit-packed vector
                    let w = (n as u32) * e.bits();
                    let by = w.div_ceil(8) as u64;
                    let o = self.lookup(st, addr, by)?;
                    let x = Self::read_scalar(&o, (addr - o.base) as usize, by as usize).id(by as u32 * 8);
                    for k in 0..n as u32 {
                        v.push(V::from(extract(x, k * e.bits(), e.bits())));
                    }
                    return Ok(V::Agg(Rc::new(v)));
                }
            }
            for k in 0..n {
                v.push(self.load_at(st, addr + ty.field_off(k), &ty.elem(k))?);
            }
            return Ok(V::Agg(Rc::new(v)));
        }
        let n = ty.store_size();
        if n == 0 {
            return Ok(V::C(0));
        }
        if n > 16 {
            return Err(Ev::Fatal(format!("load of {:?}", ty)));
        }
        let o = self.lookup(st, addr, n)?;
        let v = Self::read_scalar(&o, (addr - o.base) as usize, n as usize);
        let w = ty.bits();
        if w as u64 != n * 8 {
            return Ok(match v {
                V::C(c) => V::C(c & mask_w(w)),
                V::E(i) => V::from(extract(i, 0, w)),
                v => v,
            });
        }
        Ok(v)
    }
    fn lut_load(&mut self, st: &State, addr: Id, s: u16, ty: &Ty) -> Option<V> {
        let d = st.dom[s as usize];
        let n = ty.store_size();
        if n == 0 || n > 8 {
            return None;
        }
        let mut m = st.model.clone();
        let mut tab = vec![0u128; 256];
        let mut filler = None;
        let mut todo = vec![];
        let mut ob: Option<Rc<Obj>> = None;
        for v in 0..256usize {
            if d[v / 64] >> (v % 64) & 1 == 0 {
                todo.push(v);
                continue;
            }
            m[s as usize] = v as u8;
            let a = eval(addr, &m) as u64;
            let hit = match &ob {
                Some(o) => a >= o.base && a + n <= o.base + o.size,
                None => false,
            };
            if !hit {
                ob = Some(self.lookup(st, a, n).ok()?);
            }
            let o = ob.as_ref().unwrap();
            match Self::read_scalar(o, (a - o.base) as usize, n as usize) {
                V::C(c) => {
                    tab[v] = c & mask_w(ty.bits());
                    filler = Some(tab[v]);
                }
                _ => return None,
            }
        }
        let f = filler?;
        for v in todo {
            tab[v] = f;
        }
        Some(V::from(lut(tab, sym(s), ty.bits())))
    }
    fn store_at(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> R<()> {
        if let V::Agg(vs) = v {
            if let Ty::Vec(_, e) = ty {
                if e.bits() % 8 != 0 {
                    let mut acc: Option<Id> = None;
                    for x in vs.iter() {
                        let x = x.id(e.bits());
                        acc = Some(match acc {
                            None => x,
                            Some(a) => concat(x, a),
                        });
                    }
                    let a = acc.unwrap();
                    let by = width(a).div_ceil(8);
                    let z = zext(a, by * 8);
                    return self.store_at(st, addr, &Ty::Int(by * 8), &V::from(z));
                }
            }
            for (k, x) in vs.iter().enumerate() {
                self.store_at(st, addr + ty.field_off(k), &ty.elem(k), x)?;
            }
            return Ok(());
        }
        let n = ty.store_size() as usize;
        if n == 0 {
            return Ok(());
        }
        match v {
            V::C(c) => {
                let c = *c;
                if n > 16 && c != 0 {
                    return Err(Ev::Fatal(format!("store of {:?}", ty)));
                }
                self.with_mut(st, addr, n as u64, |o, off| {
                    for k in 0..n {
                        o.data[off + k] = if k < 16 { (c >> (8 * k)) as u8 } else { 0 };
                    }
                    if !o.sym.is_empty() {
                        for k in 0..n {
                            o.sym[off + k] = 0;
                        }
                    }
                })
            }
            V::E(i) => {
                let w = width(*i);
                let x = if w as usize != n * 8 { zext(*i, n as u32 * 8) } else { *i };
                self.with_mut(st, addr, n as u64, |o, off| {
                    if o.sym.is_empty() {
                        o.sym = vec![0; o.size as usize];
                    }
                    for k in 0..n {
                        let b = extract(x, k as u32 * 8, 8);
                        match as_const(b) {
                            Some(c) => {
                                o.data[off + k] = c as u8;
                                o.sym[off + k] = 0;
                            }
                            None => o.sym[off + k] = b,
                        }
                    }
                })
            }
            V::Agg(_) => unreachable!(),
        }
    }
    fn copy_mem(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let o = self.lookup(st, s, n)?;
        let off = (s - o.base) as usize;
        let data = o.data[off..off + n as usize].to_vec();
        let sy = if o.sym.is_empty() { vec![] } else { o.sym[off..off + n as usize].to_vec() };
        drop(o);
        self.with_mut(st, d, n, |o, off| {
            o.data[off..off + n as usize].copy_from_slice(&data);
            if sy.iter().any(|x| *x != 0) {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.size as usize];
                }
                o.sym[off..off + n as usize].copy_from_slice(&sy);
            } else if !o.sym.is_empty() {
                for k in 0..n as usize {
                    o.sym[off + k] = 0;
                }
            }
        })
    }
    fn bytes_at(&mut self, st: &State, a: u64, n: u64) -> R<Vec<V>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let o = self.lookup(st, a, n)?;
        let off = (a - o.base) as usize;
        Ok((0..n as usize).map(|k| Self::read_scalar(&o, off + k, 1)).collect())
    }
    fn str_at(&mut self, st: &State, a: u64, n: u64) -> R<String> {
        let v = self.bytes_at(st, a, n)?;
        Ok(String::from_utf8_lossy(&v.iter().map(|x| x.c().unwrap_or(b'?' as u128) as u8).collect::<Vec<_>>()).into_owned())
    }

    // ---------------------------------------------------------------- interpretation
    fn where_(&self, st: &State) -> String {
        // innermost frame of the repository's code, by debug location
        for f in st.frames.iter().rev() {
            let pc = f.pc as usize;
            let b = &f.f.blocks[f.blk as usize];
            let d = b.insts.get(pc).map(|x| x.1).unwrap_or(0);
            if let Some(l) = crate::dbg::repo_loc(&self.m, d) {
                return l;
            }
        }
        st.frames.last().map(|f| f.f.name.to_string()).unwrap_or_default()
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| f.f.name.to_string()).collect()
    }

    fn val(f: &Frame, o: &Opnd) -> V {
        match o {
            Opnd::Reg(r) => f.regs[*r as usize].clone(),
            Opnd::C(c) => V::C(*c),
            Opnd::Agg(v) => V::Agg(Rc::new(v.iter().map(|x| Self::val(f, x)).collect())),
        }
    }
    fn goto(&mut self, st: &mut State, b: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        Self::goto_f(fr, b);
        self.seen_blocks.insert((fr.fid, b));
    }
    fn goto_f(fr: &mut Frame, b: u32) {
        let f = fr.f.clone();
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let prev = fr.blk;
            if blk.phis.len() == 1 {
                let (d, src) = &blk.phis[0];
                let o = &src.iter().find(|(p, _)| *p == prev).expect("phi").1;
                fr.regs[*d as usize] = Self::val(fr, o);
            } else {
                let mut tmp = Vec::with_capacity(blk.phis.len());
                for (d, src) in &blk.phis {
                    let o = &src.iter().find(|(p, _)| *p == prev).expect("phi").1;
                    tmp.push((*d, Self::val(fr, o)));
                }
                for (d, v) in tmp {
                    fr.regs[d as usize] = v;
                }
            }
        }
        fr.blk = b;
        fr.pc = 0;
    }

    /// Run one path until it ends
    fn run_path(&mut self, mut st: State) {
        loop {
            let r = self.step(&mut st);
            if self.fatal.is_some() {
                return;
            }
            match r {
                Ok(()) => {
                    if st.steps & 0x3fff == 0 && self.split() {
                        return;
                    }
                    if st.steps & 0xffff == 0 && std::time::Instant::now() > self.deadline {
                        self.incomplete.get_or_insert("time budget".into());
                        self.st.steps += st.steps;
                        return;
                    }
                    if st.steps > self.max_steps {
                        self.st.steps += st.steps;
                        if self.hang_is_violation {
                            let w = self.where_(&st);
                            self.violation(&st, "no termination within the step budget".into(), w);
                        }
                        return;
                    }
                }
                Err(Ev::Kill) => {
                    self.st.killed += 1;
                    self.st.steps += st.steps;
                    return;
                }
                Err(Ev::Done(s)) => {
                    self.finish(&st, s);
                    return;
                }
                Err(Ev::Viol(k, l)) => {
                    self.st.steps += st.steps;
                    self.st.paths += 1;
                    self.violation(&st, k, l);
                    return;
                }
                Err(Ev::Fatal(e)) => {
                    let bt = self.backtrace(&st);
                    self.fatal = Some(format!("{} in {:?}", e, &bt[..bt.len().min(12)]));
                    return;
                }
            }
        }
    }
    fn violation(&mut self, st: &State, kind: String, loc: String) {
        let known = st.known.as_ref().map(|s| s.to_string());
        let key = (kind.clone(), loc.clone(), known.clone().unwrap_or_default());
        if let Some(v) = self.viols.get_mut(&key) {
            v.count += 1;
            return;
        }
        if std::env::var("SYMEX_BT").is_ok() {
            eprintln!("violation {} at {}: {:#?}", kind, loc, self.backtrace(st));
            if let Some(f) = st.frames.last() {
                let b = &f.f.blocks[f.blk as usize];
                for k in (f.pc as usize).saturating_sub(3)..(f.pc as usize + 2).min(b.insts.len()) {
                    eprintln!("   blk {} pc {}{} {:?} {:?}", f.blk, k, if k == f.pc as usize { "*" } else { " " }, b.insts[k].0, crate::dbg::repo_loc(&self.m, b.insts[k].1));
                }
            }
        }
        self.viols.insert(key, Violation { kind, loc, known, input: st.model.clone(), count: 1 });
        let unknown_viols = self.viols.values().filter(|v| v.known.is_none()).count();
        if unknown_viols >= self.max_viols {
            self.incomplete.get_or_insert("many violations".into());
            self.work.clear();
        }
    }
    fn finish(&mut self, st: &State, status: &'static str) {
        self.st.paths += 1;
        self.st.steps += st.steps;
        self.st.max_syms = self.st.max_syms.max(st.model.len() as u64);
        if status == "panic" {
            self.st.expected_panics += 1;
        } else {
            self.st.ok += 1;
        }
        let mut seen = vec![];
        for c in &st.covers {
            if !seen.contains(c) {
                seen.push(*c);
                *self.covers.entry(self.cover_ids[*c as usize].clone()).or_insert(0) += 1;
            }
        }
        // reservoir sample of path models
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        let n = self.st.paths;
        let slot = if self.samples.len() < self.max_samples {
            self.samples.push(Sample { input: vec![], status: String::new(), log: 0 });
            Some(self.samples.len() - 1)
        } else {
            let k = (self.rng % n) as usize;
            if k < self.max_samples {
                Some(k)
            } else {
                None
            }
        };
        if let Some(k) = slot {
            let mut h = 0xcbf29ce484222325u64;
            for v in st.log.iter() {
                let b = match v {
                    V::C(c) => *c as u8,
                    V::E(i) => eval(*i, &st.model) as u8,
                    _ => 0,
                };
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
            self.samples[k] = Sample { input: st.model.clone(), status: status.into(), log: h };
        }
    }
    /// Explore everything on the work list (depth first)
    pub fn drain(&mut self) {
        while let Some(s) = self.work.pop_back() {
            self.run_path(s);
            self.split();
            if self.fatal.is_some() {
                self.stop();
                break;
            }
            if std::time::Instant::now() > self.deadline {
                if !self.work.is_empty() {
                    self.incomplete.get_or_insert("time budget".into());
                }
                break;
            }
            if self.stopped() {
                if !self.work.is_empty() {
                    self.incomplete.get_or_insert("stopped".into());
                }
                break;
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let (inst, _) = &f.blocks[fr.blk as usize].insts[fr.pc as usize];
        if self.trace {
            eprintln!("{:>3} {} b{} {:?}", st.frames.len(), &f.name[f.name.len().saturating_sub(30)..], fr.blk, inst);
            eprintln!("      regs {:?}", fr.regs.iter().enumerate().filter_map(|(k, v)| v.c().filter(|c| *c != 0).map(|c| format!("{}={:x}", k, c))).collect::<Vec<_>>().join(" "));
        }
        macro_rules! v {
            ($o:expr) => {
                Self::val(st.frames.last().unwrap(), $o)
            };
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let x = $v;
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.regs[$d as usize] = x;
                fr.pc += 1;
                Ok(())
            }};
        }
        macro_rules! next {
            () => {{
                Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
                Ok(())
            }};
        }
        match inst {
            Inst::Bin(d, b, ty, x, y) => {
                let (x, y) = (v!(x), v!(y));
                let r = bin_v(*b, ty, &x, &y)?;
                set!(*d, r)
            }
            Inst::Cmp(d, p, ty, x, y) => {
                let (x, y) = (v!(x), v!(y));
                let r = cmp_v(*p, ty, &x, &y)?;
                set!(*d, r)
            }
            Inst::Cast(d, k, t1, x, t2) => {
                let x = v!(x);
                let r = cast_v(k, t1, &x, t2)?;
                set!(*d, r)
            }
            Inst::Load(d, ty, a) => {
                let a = v!(a);
                let r = self.load(st, &a, ty)?;
                set!(*d, r)
            }
            Inst::Store(ty, x, a) => {
                let (x, a) = (v!(x), v!(a));
                let a = self.conc(st, &a, 64)? as u64;
                self.store_at(st, a, ty, &x)?;
                next!()
            }
            Inst::Gep(d, base, off, terms) => {
                let b = v!(base);
                if let V::Agg(_) = b {
                    return Err(Ev::Fatal("vector gep".into()));
                }
                let mut all_c = b.c();
                let mut acc: Option<Id> = None;
                if let Some(c) = all_c.as_mut() {
                    *c = (*c as u64).wrapping_add(*off as u64) as u128;
                } else {
                    acc = Some(bin(B::Add, b.id(64), konst(*off as u64 as u128, 64)));
                }
                for (o, w, stride) in terms {
                    let t = v!(o);
                    match (&t, acc) {
                        (V::C(k), None) => {
                            let k = sext_to_i128(*k, *w) as i64;
                            let c = all_c.unwrap() as u64;
                            all_c = Some(c.wrapping_add((k as u64).wrapping_mul(*stride)) as u128);
                        }
                        _ => {
                            let a = acc.unwrap_or_else(|| konst(all_c.unwrap(), 64));
                            let k = t.id(*w);
                            let k = if *w < 64 {
                                sext(k, 64)
                            } else if *w > 64 {
                                extract(k, 0, 64)
                            } else {
                                k
                            };
                            let k = bin(B::Mul, k, konst(*stride as u128, 64));
                            acc = Some(bin(B::Add, a, k));
                        }
                    }
                }
                let r = match acc {
                    Some(a) => V::from(a),
                    None => V::C(all_c.unwrap()),
                };
                set!(*d, r)
            }
            Inst::Alloca(d, size, al) => {
                let al = (*al).max(16);
                let base = st.next_stack.div_ceil(al) * al;
                st.next_stack = base + size + 32;
                st.stack.push(Rc::new(Obj::new(base, *size)));
                set!(*d, V::C(base as u128))
            }
            Inst::Select(d, c, ty, a, b, vecc) => {
                let (c, a, b) = (v!(c), v!(a), v!(b));
                let r = if *vecc {
                    match (&c, &a, &b) {
                        (V::Agg(c), V::Agg(a), V::Agg(b)) => V::Agg(Rc::new(
                            (0..c.len()).map(|k| sel_v(&c[k], &a[k], &b[k], &ty.elem(k))).collect(),
                        )),
                        _ => return Err(Ev::Fatal("vector select".into())),
                    }
                } else {
                    sel_v(&c, &a, &b, ty)
                };
                set!(*d, r)
            }
            Inst::ExtractValue(d, a, ix) => {
                let mut x = v!(a);
                for i in ix {
                    x = match x {
                        V::Agg(v) => v[*i as usize].clone(),
                        _ => return Err(Ev::Fatal("extractvalue".into())),
                    };
                }
                set!(*d, x)
            }
            Inst::InsertValue(d, ty, a, x, ix) => {
                let (a, x) = (v!(a), v!(x));
                let r = insert_v(&a, ty, &x, ix);
                set!(*d, r)
            }
            Inst::ExtractElement(d, a, i) => {
                let (a, i) = (v!(a), v!(i));
                let k = self.conc(st, &i, 64)? as usize;
                let r = match a {
                    V::Agg(v) => v.get(k).cloned().unwrap_or(V::C(0)),
                    _ => return Err(Ev::Fatal("extractelement".into())),
                };
                set!(*d, r)
            }
            Inst::InsertElement(d, ty, a, x, i) => {
                let (a, x, i) = (v!(a), v!(x), v!(i));
                let k = self.conc(st, &i, 64)? as u32;
                let r = insert_v(&a, ty, &x, &[k]);
                set!(*d, r)
            }
            Inst::Shuffle(d, a, b, mask, n) => {
                let (a, b) = (v!(a), v!(b));
                let r = match (&a, &b) {
                    (V::Agg(a), V::Agg(b)) => V::Agg(Rc::new(
                        mask.iter()
                            .map(|k| {
                                let k = *k;
                                if k < 0 {
                                    V::C(0)
                                } else if (k as usize) < *n {
                                    a[k as usize].clone()
                                } else {
                                    b.get(k as usize - n).cloned().unwrap_or(V::C(0))
                                }
                            })
                            .collect(),
                    )),
                    _ => return Err(Ev::Fatal("shufflevector".into())),
                };
                set!(*d, r)
            }
            Inst::Copy(d, a) => {
                let x = v!(a);
                set!(*d, x)
            }
            Inst::FNeg(d, ty, a) => {
                let x = v!(a);
                let w = ty.bits();
                let r = bin_v(B::Xor, &Ty::Int(w), &x, &V::C(1u128 << (w - 1)))?;
                set!(*d, r)
            }
            Inst::AtomicRmw(d, k, a, ty, x) => {
                let (a, x) = (v!(a), v!(x));
                let a = self.conc(st, &a, 64)? as u64;
                let old = self.load_at(st, a, ty)?;
                let new = match &**k {
                    "xchg" => x,
                    "add" => bin_v(B::Add, ty, &old, &x)?,
                    "sub" => bin_v(B::Sub, ty, &old, &x)?,
                    "and" => bin_v(B::And, ty, &old, &x)?,
                    "or" => bin_v(B::Or, ty, &old, &x)?,
                    "xor" => bin_v(B::Xor, ty, &old, &x)?,
                    "umax" => maxv(Cmp::Ult, ty, &x, &old),
                    "umin" => minmax(Cmp::Ult, ty, &old, &x),
                    "max" => maxv(Cmp::Slt, ty, &x, &old),
                    "min" => minmax(Cmp::Slt, ty, &old, &x),
                    k => return Err(Ev::Fatal(format!("atomicrmw {}", k))),
                };
                self.store_at(st, a, ty, &new)?;
                set!(*d, old)
            }
            Inst::CmpXchg(d, a, ty, c, n) => {
                let (a, c, n) = (v!(a), v!(c), v!(n));
                let a = self.conc(st, &a, 64)? as u64;
                let old = self.load_at(st, a, ty)?;
                let w = ty.bits();
                let eq = cmp(Cmp::Eq, old.id(w), c.id(w));
                let new = sel_v(&V::from(eq), &n, &old, ty);
                self.store_at(st, a, ty, &new)?;
                set!(*d, V::Agg(Rc::new(vec![old, V::from(eq)])))
            }
            Inst::Nop => next!(),
            Inst::Br(b) => {
                self.goto(st, *b);
                Ok(())
            }
            Inst::CondBr(c, a, b) => {
                let c = v!(c);
                match c {
                    V::C(c) => {
                        self.goto(st, if c == 1 { *a } else { *b });
                        Ok(())
                    }
                    V::E(i) => {
                        let (a, b) = (*a, *b);
                        let here = self.branch(st, i, |s, o, side| s.goto(o, if side { a } else { b }));
                        self.goto(st, if here { a } else { b });
                        Ok(())
                    }
                    _ => Err(Ev::Fatal("br".into())),
                }
            }
            Inst::Switch(ty, x, def, cases) => {
                let x = v!(x);
                match x {
                    V::C(c) => {
                        let t = cases.iter().find(|(k, _)| *k == c).map(|k| k.1).unwrap_or(*def);
                        self.goto(st, t);
                        Ok(())
                    }
                    V::E(i) => {
                        let w = ty.bits();
                        let cur = eval(i, &st.model);
                        let mut targets: Vec<(u32, Id)> = vec![];
                        let mut any = konst(0, 1);
                        for (k, t) in cases {
                            let e = cmp(Cmp::Eq, i, konst(*k, w));
                            any = or1(any, e);
                            match targets.iter_mut().find(|x| x.0 == *t) {
                                Some(x) => x.1 = or1(x.1, e),
                                None => targets.push((*t, e)),
                            }
                        }
                        let nd = not(any);
                        match targets.iter_mut().find(|x| x.0 == *def) {
                            Some(x) => x.1 = or1(x.1, nd),
                            None => targets.push((*def, nd)),
                        }
                        let here = cases.iter().find(|(k, _)| *k == cur).map(|k| k.1).unwrap_or(*def);
                        let mut hc = 0;
                        let mut forked = false;
                        for (t, c) in &targets {
                            if *t == here {
                                hc = *c;
                                continue;
                            }
                            if let Feas::Yes(p) = self.feas(st, *c) {
                                self.st.forks += 1;
                                forked = true;
                                let mut o = st.clone();
                                o.depth += 1;
                                self.add(&mut o, *c, &p);
                                self.goto(&mut o, *t);
                                self.work.push_back(o);
                            }
                        }
                        if forked {
                            self.add(st, hc, &[]);
                            st.depth += 1;
                        }
                        self.goto(st, here);
                        Ok(())
                    }
                    _ => Err(Ev::Fatal("switch".into())),
                }
            }
            Inst::Ret(x) => {
                let r = x.as_ref().map(|x| v!(x));
                let fr = st.frames.pop().unwrap();
                st.stack.truncate(fr.stack_len);
                st.next_stack = fr.stack_addr;
                if st.frames.is_empty() {
                    if st.cur != 0 {
                        return Err(Ev::Fatal("thread returned".into()));
                    }
                    return Err(Ev::Done("ok"));
                }
                let up = Rc::make_mut(st.frames.last_mut().unwrap());
                if let (Some(d), Some(r)) = (fr.ret, r) {
                    up.regs[d as usize] = r;
                }
                up.pc += 1;
                Ok(())
            }
            Inst::Unreachable => Err(Ev::Viol("reached unreachable code".into(), self.where_(st))),
            Inst::Unsupported(s) => Err(Ev::Fatal(format!("unsupported: {}", s))),
            Inst::FRem(_) => Err(Ev::Fatal("frem".into())),
            Inst::Call(d, callee, args, rt) => {
                let vals: Vec<V> = args.iter().map(|(_, o)| v!(o)).collect();
                match callee {
                    Callee::Fn(id) => self.call(st, *id, vals, *d),
                    Callee::Ext(n) if &**n == "__sym_co_switch" => {
                        let to = self.conc(st, &vals[0], 32)? as usize;
                        Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
                        if to >= st.co.len() {
                            return Err(Ev::Fatal(format!("no thread {}", to)));
                        }
                        if to != st.cur {
                            let c = std::mem::take(&mut st.co[to]);
                            let o = Co {
                                frames: std::mem::replace(&mut st.frames, c.frames),
                                stack: std::mem::replace(&mut st.stack, c.stack),
                                next_stack: std::mem::replace(&mut st.next_stack, c.next_stack),
                            };
                            st.co[st.cur] = o;
                            st.cur = to;
                        }
                        Ok(())
                    }
                    Callee::Ext(n) => {
                        let n = n.clone();
                        let r = self.external(st, &n, args, &vals, rt)?;
                        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                        if let Some(d) = d {
                            fr.regs[*d as usize] = r;
                        }
                        fr.pc += 1;
                        Ok(())
                    }
                    Callee::Ind(o) => {
                        let a = v!(o);
                        let a = self.conc(st, &a, 64)? as u64;
                        match self.m.fn_at(a) {
                            Some(id) => {
                                if self.m.funcs[id as usize].body.is_some() {
                                    self.call(st, id, vals, *d)
                                } else {
                                    let n = self.m.funcs[id as usize].name.clone();
                                    let r = self.external(st, &n, args, &vals, rt)?;
                                    let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                                    if let Some(d) = d {
                                        fr.regs[*d as usize] = r;
                                    }
                                    fr.pc += 1;
                                    Ok(())
                                }
                            }
                            None => Err(self.fault(st, "call of a non-function", a)),
                        }
                    }
                    Callee::Asm => {
                        // cpuid and friends answer "nothing"
                        let z = zero_v(rt);
                        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                        if let Some(d) = d {
                            fr.regs[*d as usize] = z;
                        }
                        fr.pc += 1;
                        Ok(())
                    }
                }
            }
        }
    }

    fn call(&mut self, st: &mut State, id: u32, vals: Vec<V>, d: Option<u32>) -> R<()> {
        let name = self.m.funcs[id as usize].name.clone();
        if is_panic(&name) {
            return self.panic(st, &name, &vals);
        }
        // Digits of symbolic floats are left out of texts
        if name.contains("4core3fmt5float") && self.symbolic_float(st, &vals) {
            *self.unmodelled.entry("text of a symbolic float".into()).or_default() += 1;
            let f = Rc::make_mut(st.frames.last_mut().unwrap());
            if let Some(d) = d {
                f.regs[d as usize] = V::C(0);
            }
            f.pc += 1;
            return Ok(());
        }
        if st.frames.len() > 2000 {
            return Err(Ev::Viol("stack overflow (2000 frames)".into(), self.where_(st)));
        }
        let f = self.m.func(id);
        self.push_frame(st, id, f, vals, d);
        Ok(())
    }
    /// Is one of the arguments a symbolic float, or the first one a reference
    /// to one?
    fn symbolic_float(&mut self, st: &State, vals: &[V]) -> bool {
        if vals.iter().any(|v| matches!(v, V::E(_))) {
            return true;
        }
        match vals.first() {
            Some(V::C(a)) => matches!(self.load_at(st, *a as u64, &Ty::F64), Ok(V::E(_))),
            _ => false,
        }
    }
    fn panic(&mut self, st: &mut State, name: &str, vals: &[V]) -> R<()> {
        if st.expect_panic {
            return Err(Ev::Done("panic"));
        }
        let mut loc = String::new();
        if let Some(V::C(a)) = vals.last() {
            let a = *a as u64;
            if let Ok(o) = self.lookup(st, a, 24) {
                let off = (a - o.base) as usize;
                let g = |k: usize, n: usize| Self::read_scalar(&o, off + k, n).c().unwrap_or(0) as u64;
                let (p, n, line) = (g(0, 8), g(8, 8), g(16, 4));
                if n < 400 {
                    if let Ok(s) = self.str_at(st, p, n) {
                        loc = format!("{}:{}", s, line);
                    }
                }
            }
        }
        let w = self.where_(st);
        let kind = if name.contains("nounwind") { "panic (no unwind)" } else { "panic" };
        Err(Ev::Viol(format!("{} at {}", kind, loc), w))
    }

    fn bool_arg(&self, v: &V) -> Id {
        match v {
            V::C(c) => konst((*c & 1 != 0) as u128, 1),
            V::E(i) => {
                let w = width(*i);
                if w == 1 {
                    *i
                } else {
                    not(cmp(Cmp::Eq, *i, konst(0, w)))
                }
            }
            _ => konst(0, 1),
        }
    }
    fn fresh(&mut self, st: &mut State) -> u16 {
        let s = st.dom.len() as u16;
        st.dom.push(full());
        st.model.push(0);
        s
    }

    fn external(&mut self, st: &mut State, n: &str, args: &[(Ty, Opnd)], a: &[V], rt: &Ty) -> R<V> {
        if let Some(k) = n.strip_prefix("llvm.") {
            return self.intrinsic(st, k, args, a, rt);
        }
        let unit = V::C(0);
        macro_rules! c {
            ($i:expr, $w:expr) => {
                self.conc(st, &a[$i], $w)? as u64
            };
        }
        if is_panic(n) {
            self.panic(st, n, a)?;
        }
        match n {
            "__sym_bytes" => {
                let (p, len) = (c!(0, 64), c!(1, 64));
                for k in 0..len {
                    let s = self.fresh(st);
                    let e = sym(s);
                    self.store_at(st, p + k, &Ty::Int(8), &V::E(e))?;
                }
                Ok(unit)
            }
            "__sym_assume" => {
                let e = self.bool_arg(&a[0]);
                match as_const(e) {
                    Some(1) => Ok(unit),
                    Some(_) => Err(Ev::Kill),
                    None => match self.feas(st, e) {
                        Feas::Yes(p) => {
                            self.add(st, e, &p);
                            Ok(unit)
                        }
                        _ => Err(Ev::Kill),
                    },
                }
            }
            "__sym_assert" => {
                let e = self.bool_arg(&a[0]);
                let (p, len) = (c!(1, 64), c!(2, 64));
                self.st.asserts += 1;
                let id = self.str_at(st, p, len)?;
                match as_const(e) {
                    Some(1) => Ok(unit),
                    Some(_) => Err(Ev::Viol(format!("assertion {}", id), String::new())),
                    None => {
                        self.st.assert_queries += 1;
                        let ne = not(e);
                        // floating-point arithmetic on one byte is decided by its truth table
                        let r = if single_sym(nd(ne).mask).is_some() && has_fp(ne) { self.feas(st, ne) } else { self.z3(st, ne) };
                        match r {
                            Feas::Yes(m) => {
                                let mut bad = st.clone();
                                self.add(&mut bad, ne, &m);
                                self.violation(&bad, format!("assertion {}", id), String::new());
                                match self.feas(st, e) {
                                    Feas::Yes(p) => {
                                        self.add(st, e, &p);
                                        Ok(unit)
                                    }
                                    _ => Err(Ev::Kill),
                                }
                            }
                            Feas::No => Ok(unit),
                            Feas::Unk => Err(Ev::Kill),
                        }
                    }
                }
            }
            "__sym_cover" => {
                let (p, len) = (c!(0, 64), c!(1, 64));
                let id = self.str_at(st, p, len)?;
                let k = match self.cover_ids.iter().position(|x| *x == id) {
                    Some(k) => k,
                    None => {
                        self.cover_ids.push(id);
                        self.cover_ids.len() - 1
                    }
                };
                st.covers.push(k as u32);
                Ok(unit)
            }
            "__sym_known" => {
                let (p, len) = (c!(0, 64), c!(1, 64));
                let id = self.str_at(st, p, len)?;
                st.known = if id.is_empty() { None } else { Some(id.into()) };
                Ok(unit)
            }
            "__sym_log" => {
                let (p, len) = (c!(0, 64), c!(1, 64));
                let v = self.bytes_at(st, p, len)?;
                Rc::make_mut(&mut st.log).extend(v);
                Ok(unit)
            }
            "__sym_expect_panic" => {
                st.expect_panic = c!(0, 1) & 1 != 0;
                Ok(unit)
            }
            "__sym_concretize" => {
                let x = c!(0, 64);
                Ok(V::C(x as u128))
            }
            "__sym_co_new" => {
                let (f, arg) = (c!(0, 64), c!(1, 64));
                let Some(id) = self.m.fn_at(f) else { return Err(Ev::Fatal("thread without function".into())) };
                if st.co.is_empty() {
                    st.co.push(Co::default());
                }
                let t = st.co.len();
                let func = self.m.func(id);
                let keep = (std::mem::take(&mut st.frames), std::mem::take(&mut st.stack), st.next_stack);
                st.next_stack = STACK_BASE + ((t as u64) << CO_SHIFT);
                self.push_frame(st, id, func, vec![V::C(arg as u128)], None);
                let c = Co { frames: std::mem::replace(&mut st.frames, keep.0), stack: std::mem::replace(&mut st.stack, keep.1), next_stack: st.next_stack };
                st.next_stack = keep.2;
                st.co.push(c);
                Ok(V::C(t as u128))
            }
            "__sym_choice" => {
                // one symbolic byte below n, made concrete by forking
                let n = c!(0, 32);
                let s = st.dom.len();
                // re-execution after a fork must not create a second symbol
                let key = st.steps;
                let _ = key;
                let mut choices = vec![];
                for k in 0..n.min(256) {
                    choices.push(k as u8);
                }
                for k in (1..choices.len()).rev() {
                    let mut o = st.clone();
                    let mut d = [0u64; 4];
                    d[k / 64] |= 1 << (k % 64);
                    o.dom.push(d);
                    o.model.push(k as u8);
                    o.depth += 1;
                    self.st.forks += 1;
                    // result
                    let fr = Rc::make_mut(o.frames.last_mut().unwrap());
                    let f = fr.f.clone();
                    if let (Inst::Call(Some(d), ..), _) = &f.blocks[fr.blk as usize].insts[fr.pc as usize] {
                        fr.regs[*d as usize] = V::C(k as u128);
                    }
                    fr.pc += 1;
                    self.work.push_back(o);
                }
                let _ = s;
                st.dom.push([1, 0, 0, 0]);
                st.model.push(0);
                Ok(V::C(0))
            }
            "malloc" => {
                let s = c!(0, 64);
                if s > 1 << 32 {
                    return Err(Ev::Viol("huge allocation".into(), self.where_(st)));
                }
                Ok(V::C(self.alloc(st, s, 16) as u128))
            }
            "calloc" => {
                let s = c!(0, 64) * c!(1, 64);
                if s > 1 << 32 {
                    return Err(Ev::Viol("huge allocation".into(), self.where_(st)));
                }
                Ok(V::C(self.alloc(st, s, 16) as u128))
            }
            "aligned_alloc" | "memalign" => {
                let (al, s) = (c!(0, 64), c!(1, 64));
                Ok(V::C(self.alloc(st, s, al) as u128))
            }
            "posix_memalign" => {
                let (p, al, s) = (c!(0, 64), c!(1, 64), c!(2, 64));
                let m = self.alloc(st, s, al);
                self.store_at(st, p, &Ty::Ptr, &V::C(m as u128))?;
                Ok(V::C(0))
            }
            "realloc" => {
                let (p, s) = (c!(0, 64), c!(1, 64));
                if s > 1 << 32 {
                    return Err(Ev::Viol("huge allocation".into(), self.where_(st)));
                }
                let o = self.lookup(st, p, 0)?;
                let old = o.size.min(s);
                drop(o);
                let m = self.alloc(st, s, 16);
                self.copy_mem(st, m, p, old)?;
                self.with_mut(st, p, 0, |o, _| {
                    o.dead = true;
                    o.data = vec![];
                    o.sym = vec![];
                })?;
                Ok(V::C(m as u128))
            }
            "free" => {
                let p = c!(0, 64);
                if p != 0 {
                    let off = self.with_mut(st, p, 0, |o, off| {
                        o.dead = true;
                        o.data = vec![];
                        o.sym = vec![];
                        off
                    })?;
                    if off != 0 {
                        return Err(self.fault(st, "free of an interior pointer", p));
                    }
                }
                Ok(unit)
            }
            "bcmp" | "memcmp" => {
                let (p, q, len) = (c!(0, 64), c!(1, 64), c!(2, 64));
                let x = self.bytes_at(st, p, len)?;
                let y = self.bytes_at(st, q, len)?;
                // concrete prefix
                let mut k = 0;
                while k < x.len() {
                    match (x[k].c(), y[k].c()) {
                        (Some(a), Some(b)) if a == b => k += 1,
                        (Some(a), Some(b)) => {
                            return Ok(V::C(if a < b { 0xffff_ffff } else { 1 }));
                        }
                        _ => break,
                    }
                }
                if n == "bcmp" {
                    let mut eq = konst(1, 1);
                    for i in k..x.len() {
                        eq = and1(eq, cmp(Cmp::Eq, x[i].id(8), y[i].id(8)));
                    }
                    return Ok(V::from(zext(not(eq), 32)));
                }
                let mut acc = konst(0, 32);
                for i in (k..x.len()).rev() {
                    let (p, q) = (x[i].id(8), y[i].id(8));
                    let eq = cmp(Cmp::Eq, p, q);
                    let lt = cmp(Cmp::Ult, p, q);
                    acc = ite(eq, acc, ite(lt, konst(0xffff_ffff, 32), konst(1, 32)));
                }
                Ok(V::from(acc))
            }
            "memcpy" | "memmove" => {
                let (d, s, len) = (c!(0, 64), c!(1, 64), c!(2, 64));
                self.copy_mem(st, d, s, len)?;
                Ok(V::C(d as u128))
            }
            "memchr" => {
                let (p, ch, len) = (c!(0, 64), c!(1, 32), c!(2, 64));
                let x = self.bytes_at(st, p, len)?;
                let mut acc = konst(0, 64);
                for i in (0..x.len()).rev() {
                    let eq = cmp(Cmp::Eq, x[i].id(8), konst(ch as u128 & 255, 8));
                    acc = ite(eq, konst((p + i as u64) as u128, 64), acc);
                }
                Ok(V::from(acc))
            }
            "strlen" => {
                let p = c!(0, 64);
                let mut k = 0;
                loop {
                    let b = self.load_at(st, p + k, &Ty::Int(8))?;
                    let b = self.conc(st, &b, 8)?;
                    if b == 0 {
                        break;
                    }
                    k += 1;
                }
                Ok(V::C(k as u128))
            }
            "getenv" | "secure_getenv" => Ok(V::C(0)),
            "getrandom" => {
                let (p, len) = (c!(0, 64), c!(1, 64));
                for k in 0..len {
                    self.store_at(st, p + k, &Ty::Int(8), &V::C((0x41 + k as u128 * 7) & 255))?;
                }
                Ok(V::C(len as u128))
            }
            "write" => {
                let len = c!(2, 64);
                Ok(V::C(len as u128))
            }
            "pthread_self" | "gettid" | "getpid" => Ok(V::C(1)),
            "pthread_mutex_lock" | "pthread_mutex_unlock" | "__cxa_thread_atexit_impl" | "sched_yield"
            | "pthread_attr_destroy" | "__cxa_atexit" => Ok(V::C(0)),
            "pthread_key_create" => {
                let p = c!(0, 64);
                self.store_at(st, p, &Ty::Int(32), &V::C(1))?;
                Ok(V::C(0))
            }
            "pthread_setspecific" | "pthread_key_delete" => Ok(V::C(0)),
            "sysconf" => Ok(V::C(4096)),
            "__errno_location" => {
                let k = self.m.globals.len() as u64;
                let _ = k;
                Ok(V::C(self.alloc(st, 8, 16) as u128))
            }
            "abort" => {
                if st.expect_panic {
                    return Err(Ev::Done("panic"));
                }
                Err(Ev::Viol("abort".into(), self.where_(st)))
            }
            "exit" | "_exit" => Err(Ev::Done("ok")),
            // no terminal, no metadata of files
            "isatty" => Ok(V::C(0)),
            "ioctl" | "fstat64" | "fstat" | "statx" => Ok(V::C(0xffff_ffff)),
            "lseek64" | "lseek" => Ok(V::C(u64::MAX as u128)),
            "syscall" if a.first().and_then(|x| x.c()) == Some(332) => Ok(V::C(u64::MAX as u128)),
            "syscall" => {
                *self.unmodelled.entry(format!("syscall {:?}", a.first().and_then(|x| x.c()))).or_insert(0) += 1;
                Ok(V::C(0))
            }
            "clock_gettime" => {
                let p = c!(1, 64);
                self.store_at(st, p, &Ty::Int(64), &V::C(1000))?;
                self.store_at(st, p + 8, &Ty::Int(64), &V::C(0))?;
                Ok(V::C(0))
            }
            // libm on concrete values only
            "fmod" | "pow" | "exp" | "log" | "log2" | "log10" | "powf" | "fmodf" | "logf" | "log10f" => {
                let w = rt.bits();
                let x: Vec<u128> = a.iter().map(|v| v.c()).collect::<Option<Vec<_>>>().ok_or_else(|| Ev::Fatal(format!("symbolic {}", n)))?;
                let g = |k: usize| if w == 32 { f32::from_bits(x[k] as u32) as f64 } else { f64::from_bits(x[k] as u64) };
                let r = match n {
                    "fmod" | "fmodf" => g(0) % g(1),
                    "pow" | "powf" => g(0).powf(g(1)),
                    "exp" => g(0).exp(),
                    "log" | "logf" => g(0).ln(),
                    "log2" => g(0).log2(),
                    _ => g(0).log10(),
                };
                Ok(V::C(if w == 32 { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 }))
            }
            _ => Err(Ev::Fatal(format!("external function {}", n))),
        }
    }

    fn intrinsic(&mut self, st: &mut State, k: &str, args: &[(Ty, Opnd)], a: &[V], rt: &Ty) -> R<V> {
        let unit = V::C(0);
        macro_rules! c {
            ($i:expr, $w:expr) => {
                self.conc(st, &a[$i], $w)? as u64
            };
        }
        if k.starts_with("lifetime") || k.starts_with("dbg") || k.starts_with("experimental.noalias") || k == "assume"
            || k.starts_with("prefetch") || k.starts_with("invariant") || k.starts_with("donothing") || k.starts_with("sideeffect")
            || k.starts_with("x86.sse2.pause") || k.starts_with("va_")
        {
            return Ok(unit);
        }
        let base = k.split('.').next().unwrap();
        match base {
            "memcpy" | "memmove" => {
                let (d, s, n) = (c!(0, 64), c!(1, 64), c!(2, args[2].0.bits()));
                self.copy_mem(st, d, s, n)?;
                return Ok(unit);
            }
            "memset" => {
                let (d, n) = (c!(0, 64), c!(2, args[2].0.bits()));
                if n > 0 {
                    let b = a[1].clone();
                    self.with_mut(st, d, n, |o, off| {
                        let n = n as usize;
                        match b {
                            V::C(c) => {
                                for x in &mut o.data[off..off + n] {
                                    *x = c as u8;
                                }
                                if !o.sym.is_empty() {
                                    for x in &mut o.sym[off..off + n] {
                                        *x = 0;
                                    }
                                }
                            }
                            V::E(i) => {
                                if o.sym.is_empty() {
                                    o.sym = vec![0; o.size as usize];
                                }
                                for x in &mut o.sym[off..off + n] {
                                    *x = i;
                                }
                            }
                            _ => {}
                        }
                    })?;
                }
                return Ok(unit);
            }
            "threadlocal" if st.cur != 0 => {
                // a copy per thread, made when the thread first uses it
                let g = match a[0].c() {
                    Some(g) => g as u64,
                    None => return Err(Ev::Fatal("symbolic thread-local address".into())),
                };
                if let Some(p) = st.tls.get(&(st.cur, g)) {
                    return Ok(V::C(*p as u128));
                }
                let k = self.gidx.partition_point(|b| *b <= g) as u32 - 1;
                let gl = &self.m.globals[k as usize];
                let (size, base) = (gl.size, gl.addr);
                if base != g {
                    return Err(Ev::Fatal("inside of a thread-local variable".into()));
                }
                let data = self.m.global_bytes(k);
                let p = self.alloc(st, size, 64);
                self.with_mut(st, p, size, |o, off| o.data[off..off + data.len()].copy_from_slice(&data))?;
                Rc::make_mut(&mut st.tls).insert((st.cur, g), p);
                return Ok(V::C(p as u128));
            }
            "threadlocal" | "expect" | "launder" | "strip" | "ssa" | "annotation" => return Ok(a[0].clone()),
            "is" if k.contains("is.fpclass") => {
                let w = if k.ends_with("f32") { 32 } else { 64 };
                let frac = if w == 32 { 23 } else { 52 };
                let x = a[0].id(w);
                let m = a[1].c().unwrap_or(0) as u32;
                let mag = bin(B::And, x, konst(mask_w(w) >> 1, w));
                let neg = not(cmp(Cmp::Eq, bin(B::And, x, konst(1u128 << (w - 1), w)), konst(0, w)));
                let inf = konst(mask_w(w) >> 1 & !((1u128 << frac) - 1), w);
                let quiet = bin(B::Or, inf, konst(1u128 << (frac - 1), w));
                let norm = konst(1u128 << frac, w);
                let nan = cmp(Cmp::Ult, inf, mag);
                let snan = and1(nan, cmp(Cmp::Ult, mag, quiet));
                let qnan = and1(nan, not(cmp(Cmp::Ult, mag, quiet)));
                let i = cmp(Cmp::Eq, mag, inf);
                let z = cmp(Cmp::Eq, mag, konst(0, w));
                let sub = and1(not(z), cmp(Cmp::Ult, mag, norm));
                let nor = and1(not(cmp(Cmp::Ult, mag, norm)), cmp(Cmp::Ult, mag, inf));
                let cls = [snan, qnan, and1(neg, i), and1(neg, nor), and1(neg, sub), and1(neg, z), and1(not(neg), z), and1(not(neg), sub), and1(not(neg), nor), and1(not(neg), i)];
                let mut r = konst(0, 1);
                for (k, c) in cls.iter().enumerate() {
                    if m >> k & 1 == 1 {
                        r = or1(r, *c);
                    }
                }
                return Ok(V::from(r));
            }
            "is" => return Ok(V::C(0)),
            "trap" | "ubsantrap" => {
                if st.expect_panic {
                    return Err(Ev::Done("panic"));
                }
                return Err(Ev::Viol("trap".into(), self.where_(st)));
            }
            "load" => {
                // load.relative
                let (p, o) = (c!(0, 64), c!(1, 64));
                let v = self.load_at(st, p.wrapping_add(o), &Ty::Int(32))?;
                let v = self.conc(st, &v, 32)?;
                return Ok(V::C(p.wrapping_add(sext_to_i128(v, 32) as u64) as u128));
            }
            "x86" => return Ok(zero_v(rt)),
            _ => {}
        }
        // lane-wise
        if let Ty::Vec(n, e) = rt {
            if !k.contains("reduce") {
                let mut out = vec![];
                for i in 0..*n as usize {
                    let la: Vec<V> = a
                        .iter()
                        .map(|x| match x {
                            V::Agg(v) => v[i].clone(),
                            x => x.clone(),
                        })
                        .collect();
                    let aa: Vec<(Ty, Opnd)> = args
                        .iter()
                        .map(|(t, o)| (if t.is_agg() { t.elem(i) } else { t.clone() }, o.clone()))
                        .collect();
                    out.push(scalar_intrinsic(base, k, &aa, &la, e)?);
                }
                return Ok(V::Agg(Rc::new(out)));
            }
        }
        scalar_intrinsic(base, k, args, a, rt)
    }
}

fn is_panic(n: &str) -> bool {
    if !(n.contains("panic") || n.contains("alloc_error") || n.contains("terminate")) {
        return false;
    }
    n.contains("9panicking9panic_fmt")
        || n.contains("9panicking18panic_nounwind_fmt")
        || n.contains("3std9panicking")
        || n.contains("rust_panic")
        || n.contains("handle_alloc_error")
        || n.contains("rust_begin_unwind")
        || n.contains("_Unwind_RaiseException")
}

fn zero_v(t: &Ty) -> V {
    match t {
        Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => V::Agg(Rc::new((0..t.count()).map(|k| zero_v(&t.elem(k))).collect())),
        _ => V::C(0),
    }
}
fn insert_v(a: &V, ty: &Ty, x: &V, ix: &[u32]) -> V {
    if ix.is_empty() {
        return x.clone();
    }
    let mut v: Vec<V> = match a {
        V::Agg(v) => (**v).clone(),
        _ => (0..ty.count()).map(|k| zero_v(&ty.elem(k))).collect(),
    };
    let k = ix[0] as usize;
    v[k] = insert_v(&v[k].clone(), &ty.elem(k), x, &ix[1..]);
    V::Agg(Rc::new(v))
}
fn sel_v(c: &V, a: &V, b: &V, ty: &Ty) -> V {
    match c {
        V::C(c) => {
            if *c & 1 == 1 {
                a.clone()
            } else {
                b.clone()
            }
        }
        V::E(i) => match (a, b) {
            (V::Agg(x), V::Agg(y)) => V::Agg(Rc::new((0..x.len()).map(|k| sel_v(c, &x[k], &y[k], &ty.elem(k))).collect())),
            _ => V::from(ite(*i, a.id(ty.bits()), b.id(ty.bits()))),
        },
        _ => panic!("select"),
    }
}
fn minmax(k: Cmp, ty: &Ty, x: &V, y: &V) -> V {
    // x <k y ? x : y
    let w = ty.bits();
    sel_v(&V::from(cmp(k, x.id(w), y.id(w))), x, y, ty)
}
fn maxv(k: Cmp, ty: &Ty, x: &V, y: &V) -> V {
    // x <k y ? y : x
    let w = ty.bits();
    sel_v(&V::from(cmp(k, x.id(w), y.id(w))), y, x, ty)
}
fn bin_v(b: B, ty: &Ty, x: &V, y: &V) -> R<V> {
    if let (V::Agg(p), V::Agg(q)) = (x, y) {
        let mut out = Vec::with_capacity(p.len());
        for k in 0..p.len() {
            out.push(bin_v(b, &ty.elem(k), &p[k], &q[k])?);
        }
        return Ok(V::Agg(Rc::new(out)));
    }
    let w = ty.bits();
    if w > 128 || w == 0 {
        // wide integers only occur as bags of bits
        return Err(Ev::Fatal(format!("{:?} on {:?}", b, ty)));
    }
    if let (V::C(p), V::C(q)) = (x, y) {
        return Ok(V::C(fold_bin(b, *p, *q, w)));
    }
    Ok(V::from(bin(b, x.id(w), y.id(w))))
}
fn cmp_v(p: Pred, ty: &Ty, x: &V, y: &V) -> R<V> {
    if let (V::Agg(a), V::Agg(b)) = (x, y) {
        let mut out = Vec::with_capacity(a.len());
        for k in 0..a.len() {
            out.push(cmp_v(p, &ty.elem(k), &a[k], &b[k])?);
        }
        return Ok(V::Agg(Rc::new(out)));
    }
    let w = ty.bits();
    if w > 128 {
        return Err(Ev::Fatal(format!("cmp on {:?}", ty)));
    }
    use Pred::*;
    let (i, j) = match (x, y) {
        (V::C(a), V::C(b)) => {
            let (a, b) = (*a, *b);
            let f = |k: Cmp, a: u128, b: u128| fold_cmp(k, a, b, w);
            let r = match p {
                Eq => a == b,
                Ne => a != b,
                Ugt => a > b,
                Uge => a >= b,
                Ult => a < b,
                Ule => a <= b,
                Sgt => f(Cmp::Slt, b, a),
                Sge => f(Cmp::Sle, b, a),
                Slt => f(Cmp::Slt, a, b),
                Sle => f(Cmp::Sle, a, b),
                FFalse => false,
                FTrue => true,
                FOeq => f(Cmp::FOeq, a, b),
                FOgt => f(Cmp::FOlt, b, a),
                FOge => f(Cmp::FOle, b, a),
                FOlt => f(Cmp::FOlt, a, b),
                FOle => f(Cmp::FOle, a, b),
                FOne => f(Cmp::FOlt, a, b) || f(Cmp::FOlt, b, a),
                FOrd => !f(Cmp::FUno, a, b),
                FUno => f(Cmp::FUno, a, b),
                FUeq => f(Cmp::FUno, a, b) || f(Cmp::FOeq, a, b),
                FUne => !f(Cmp::FOeq, a, b),
                FUgt => !f(Cmp::FOle, a, b),
                FUge => !f(Cmp::FOlt, a, b),
                FUlt => !f(Cmp::FOle, b, a),
                FUle => !f(Cmp::FOlt, b, a),
            };
            return Ok(V::C(r as u128));
        }
        _ => (x.id(w), y.id(w)),
    };
    let r = match p {
        Eq => cmp(Cmp::Eq, i, j),
        Ne => not(cmp(Cmp::Eq, i, j)),
        Ugt => cmp(Cmp::Ult, j, i),
        Uge => cmp(Cmp::Ule, j, i),
        Ult => cmp(Cmp::Ult, i, j),
        Ule => cmp(Cmp::Ule, i, j),
        Sgt => cmp(Cmp::Slt, j, i),
        Sge => cmp(Cmp::Sle, j, i),
        Slt => cmp(Cmp::Slt, i, j),
        Sle => cmp(Cmp::Sle, i, j),
        FFalse => konst(0, 1),
        FTrue => konst(1, 1),
        FOeq => cmp(Cmp::FOeq, i, j),
        FOgt => cmp(Cmp::FOlt, j, i),
        FOge => cmp(Cmp::FOle, j, i),
        FOlt => cmp(Cmp::FOlt, i, j),
        FOle => cmp(Cmp::FOle, i, j),
        FOne => or1(cmp(Cmp::FOlt, i, j), cmp(Cmp::FOlt, j, i)),
        FOrd => not(cmp(Cmp::FUno, i, j)),
        FUno => cmp(Cmp::FUno, i, j),
        FUeq => or1(cmp(Cmp::FUno, i, j), cmp(Cmp::FOeq, i, j)),
        FUne => not(cmp(Cmp::FOeq, i, j)),
        FUgt => not(cmp(Cmp::FOle, i, j)),
        FUge => not(cmp(Cmp::FOlt, i, j)),
        FUlt => not(cmp(Cmp::FOle, j, i)),
        FUle => not(cmp(Cmp::FOlt, j, i)),
    };
    Ok(V::from(r))
}
fn cast_v(k: &str, t1: &Ty, x: &V, t2: &Ty) -> R<V> {
    if k == "bitcast" && (t1.is_agg() || t2.is_agg()) {
        // via the bit image
        let total = match t1 {
            Ty::Vec(n, e) => *n as u32 * e.bits(),
            t => t.bits(),
        };
        if total > 128 {
            if let (Ty::Vec(n1, _), Ty::Vec(n2, _)) = (t1, t2) {
                if n1 == n2 {
                    return Ok(x.clone());
                }
            }
            return Err(Ev::Fatal("wide bitcast".into()));
        }
        let img = match (t1, x) {
            (Ty::Vec(_, e), V::Agg(v)) => {
                let mut acc = v[0].id(e.bits());
                for y in &v[1..] {
                    acc = concat(y.id(e.bits()), acc);
                }
                acc
            }
            (t, v) => v.id(t.bits()),
        };
        return Ok(match t2 {
            Ty::Vec(n, e) => V::Agg(Rc::new((0..*n as u32).map(|k| V::from(extract(img, k * e.bits(), e.bits()))).collect())),
            _ => V::from(img),
        });
    }
    if let V::Agg(v) = x {
        let mut out = Vec::with_capacity(v.len());
        for (i, y) in v.iter().enumerate() {
            out.push(cast_v(k, &t1.elem(i), y, &t2.elem(i))?);
        }
        return Ok(V::Agg(Rc::new(out)));
    }
    let (w1, w2) = (t1.bits(), t2.bits());
    if w1 > 128 || w2 > 128 {
        return Err(Ev::Fatal(format!("cast {} {:?} to {:?}", k, t1, t2)));
    }
    match k {
        "zext" => Ok(match x {
            V::C(c) => V::C(*c),
            V::E(i) => V::from(zext(*i, w2)),
            _ => unreachable!(),
        }),
        "sext" => Ok(match x {
            V::C(c) => V::C((sext_to_i128(*c, w1) as u128) & mask_w(w2)),
            V::E(i) => V::from(sext(*i, w2)),
            _ => unreachable!(),
        }),
        "trunc" => Ok(match x {
            V::C(c) => V::C(*c & mask_w(w2)),
            V::E(i) => V::from(extract(*i, 0, w2)),
            _ => unreachable!(),
        }),
        "ptr" => Ok(match x {
            V::C(c) => V::C(*c & mask_w(w2)),
            V::E(i) => {
                if w2 == w1 {
                    x.clone()
                } else if w2 < w1 {
                    V::from(extract(*i, 0, w2))
                } else {
                    V::from(zext(*i, w2))
                }
            }
            _ => unreachable!(),
        }),
        "bitcast" => Ok(x.clone()),
        "fptoui" => Ok(V::from(un(U::FToUI, x.id(w1), w2))),
        "fptosi" => Ok(V::from(un(U::FToSI, x.id(w1), w2))),
        "uitofp" => Ok(V::from(un(U::UIToF, x.id(w1), w2))),
        "sitofp" => Ok(V::from(un(U::SIToF, x.id(w1), w2))),
        "fcvt" => Ok(V::from(un(U::FCvt, x.id(w1), w2))),
        _ => Err(Ev::Fatal(format!("cast {}", k))),
    }
}

fn scalar_intrinsic(base: &str, k: &str, args: &[(Ty, Opnd)], a: &[V], rt: &Ty) -> R<V> {
    let w = args.first().map(|x| x.0.bits()).unwrap_or(0);
    let pair = |r: Id, o: Id| V::Agg(Rc::new(vec![V::from(r), V::from(o)]));
    let x = |i: usize| a[i].id(args[i].0.bits());
    let one = |b: bool| konst(b as u128, 1);
    let ty = &args[0].0;
    if k.contains(".with.overflow") {
        let (p, q) = (x(0), x(1));
        let signed = base.starts_with('s');
        let op = match &base[1..] {
            "add" => B::Add,
            "sub" => B::Sub,
            "mul" => B::Mul,
            _ => return Err(Ev::Fatal(k.into())),
        };
        let r = bin(op, p, q);
        if let (Some(a), Some(b)) = (as_const(p), as_const(q)) {
            let o = if signed {
                let (a, b) = (sext_to_i128(a, w), sext_to_i128(b, w));
                let t = match op {
                    B::Add => a.checked_add(b),
                    B::Sub => a.checked_sub(b),
                    _ => a.checked_mul(b),
                };
                match t {
                    Some(t) => sext_to_i128((t as u128) & mask_w(w), w) != t,
                    None => true,
                }
            } else {
                match op {
                    B::Add => a.checked_add(b).map(|t| t > mask_w(w)).unwrap_or(true),
                    B::Sub => a < b,
                    _ => a.checked_mul(b).map(|t| t > mask_w(w)).unwrap_or(true),
                }
            };
            return Ok(pair(r, one(o)));
        }
        let o = if signed {
            if w * 2 <= 128 {
                let w2 = w * 2;
                let wide = bin(op, sext(p, w2), sext(q, w2));
                not(cmp(Cmp::Eq, wide, sext(r, w2)))
            } else {
                return Err(Ev::Fatal(k.into()));
            }
        } else {
            match op {
                B::Add => cmp(Cmp::Ult, r, p),
                B::Sub => cmp(Cmp::Ult, p, q),
                _ => {
                    if let Some(c) = as_const(q).or(as_const(p)) {
                        // multiplication by a constant: compare with the largest safe factor
                        let s = if as_const(q).is_some() { p } else { q };
                        if c == 0 {
                            one(false)
                        } else {
                            cmp(Cmp::Ult, konst(mask_w(w) / c, w), s)
                        }
                    } else if w * 2 <= 128 {
                        let w2 = w * 2;
                        let wide = bin(B::Mul, zext(p, w2), zext(q, w2));
                        not(cmp(Cmp::Eq, extract(wide, w, w), konst(0, w)))
                    } else {
                        return Err(Ev::Fatal(k.into()));
                    }
                }
            }
        };
        return Ok(pair(r, o));
    }
    if k.starts_with("uadd.sat") {
        let r = bin(B::Add, x(0), x(1));
        return Ok(V::from(ite(cmp(Cmp::Ult, r, x(0)), konst(mask_w(w), w), r)));
    }
    if k.starts_with("usub.sat") {
        let r = bin(B::Sub, x(0), x(1));
        return Ok(V::from(ite(cmp(Cmp::Ult, x(0), x(1)), konst(0, w), r)));
    }
    if k.starts_with("sadd.sat") || k.starts_with("ssub.sat") {
        let op = if k.starts_with("sadd") { B::Add } else { B::Sub };
        let w2 = w + 1;
        let r = bin(op, sext(x(0), w2), sext(x(1), w2));
        let max = konst(mask_w(w) >> 1, w2);
        let min = sext(konst((mask_w(w) >> 1) + 1, w), w2);
        let r = ite(cmp(Cmp::Slt, max, r), max, ite(cmp(Cmp::Slt, r, min), min, r));
        return Ok(V::from(extract(r, 0, w)));
    }
    match base {
        "umax" => Ok(maxv(Cmp::Ult, ty, &a[1], &a[0])),
        "umin" => Ok(minmax(Cmp::Ult, ty, &a[0], &a[1])),
        "smax" => Ok(maxv(Cmp::Slt, ty, &a[1], &a[0])),
        "smin" => Ok(minmax(Cmp::Slt, ty, &a[0], &a[1])),
        "abs" => {
            let n = bin(B::Sub, konst(0, w), x(0));
            Ok(V::from(ite(cmp(Cmp::Slt, x(0), konst(0, w)), n, x(0))))
        }
        "ucmp" | "scmp" => {
            let c = if base == "ucmp" { Cmp::Ult } else { Cmp::Slt };
            let r = rt.bits();
            let lt = cmp(c, x(0), x(1));
            let eq = cmp(Cmp::Eq, x(0), x(1));
            Ok(V::from(ite(eq, konst(0, r), ite(lt, konst(mask_w(r), r), konst(1, r)))))
        }
        "ctpop" => {
            let p = x(0);
            if let Some(c) = as_const(p) {
                return Ok(V::C(c.count_ones() as u128));
            }
            let mut acc = konst(0, w);
            for i in 0..w {
                acc = bin(B::Add, acc, zext(extract(p, i, 1), w));
            }
            Ok(V::from(acc))
        }
        "ctlz" | "cttz" => {
            let p = x(0);
            if let Some(c) = as_const(p) {
                let r = if c == 0 {
                    w
                } else if base == "ctlz" {
                    c.leading_zeros() - (128 - w)
                } else {
                    c.trailing_zeros()
                };
                return Ok(V::C(r as u128));
            }
            let mut acc = konst(w as u128, w);
            let order: Vec<u32> = if base == "ctlz" { (0..w).collect() } else { (0..w).rev().collect() };
            for i in order {
                let v = if base == "ctlz" { w - 1 - i } else { i };
                let b = extract(p, i, 1);
                acc = ite(b, konst(v as u128, w), acc);
            }
            Ok(V::from(acc))
        }
        "bswap" => {
            let p = x(0);
            let mut acc = extract(p, 0, 8);
            for i in 1..w / 8 {
                acc = concat(acc, extract(p, i * 8, 8));
            }
            Ok(V::from(acc))
        }
        "bitreverse" => {
            let p = x(0);
            let mut acc = extract(p, 0, 1);
            for i in 1..w {
                acc = concat(acc, extract(p, i, 1));
            }
            Ok(V::from(acc))
        }
        "fshl" | "fshr" => {
            let (h, l, s) = (x(0), x(1), x(2));
            if let Some(s) = as_const(s) {
                let s = (s % w as u128) as u32;
                let r = if base == "fshl" {
                    if s == 0 {
                        h
                    } else {
                        concat(extract(h, 0, w - s), extract(l, w - s, s))
                    }
                } else if s == 0 {
                    l
                } else {
                    concat(extract(h, 0, s), extract(l, s, w - s))
                };
                return Ok(V::from(r));
            }
            let sm = bin(B::URem, s, konst(w as u128, w));
            let inv = bin(B::Sub, konst(w as u128, w), sm);
            let r = if base == "fshl" {
                bin(B::Or, bin(B::Shl, h, sm), bin(B::LShr, l, inv))
            } else {
                bin(B::Or, bin(B::Shl, h, inv), bin(B::LShr, l, sm))
            };
            Ok(V::from(r))
        }
        "fabs" => Ok(V::from(bin(B::And, x(0), konst(mask_w(w) >> 1, w)))),
        "copysign" => {
            let m = bin(B::And, x(0), konst(mask_w(w) >> 1, w));
            let s = bin(B::And, x(1), konst(1u128 << (w - 1), w));
            Ok(V::from(bin(B::Or, m, s)))
        }
        "sqrt" => Ok(V::from(un(U::FSqrt, x(0), w))),
        "floor" => Ok(V::from(un(U::FFloor, x(0), w))),
        "ceil" => Ok(V::from(un(U::FCeil, x(0), w))),
        "trunc" => Ok(V::from(un(U::FTrunc, x(0), w))),
        "rint" | "nearbyint" | "roundeven" => Ok(V::from(un(U::FRoundEven, x(0), w))),
        "round" => Ok(V::from(un(U::FRoundAway, x(0), w))),
        "fptoui" | "fptosi" => {
            // .sat
            let r = rt.bits();
            let p = x(0);
            if let Some(c) = as_const(p) {
                let f = if w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
                let v = if base == "fptoui" {
                    (f as u128).min(mask_w(r))
                } else {
                    let hi = (mask_w(r) >> 1) as i128;
                    ((f as i128).clamp(-hi - 1, hi) as u128) & mask_w(r)
                };
                return Ok(V::C(v));
            }
            let fk = |v: f64| if w == 32 { konst((v as f32).to_bits() as u128, 32) } else { konst(v.to_bits() as u128, 64) };
            let nan = cmp(Cmp::FUno, p, p);
            if base == "fptoui" {
                let lim = fk(2f64.powi(r as i32));
                let big = cmp(Cmp::FOle, lim, p);
                let neg = cmp(Cmp::FOle, p, fk(0.0));
                let mid = un(U::FToUI, p, r);
                Ok(V::from(ite(nan, konst(0, r), ite(neg, konst(0, r), ite(big, konst(mask_w(r), r), mid)))))
            } else {
                let lim = fk(2f64.powi(r as i32 - 1));
                let big = cmp(Cmp::FOle, lim, p);
                let small = cmp(Cmp::FOle, p, fk(-(2f64.powi(r as i32 - 1))));
                let mid = un(U::FToSI, p, r);
                Ok(V::from(ite(
                    nan,
                    konst(0, r),
                    ite(small, konst((mask_w(r) >> 1) + 1, r), ite(big, konst(mask_w(r) >> 1, r), mid)),
                )))
            }
        }
        "maxnum" | "minnum" | "maximumnum" | "minimumnum" => {
            let (p, q) = (x(0), x(1));
            let pn = cmp(Cmp::FUno, p, p);
            let qn = cmp(Cmp::FUno, q, q);
            let c = if base.starts_with("max") { cmp(Cmp::FOlt, p, q) } else { cmp(Cmp::FOlt, q, p) };
            Ok(V::from(ite(pn, q, ite(qn, p, ite(c, q, p)))))
        }
        "vector" => {
            // vector.reduce.<op>
            let op = k.split('.').nth(2).unwrap_or("");
            let e = args[0].0.elem(0);
            if let V::Agg(v) = &a[0] {
                let mut acc = v[0].clone();
                for y in &v[1..] {
                    acc = match op {
                        "add" => bin_v(B::Add, &e, &acc, y)?,
                        "mul" => bin_v(B::Mul, &e, &acc, y)?,
                        "and" => bin_v(B::And, &e, &acc, y)?,
                        "or" => bin_v(B::Or, &e, &acc, y)?,
                        "xor" => bin_v(B::Xor, &e, &acc, y)?,
                        "umax" => maxv(Cmp::Ult, &e, y, &acc),
                        "umin" => minmax(Cmp::Ult, &e, &acc, y),
                        "smax" => maxv(Cmp::Slt, &e, y, &acc),
                        "smin" => minmax(Cmp::Slt, &e, &acc, y),
                        _ => return Err(Ev::Fatal(k.into())),
                    };
                }
                return Ok(acc);
            }
            Err(Ev::Fatal(k.into()))
        }
        _ => Err(Ev::Fatal(format!("intrinsic llvm.{}", k))),
    }
}
