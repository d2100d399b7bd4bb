//! Reader for the textual LLVM IR that rustc emits (lazy: bodies on first call).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    F32,
    F64,
    Void,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u64, Rc<Ty>),
    Other,
}
impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w.div_ceil(8) {
                0 | 1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(n, t) => (n * t.bits() as u64).div_ceil(8).next_power_of_two(),
            _ => 1,
        }
    }
    /// bytes written by a store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => w.div_ceil(8) as u64,
            Ty::Vec(n, t) => (n * t.bits() as u64).div_ceil(8),
            t => t.size(),
        }
    }
    /// allocation size (with padding)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => {
                let s = self.store_size();
                let a = self.align();
                s.div_ceil(a) * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = o.div_ceil(a) * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = o.div_ceil(a) * a;
                }
                o
            }
            Ty::Vec(n, t) => {
                let s = (n * t.bits() as u64).div_ceil(8);
                let a = self.align();
                s.div_ceil(a) * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = o.div_ceil(a) * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    C(u128),
    Agg(Rc<Vec<Opnd>>),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ext(Rc<str>),
    Ind(Opnd),
    Asm,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
    FFalse,
    FOeq,
    FOgt,
    FOge,
    FOlt,
    FOle,
    FOne,
    FOrd,
    FUeq,
    FUgt,
    FUge,
    FUlt,
    FUle,
    FUne,
    FUno,
    FTrue,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(u32, crate::expr::B, Ty, Opnd, Opnd),
    FRem(u32),
    FNeg(u32, Ty, Opnd),
    Cmp(u32, Pred, Ty, Opnd, Opnd),
    Cast(u32, &'static str, Ty, Opnd, Ty),
    Load(u32, Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(u32, Opnd, i64, Vec<(Opnd, u32, u64)>),
    Call(Option<u32>, Callee, Vec<(Ty, Opnd)>, Ty),
    Alloca(u32, u64, u64),
    Select(u32, Opnd, Ty, Opnd, Opnd, bool),
    ExtractValue(u32, Opnd, Vec<u32>),
    InsertValue(u32, Ty, Opnd, Opnd, Vec<u32>),
    ExtractElement(u32, Opnd, Opnd),
    InsertElement(u32, Ty, Opnd, Opnd, Opnd),
    Shuffle(u32, Opnd, Opnd, Vec<i32>, usize),
    Copy(u32, Opnd),
    AtomicRmw(u32, Rc<str>, Opnd, Ty, Opnd),
    CmpXchg(u32, Opnd, Ty, Opnd, Opnd),
    Nop,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Unsupported(Rc<str>),
}

pub struct Block {
    /// (dst, [(pred block, value)])
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub insts: Vec<(Inst, u32)>,
}
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub dbg: u32,
}

pub struct Global {
    pub name: Rc<str>,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub ty: Ty,
    /// text range of the initialiser
    pub init: Option<(usize, usize)>,
}
pub struct FDecl {
    pub name: Rc<str>,
    /// text range of header+body, None for a declaration
    pub body: Option<(usize, usize)>,
    pub func: Option<Rc<Func>>,
}

pub struct Module {
    pub text: &'static [u8],
    pub globals: Vec<Global>,
    pub gmap: HashMap<Rc<str>, u32>,
    pub funcs: Vec<FDecl>,
    pub fmap: HashMap<Rc<str>, u32>,
    pub types: HashMap<String, Ty>,
    pub aliases: HashMap<Rc<str>, String>,
    /// metadata: id -> text range
    pub md: HashMap<u32, (usize, usize)>,
}
pub const FN_BASE: u64 = 0x10_0000;
pub const G_BASE: u64 = 0x4000_0000;

pub struct P<'a> {
    pub s: &'a [u8],
    pub i: usize,
}
impl<'a> P<'a> {
    pub fn new(s: &'a [u8]) -> Self {
        P { s, i: 0 }
    }
    pub fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t') {
                self.i += 1;
            }
            if !self.s[self.i..].starts_with(b"/*") {
                return;
            }
            while !self.s[self.i..].starts_with(b"*/") {
                self.i += 1;
            }
            self.i += 2;
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    pub fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            panic!("expected {:?} at {:?}", t, self.rest(120));
        }
    }
    pub fn rest(&self, n: usize) -> String {
        String::from_utf8_lossy(&self.s[self.i..(self.i + n).min(self.s.len())]).into_owned()
    }
    /// identifier-like word without consuming
    pub fn word_peek(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || self.s[j] == b'_' || self.s[j] == b'.') {
            j += 1;
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[self.i..j]) }
    }
    pub fn word(&mut self) -> &'a str {
        let w = self.word_peek();
        self.i += w.len();
        w
    }
    pub fn eat_word(&mut self, t: &str) -> bool {
        if self.word_peek() == t {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    /// name after % or @ (sigil already consumed)
    pub fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            return String::from_utf8_lossy(&self.s[st..j]).into_owned();
        }
        let st = self.i;
        let mut j = st;
        while j < self.s.len()
            && (self.s[j].is_ascii_alphanumeric() || matches!(self.s[j], b'_' | b'.' | b'$' | b'-'))
        {
            j += 1;
        }
        self.i = j;
        String::from_utf8_lossy(&self.s[st..j]).into_owned()
    }
    pub fn int(&mut self) -> i128 {
        self.ws();
        let neg = self.eat("-");
        let mut v: i128 = 0;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            v = v.wrapping_mul(10).wrapping_add((self.s[self.i] - b'0') as i128);
            self.i += 1;
        }
        if neg {
            v.wrapping_neg()
        } else {
            v
        }
    }
    pub fn skip_parens(&mut self) {
        self.expect("(");
        let mut d = 1;
        while d > 0 {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
}

fn is_ty_word(w: &str) -> bool {
    matches!(w, "ptr" | "void" | "float" | "double" | "half" | "metadata" | "label" | "token" | "x86_fp80" | "bfloat" | "fp128")
        || (w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()))
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static [u8] = Box::leak(std::fs::read(path).expect("read ll").into_boxed_slice());
        let mut m = Module {
            text,
            globals: vec![],
            gmap: HashMap::new(),
            funcs: vec![],
            fmap: HashMap::new(),
            types: HashMap::new(),
            aliases: HashMap::new(),
            md: HashMap::new(),
        };
        // First pass: index top-level entities
        let mut i = 0;
        let n = text.len();
        let mut pending: Vec<(usize, usize)> = vec![];
        while i < n {
            let mut e = i;
            while e < n && text[e] != b'\n' {
                e += 1;
            }
            let line = &text[i..e];
            if line.starts_with(b"define ") {
                let st = i;
                // find "\n}\n"
                let mut j = e;
                loop {
                    if text[j] == b'\n' && text.get(j + 1) == Some(&b'}') {
                        break;
                    }
                    j += 1;
                }
                let name = fn_name(line);
                let id = m.funcs.len() as u32;
                let name: Rc<str> = name.into();
                m.fmap.insert(name.clone(), id);
                m.funcs.push(FDecl { name, body: Some((st, j)), func: None });
                e = j + 2;
            } else if line.starts_with(b"declare ") {
                let name: Rc<str> = fn_name(line).into();
                let id = m.funcs.len() as u32;
                m.fmap.insert(name.clone(), id);
                m.funcs.push(FDecl { name, body: None, func: None });
            } else if line.starts_with(b"@") {
                pending.push((i, e));
            } else if line.starts_with(b"%") {
                let mut p = P::new(line);
                p.i = 1;
                let nm = p.name();
                p.expect("=");
                p.expect("type");
                if !p.eat("opaque") {
                    let t = m.ty(&mut p);
                    m.types.insert(nm, t);
                }
            } else if line.starts_with(b"!") {
                let mut p = P::new(line);
                p.i = 1;
                if line.len() > 1 && line[1].is_ascii_digit() {
                    let id = p.int() as u32;
                    m.md.insert(id, (i, e));
                }
            }
            i = e + 1;
        }
        let mut addr = G_BASE;
        for (st, e) in pending {
            let mut p = P::new(&text[st..e]);
            p.i = 1;
            let name: Rc<str> = p.name().into();
            p.expect("=");
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            loop {
                let w = p.word_peek();
                match w {
                    "global" => {
                        p.word();
                        break;
                    }
                    "constant" => {
                        p.word();
                        constant = true;
                        break;
                    }
                    "alias" | "ifunc" => {
                        p.word();
                        alias = true;
                        break;
                    }
                    "external" | "extern_weak" => {
                        external = true;
                        p.word();
                    }
                    "" => panic!("global {:?}", p.rest(80)),
                    _ => {
                        p.word();
                        if p.peek() == b'(' {
                            p.skip_parens();
                        }
                    }
                }
            }
            if alias {
                let s = String::from_utf8_lossy(&text[st..e]).into_owned();
                if let Some(k) = s.rfind('@') {
                    let mut q = P::new(&s.as_bytes()[k + 1..]);
                    let target = q.name();
                    m.aliases.insert(name, target);
                }
                continue;
            }
            let ty = m.ty(&mut p);
            let size = ty.size();
            let init = if external { None } else { Some((st + p.i, e)) };
            let al = ty.align().max(16);
            addr = addr.div_ceil(al) * al;
            // honour explicit large alignments
            if let Some(k) = find(&text[st..e], b", align ") {
                let mut q = P::new(&text[st + k + 8..e]);
                let a = q.int() as u64;
                if a > 16 {
                    addr = addr.div_ceil(a) * a;
                }
            }
            let id = m.globals.len() as u32;
            m.gmap.insert(name.clone(), id);
            m.globals.push(Global { name, addr, size, constant, ty, init });
            addr += size + 32;
        }
        m
    }

    pub fn fn_addr(id: u32) -> u64 {
        FN_BASE + id as u64 * 16
    }
    pub fn fn_at(&self, addr: u64) -> Option<u32> {
        if addr >= FN_BASE && (addr - FN_BASE) % 16 == 0 {
            let i = (addr - FN_BASE) / 16;
            if (i as usize) < self.funcs.len() {
                return Some(i as u32);
            }
        }
        None
    }
    pub fn global_addr(&self, name: &str) -> u64 {
        if let Some(g) = self.gmap.get(name) {
            return self.globals[*g as usize].addr;
        }
        if let Some(f) = self.fmap.get(name) {
            return Self::fn_addr(*f);
        }
        if let Some(t) = self.aliases.get(name) {
            return self.global_addr(&t.clone());
        }
        panic!("unknown global @{}", name)
    }

    pub fn ty(&self, p: &mut P) -> Ty {
        let c = p.peek();
        let mut t = match c {
            b'[' => {
                p.expect("[");
                let n = p.int() as u64;
                p.expect("x");
                let e = self.ty(p);
                p.expect("]");
                Ty::Arr(n, Rc::new(e))
            }
            b'<' => {
                p.expect("<");
                if p.peek() == b'{' {
                    let t = self.ty(p);
                    p.expect(">");
                    match t {
                        Ty::Struct(f, _) => Ty::Struct(f, true),
                        t => t,
                    }
                } else {
                    let n = p.int() as u64;
                    p.expect("x");
                    let e = self.ty(p);
                    p.expect(">");
                    Ty::Vec(n, Rc::new(e))
                }
            }
            b'{' => {
                p.expect("{");
                let mut f = vec![];
                if p.peek() != b'}' {
                    loop {
                        f.push(self.ty(p));
                        if !p.eat(",") {
                            break;
                        }
                    }
                }
                p.expect("}");
                Ty::Struct(Rc::new(f), false)
            }
            b'%' => {
                p.expect("%");
                let n = p.name();
                self.types.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = p.word();
                match w {
                    "ptr" => {
                        if p.eat_word("addrspace") {
                            p.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    _ if w.starts_with('i') && w.len() > 1 => match w[1..].parse() {
                        Ok(n) => Ty::Int(n),
                        Err(_) => panic!("type {:?} {:?}", w, p.rest(80)),
                    },
                    "" => panic!("type? {:?}", p.rest(80)),
                    _ => Ty::Other,
                }
            }
        };
        // function type
        if p.peek() == b'(' && matches!(t, Ty::Void | Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 | Ty::Struct(..)) {
            // only in call position: "ret (args) @callee"; look ahead for a type list
            let save = p.i;
            p.skip_parens();
            p.ws();
            if !(p.peek() == b'@' || p.peek() == b'%') {
                p.i = save;
            } else {
                t = t.clone();
            }
        }
        t
    }

    /// Constant (or register) of a given type
    pub fn opnd(&self, p: &mut P, ty: &Ty, f: &mut dyn FnMut(String) -> u32) -> Opnd {
        let c = p.peek();
        match c {
            b'%' => {
                p.i += 1;
                let n = p.name();
                return Opnd::Reg(f(n));
            }
            b'@' => {
                p.i += 1;
                let n = p.name();
                return Opnd::C(self.global_addr(&n) as u128);
            }
            b'-' | b'+' if matches!(ty, Ty::F32 | Ty::F64) && !p.s[p.i + 1].is_ascii_digit() => {
                let neg = c == b'-';
                p.i += 1;
                let v = match p.word() {
                    "inf" => f64::INFINITY,
                    "qnan" => f64::NAN,
                    w => panic!("float {w}"),
                };
                let v = if neg { -v } else { v };
                return Opnd::C(if *ty == Ty::F32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 });
            }
            b'-' | b'0'..=b'9' => {
                // number
                let st = p.i;
                let mut j = p.i + 1;
                while j < p.s.len() && (p.s[j].is_ascii_alphanumeric() || matches!(p.s[j], b'.' | b'+' | b'-')) {
                    j += 1;
                }
                let tok = std::str::from_utf8(&p.s[st..j]).unwrap();
                match ty {
                    Ty::F32 | Ty::F64 => {
                        p.i = j;
                        let v: f64 = if let Some(h) = tok.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).expect("hex float"))
                        } else {
                            tok.parse().expect("float")
                        };
                        return Opnd::C(if *ty == Ty::F32 {
                            (v as f32).to_bits() as u128
                        } else {
                            v.to_bits() as u128
                        });
                    }
                    _ => {
                        let v = p.int();
                        let w = ty.bits().max(1);
                        return Opnd::C((v as u128) & crate::expr::mask_w(w));
                    }
                }
            }
            b'c' if p.s[p.i + 1] == b'"' => {
                p.i += 2;
                let mut v = vec![];
                loop {
                    let c = p.s[p.i];
                    if c == b'"' {
                        p.i += 1;
                        break;
                    }
                    if c == b'\\' {
                        let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                        if h.starts_with('\\') {
                            v.push(Opnd::C(b'\\' as u128));
                            p.i += 2;
                        } else {
                            v.push(Opnd::C(u8::from_str_radix(h, 16).unwrap() as u128));
                            p.i += 3;
                        }
                    } else {
                        v.push(Opnd::C(c as u128));
                        p.i += 1;
                    }
                }
                return Opnd::Agg(Rc::new(v));
            }
            b'[' | b'{' | b'<' => {
                let close = match c {
                    b'[' => "]",
                    b'{' => "}",
                    _ => ">",
                };
                p.i += 1;
                let mut packed = false;
                if c == b'<' && p.peek() == b'{' {
                    p.i += 1;
                    packed = true;
                }
                let mut v = vec![];
                if !(p.peek() == close.as_bytes()[0] || (packed && p.peek() == b'}')) {
                    loop {
                        let t = self.ty(p);
                        v.push(self.opnd(p, &t, f));
                        if !p.eat(",") {
                            break;
                        }
                    }
                }
                if packed {
                    p.expect("}");
                }
                p.expect(close);
                return Opnd::Agg(Rc::new(v));
            }
            _ => {}
        }
        let w = p.word();
        match w {
            "true" => Opnd::C(1),
            "false" => Opnd::C(0),
            "null" => Opnd::C(0),
            "undef" | "poison" | "zeroinitializer" => self.zero(ty),
            "splat" => {
                p.expect("(");
                let t = self.ty(p);
                let v = self.opnd(p, &t, f);
                p.expect(")");
                Opnd::Agg(Rc::new(vec![v; ty.count()]))
            }
            "getelementptr" => {
                while p.peek() != b'(' {
                    p.word();
                    if p.peek() == b'(' {
                        // could be inrange(..): distinguish by looking at following '(' after it
                        let save = p.i;
                        p.skip_parens();
                        if p.peek() != b'(' {
                            p.i = save;
                            break;
                        }
                    }
                }
                p.expect("(");
                let t = self.ty(p);
                p.expect(",");
                let pt = self.ty(p);
                let base = self.opnd(p, &pt, f);
                let mut a = match base {
                    Opnd::C(a) => a as u64,
                    _ => panic!("gep base"),
                };
                let mut cur = t;
                let mut first = true;
                while p.eat(",") {
                    p.eat_word("inrange");
                    let it = self.ty(p);
                    let k = match self.opnd(p, &it, f) {
                        Opnd::C(k) => crate::expr::sext_to_i128(k, it.bits()) as i64,
                        _ => panic!("gep idx"),
                    };
                    if first {
                        a = a.wrapping_add((k as u64).wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        a = a.wrapping_add(cur.field_off(k as usize));
                        cur = cur.elem(k as usize);
                    }
                }
                p.expect(")");
                Opnd::C(a as u128)
            }
            "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "zext" => {
                p.expect("(");
                let t = self.ty(p);
                let v = self.opnd(p, &t, f);
                p.expect("to");
                let t2 = self.ty(p);
                p.expect(")");
                match v {
                    Opnd::C(k) => Opnd::C(k & crate::expr::mask_w(t2.bits())),
                    v => v,
                }
            }
            "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                while p.peek() != b'(' {
                    p.word();
                }
                p.expect("(");
                let t = self.ty(p);
                let a = self.opnd(p, &t, f);
                p.expect(",");
                let t = self.ty(p);
                let b = self.opnd(p, &t, f);
                p.expect(")");
                match (a, b) {
                    (Opnd::C(a), Opnd::C(b)) => Opnd::C(crate::expr::fold_bin(binop(w).unwrap(), a, b, t.bits())),
                    _ => panic!("constexpr {}", w),
                }
            }
            // Bit pattern of a floating-point number
            w if w.starts_with("f0x") => Opnd::C(u128::from_str_radix(&w[3..], 16).expect("hex float")),
            "blockaddress" | "dso_local_equivalent" | "no_cfi" => {
                panic!("const {}", w)
            }
            _ => panic!("operand {:?} {:?} ty {:?}", w, p.rest(100), ty),
        }
    }
    pub fn zero(&self, ty: &Ty) -> Opnd {
        match ty {
            Ty::Struct(f, _) => Opnd::Agg(Rc::new(f.iter().map(|t| self.zero(t)).collect())),
            Ty::Arr(n, t) | Ty::Vec(n, t) => Opnd::Agg(Rc::new(vec![self.zero(t); *n as usize])),
            _ => Opnd::C(0),
        }
    }

    /// Initial bytes of a global
    pub fn global_bytes(&self, g: u32) -> Vec<u8> {
        let gl = &self.globals[g as usize];
        let mut out = vec![0u8; gl.size as usize];
        if let Some((s, e)) = gl.init {
            let mut p = P::new(&self.text[s..e]);
            if p.peek() == 0 {
                return out;
            }
            // fast path
            if p.word_peek() == "zeroinitializer" {
                return out;
            }
            let v = self.opnd(&mut p, &gl.ty, &mut |n| panic!("reg {} in global", n));
            self.put(&gl.ty, &v, &mut out, 0);
        }
        out
    }
    fn put(&self, ty: &Ty, v: &Opnd, out: &mut [u8], off: usize) {
        match v {
            Opnd::Agg(vs) => {
                for (i, x) in vs.iter().enumerate() {
                    self.put(&ty.elem(i), x, out, off + ty.field_off(i) as usize);
                }
            }
            Opnd::C(c) => {
                let n = ty.store_size() as usize;
                for k in 0..n {
                    out[off + k] = (c >> (8 * k)) as u8;
                }
            }
            Opnd::Reg(_) => unreachable!(),
        }
    }

    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.funcs[id as usize].func {
            return f.clone();
        }
        let (s, e) = self.funcs[id as usize].body.expect("body");
        let f = Rc::new(self.parse_fn(self.funcs[id as usize].name.clone(), s, e));
        self.funcs[id as usize].func = Some(f.clone());
        f
    }

    fn parse_fn(&self, name: Rc<str>, s: usize, e: usize) -> Func {
        let text = &self.text[s..e];
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut blocks_ix: HashMap<String, u32> = HashMap::new();
        // header
        let hl = text.iter().position(|c| *c == b'\n').unwrap();
        let header = &text[..hl];
        let at = find(header, b" @").unwrap();
        let mut p = P::new(header);
        p.i = at + 2;
        p.name();
        let mut params = vec![];
        p.expect("(");
        if !p.eat(")") {
            loop {
                if p.eat("...") {
                    break;
                }
                let _t = self.ty(&mut p);
                self.attrs(&mut p);
                if p.peek() == b'%' {
                    p.i += 1;
                    let n = p.name();
                    let k = regs.len() as u32;
                    regs.insert(n, k);
                    params.push(k);
                } else {
                    let k = regs.len() as u32;
                    regs.insert(format!("!arg{}", k), k);
                    params.push(k);
                }
                if !p.eat(",") {
                    break;
                }
            }
        }
        let fdbg = dbg_of(header);
        // body: split in logical lines
        let body = &text[hl + 1..];
        let mut lines: Vec<(usize, usize)> = vec![];
        let mut i = 0;
        while i < body.len() {
            let mut j = i;
            while j < body.len() && body[j] != b'\n' {
                j += 1;
            }
            let l = &body[i..j];
            let t = trim(l);
            let mut end = j;
            if starts_inst(t, b"switch ") {
                // until line with ]
                let mut k = i;
                loop {
                    let mut q = k;
                    while q < body.len() && body[q] != b'\n' {
                        q += 1;
                    }
                    let tt = trim(&body[k..q]);
                    if tt.starts_with(b"]") || (k == i && tt.contains(&b']')) {
                        end = q;
                        break;
                    }
                    k = q + 1;
                }
            } else if is_invoke(t) {
                // next line "to label"
                let mut q = j + 1;
                while q < body.len() && body[q] != b'\n' {
                    q += 1;
                }
                end = q;
            } else if is_landingpad(t) {
                let mut q = j;
                loop {
                    let st = q + 1;
                    let mut z = st;
                    while z < body.len() && body[z] != b'\n' {
                        z += 1;
                    }
                    let tt = trim(&body[st.min(body.len())..z.min(body.len())]);
                    if tt.starts_with(b"cleanup") || tt.starts_with(b"catch") || tt.starts_with(b"filter") {
                        q = z;
                    } else {
                        break;
                    }
                }
                end = q;
            }
            if !t.is_empty() && t[0] != b';' && !t.starts_with(b"#dbg") {
                lines.push((i, end));
            }
            i = end + 1;
        }
        // labels
        let mut nb = 0;
        let is_label = |l: &[u8]| !l.is_empty() && l[0] != b' ' && l[0] != b'\t';
        if lines.is_empty() || !is_label(&body[lines[0].0..lines[0].1]) {
            // implicit entry: numbered by argument count
            let unnamed = regs.keys().filter(|k| k.starts_with('!') || k.bytes().all(|c| c.is_ascii_digit())).count();
            blocks_ix.insert(format!("{}", unnamed), 0);
            nb = 1;
        }
        for (a, b) in &lines {
            let l = &body[*a..*b];
            if is_label(l) {
                let mut p = P::new(l);
                let n = p.name();
                blocks_ix.insert(n, nb);
                nb += 1;
            }
        }
        let mut blocks: Vec<Block> = vec![];
        if lines.is_empty() || !is_label(&body[lines[0].0..lines[0].1]) {
            blocks.push(Block { phis: vec![], insts: vec![] });
        }
        for (a, b) in &lines {
            let l = &body[*a..*b];
            if is_label(l) {
                blocks.push(Block { phis: vec![], insts: vec![] });
                continue;
            }
            let blk = blocks.last_mut().unwrap();
            let d = dbg_of(l);
            self.parse_inst(l, &mut regs, &blocks_ix, blk, d);
        }
        Func { name, params, nregs: regs.len(), blocks, dbg: fdbg }
    }

    fn attrs(&self, p: &mut P) {
        loop {
            let c = p.peek();
            if c == b'"' {
                // string attribute
                p.i += 1;
                while p.s[p.i] != b'"' {
                    p.i += 1;
                }
                p.i += 1;
                if p.eat("=") {
                    p.i += 1;
                    while p.s[p.i] != b'"' {
                        p.i += 1;
                    }
                    p.i += 1;
                }
                continue;
            }
            if !c.is_ascii_lowercase() {
                return;
            }
            let w = p.word_peek();
            if matches!(
                w,
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr"
                    | "ptrtoint" | "ptrtoaddr" | "trunc" | "zext" | "add" | "sub" | "xor" | "splat" | "bitcast" | "asm" | "blockaddress"
            ) || w == "c"
            {
                return;
            }
            p.word();
            if w == "align" && p.peek() != b'(' {
                p.int();
                continue;
            }
            if p.i < p.s.len() && p.s[p.i] == b'(' {
                p.skip_parens();
            }
        }
    }

    fn parse_inst(
        &self,
        l: &[u8],
        regs: &mut HashMap<String, u32>,
        bix: &HashMap<String, u32>,
        blk: &mut Block,
        d: u32,
    ) {
        let mut p = P::new(l);
        let mut dst: Option<u32> = None;
        let mut reg = |n: String| -> u32 {
            let k = regs.len() as u32;
            *regs.entry(n).or_insert(k)
        };
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            dst = Some(reg(n));
            p.expect("=");
        }
        let save = p.i;
        let mut op = p.word();
        if matches!(op, "tail" | "musttail" | "notail") {
            op = p.word();
        }
        let du = dst.unwrap_or(u32::MAX);
        let label = |p: &mut P| -> u32 {
            p.expect("label");
            p.expect("%");
            let n = p.name();
            *bix.get(&n).unwrap_or_else(|| panic!("label {}", n))
        };
        let inst = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr"
            | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" => {
                while matches!(p.word_peek(), "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    p.word();
                }
                let t = self.ty(&mut p);
                let a = self.opnd(&mut p, &t, &mut reg);
                p.expect(",");
                let b = self.opnd(&mut p, &t, &mut reg);
                Inst::Bin(du, binop(op).unwrap(), t, a, b)
            }
            "frem" => Inst::FRem(du),
            "fneg" => {
                while matches!(p.word_peek(), "fast" | "nnan" | "ninf" | "nsz") {
                    p.word();
                }
                let t = self.ty(&mut p);
                let a = self.opnd(&mut p, &t, &mut reg);
                Inst::FNeg(du, t, a)
            }
            "icmp" | "fcmp" => {
                while matches!(p.word_peek(), "samesign" | "fast" | "nnan" | "ninf" | "nsz") {
                    p.word();
                }
                let w = p.word();
                let pr = if op == "fcmp" { fpred(w) } else { pred(w) };
                let t = self.ty(&mut p);
                let a = self.opnd(&mut p, &t, &mut reg);
                p.expect(",");
                let b = self.opnd(&mut p, &t, &mut reg);
                Inst::Cmp(du, pr, t, a, b)
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp"
            | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
                while matches!(p.word_peek(), "nneg" | "nuw" | "nsw" | "fast" | "nnan" | "ninf") {
                    p.word();
                }
                let t = self.ty(&mut p);
                let a = self.opnd(&mut p, &t, &mut reg);
                p.expect("to");
                let t2 = self.ty(&mut p);
                let k: &'static str = match op {
                    "zext" => "zext",
                    "sext" => "sext",
                    "trunc" => "trunc",
                    "fptoui" => "fptoui",
                    "fptosi" => "fptosi",
                    "uitofp" => "uitofp",
                    "sitofp" => "sitofp",
                    "fpext" | "fptrunc" => "fcvt",
                    "bitcast" => "bitcast",
                    _ => "ptr",
                };
                Inst::Cast(du, k, t, a, t2)
            }
            "load" => {
                while matches!(p.word_peek(), "atomic" | "volatile") {
                    p.word();
                }
                let t = self.ty(&mut p);
                p.expect(",");
                let pt = self.ty(&mut p);
                let a = self.opnd(&mut p, &pt, &mut reg);
                Inst::Load(du, t, a)
            }
            "store" => {
                while matches!(p.word_peek(), "atomic" | "volatile") {
                    p.word();
                }
                let t = self.ty(&mut p);
                let v = self.opnd(&mut p, &t, &mut reg);
                p.expect(",");
                let pt = self.ty(&mut p);
                let a = self.opnd(&mut p, &pt, &mut reg);
                Inst::Store(t, v, a)
            }
            "getelementptr" => {
                loop {
                    let w = p.word_peek();
                    if matches!(w, "inbounds" | "nuw" | "nusw" | "nsw") {
                        p.word();
                    } else if w == "inrange" {
                        p.word();
                        p.skip_parens();
                    } else {
                        break;
                    }
                }
                let mut cur = self.ty(&mut p);
                p.expect(",");
                let pt = self.ty(&mut p);
                let base = self.opnd(&mut p, &pt, &mut reg);
                let mut off = 0i64;
                let mut terms = vec![];
                let mut first = true;
                while p.peek() == b',' {
                    p.expect(",");
                    if p.peek() == b'!' {
                        break;
                    }
                    let it = self.ty(&mut p);
                    let k = self.opnd(&mut p, &it, &mut reg);
                    let stride = if first {
                        cur.size()
                    } else {
                        match &cur {
                            Ty::Struct(..) => 0,
                            t => t.elem(0).size(),
                        }
                    };
                    match k {
                        Opnd::C(c) => {
                            let c = crate::expr::sext_to_i128(c, it.bits()) as i64;
                            if first {
                                off = off.wrapping_add(c.wrapping_mul(stride as i64));
                            } else {
                                match &cur {
                                    Ty::Struct(..) => {
                                        off = off.wrapping_add(cur.field_off(c as usize) as i64);
                                        cur = cur.elem(c as usize);
                                    }
                                    t => {
                                        off = off.wrapping_add(c.wrapping_mul(stride as i64));
                                        cur = t.elem(0);
                                    }
                                }
                            }
                        }
                        k => {
                            terms.push((k, it.bits(), stride));
                            if !first {
                                cur = cur.elem(0);
                            }
                        }
                    }
                    first = false;
                }
                Inst::Gep(du, base, off, terms)
            }
            "call" | "invoke" => match self.parse_call(&mut p, &mut reg) {
                Ok((callee, args, rt)) => {
                    let c = Inst::Call(dst, callee, args, rt);
                    if op == "invoke" {
                        blk.insts.push((c, d));
                        // skip to "to label"
                        let k = rfind(p.s, b"to label %").expect("invoke");
                        p.i = k + 3;
                        let t = label(&mut p);
                        Inst::Br(t)
                    } else {
                        c
                    }
                }
                Err(e) => Inst::Unsupported(e.into()),
            },
            "alloca" => {
                p.eat_word("inalloca");
                let t = self.ty(&mut p);
                let mut n = 1u64;
                let mut al = t.align();
                while p.eat(",") {
                    if p.eat_word("align") {
                        al = p.int() as u64;
                    } else if p.peek() == b'!' {
                        break;
                    } else {
                        let it = self.ty(&mut p);
                        match self.opnd(&mut p, &it, &mut reg) {
                            Opnd::C(c) => n = c as u64,
                            _ => {
                                blk.insts.push((Inst::Unsupported("dynamic alloca".into()), d));
                            }
                        }
                    }
                }
                Inst::Alloca(du, t.size() * n, al)
            }
            "select" => {
                while matches!(p.word_peek(), "fast" | "nnan" | "ninf" | "nsz") {
                    p.word();
                }
                let ct = self.ty(&mut p);
                let c = self.opnd(&mut p, &ct, &mut reg);
                p.expect(",");
                let t = self.ty(&mut p);
                let a = self.opnd(&mut p, &t, &mut reg);
                p.expect(",");
                let t2 = self.ty(&mut p);
                let b = self.opnd(&mut p, &t2, &mut reg);
                Inst::Select(du, c, t, a, b, ct.is_agg())
            }
            "extractvalue" => {
                let t = self.ty(&mut p);
                let a = self.opnd(&mut p, &t, &mut reg);
                let mut ix = vec![];
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.int() as u32);
                }
                Inst::ExtractValue(du, a, ix)
            }
            "insertvalue" => {
                let t = self.ty(&mut p);
                let a = self.opnd(&mut p, &t, &mut reg);
                p.expect(",");
                let et = self.ty(&mut p);
                let v = self.opnd(&mut p, &et, &mut reg);
                let mut ix = vec![];
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.int() as u32);
                }
                Inst::InsertValue(du, t, a, v, ix)
            }
            "extractelement" => {
                let t = self.ty(&mut p);
                let a = self.opnd(&mut p, &t, &mut reg);
                p.expect(",");
                let it = self.ty(&mut p);
                let i = self.opnd(&mut p, &it, &mut reg);
                Inst::ExtractElement(du, a, i)
            }
            "insertelement" => {
                let t = self.ty(&mut p);
                let a = self.opnd(&mut p, &t, &mut reg);
                p.expect(",");
                let et = self.ty(&mut p);
                let v = self.opnd(&mut p, &et, &mut reg);
                p.expect(",");
                let it = self.ty(&mut p);
                let i = self.opnd(&mut p, &it, &mut reg);
                Inst::InsertElement(du, t, a, v, i)
            }
            "shufflevector" => {
                let t = self.ty(&mut p);
                let a = self.opnd(&mut p, &t, &mut reg);
                p.expect(",");
                let t2 = self.ty(&mut p);
                let b = self.opnd(&mut p, &t2, &mut reg);
                p.expect(",");
                let mt = self.ty(&mut p);
                let m = match self.opnd(&mut p, &mt, &mut reg) {
                    Opnd::Agg(v) => v
                        .iter()
                        .map(|x| match x {
                            Opnd::C(c) => *c as u32 as i32,
                            _ => -1,
                        })
                        .collect(),
                    _ => vec![0; mt.count()],
                };
                Inst::Shuffle(du, a, b, m, t.count())
            }
            "freeze" => {
                let t = self.ty(&mut p);
                let a = self.opnd(&mut p, &t, &mut reg);
                Inst::Copy(du, a)
            }
            "atomicrmw" => {
                p.eat_word("volatile");
                let k: Rc<str> = p.word().into();
                let pt = self.ty(&mut p);
                let a = self.opnd(&mut p, &pt, &mut reg);
                p.expect(",");
                let t = self.ty(&mut p);
                let v = self.opnd(&mut p, &t, &mut reg);
                Inst::AtomicRmw(du, k, a, t, v)
            }
            "cmpxchg" => {
                while matches!(p.word_peek(), "weak" | "volatile") {
                    p.word();
                }
                let pt = self.ty(&mut p);
                let a = self.opnd(&mut p, &pt, &mut reg);
                p.expect(",");
                let t = self.ty(&mut p);
                let c = self.opnd(&mut p, &t, &mut reg);
                p.expect(",");
                let t = self.ty(&mut p);
                let n = self.opnd(&mut p, &t, &mut reg);
                Inst::CmpXchg(du, a, t, c, n)
            }
            "fence" => Inst::Nop,
            "phi" => {
                while matches!(p.word_peek(), "fast" | "nnan" | "ninf" | "nsz") {
                    p.word();
                }
                let t = self.ty(&mut p);
                let mut v = vec![];
                loop {
                    p.expect("[");
                    let a = self.opnd(&mut p, &t, &mut reg);
                    p.expect(",");
                    p.expect("%");
                    let n = p.name();
                    p.expect("]");
                    v.push((*bix.get(&n).unwrap_or_else(|| panic!("phi label {} in {:?}", n, std::str::from_utf8(p.s))), a));
                    if !p.eat(",") || p.peek() == b'!' {
                        break;
                    }
                }
                blk.phis.push((du, v));
                return;
            }
            "br" => {
                if p.word_peek() == "label" {
                    Inst::Br(label(&mut p))
                } else {
                    let t = self.ty(&mut p);
                    let c = self.opnd(&mut p, &t, &mut reg);
                    p.expect(",");
                    let a = label(&mut p);
                    p.expect(",");
                    let b = label(&mut p);
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = self.ty(&mut p);
                let v = self.opnd(&mut p, &t, &mut reg);
                p.expect(",");
                let def = label(&mut p);
                p.expect("[");
                let mut cases = vec![];
                while p.peek() != b']' {
                    let ct = self.ty(&mut p);
                    let c = match self.opnd(&mut p, &ct, &mut reg) {
                        Opnd::C(c) => c,
                        _ => panic!("switch case"),
                    };
                    p.expect(",");
                    cases.push((c, label(&mut p)));
                }
                Inst::Switch(t, v, def, cases)
            }
            "ret" => {
                let t = self.ty(&mut p);
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.opnd(&mut p, &t, &mut reg)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "landingpad" | "resume" | "cleanupret" | "va_arg" => Inst::Unsupported(op.into()),
            _ => {
                p.i = save;
                Inst::Unsupported(p.rest(100).into())
            }
        };
        blk.insts.push((inst, d));
    }

    fn parse_call(
        &self,
        p: &mut P,
        reg: &mut dyn FnMut(String) -> u32,
    ) -> Result<(Callee, Vec<(Ty, Opnd)>, Ty), String> {
        // cc, fast-math flags, return attributes
        loop {
            let c = p.peek();
            if c.is_ascii_lowercase() {
                let w = p.word_peek();
                if is_ty_word(w) {
                    break;
                }
                p.word();
                if w == "align" && p.peek() != b'(' {
                    p.int();
                } else if p.i < p.s.len() && p.s[p.i] == b'(' {
                    p.skip_parens();
                }
                if w == "addrspace" {
                    continue;
                }
            } else {
                break;
            }
        }
        let rt = self.ty(p);
        let mut ext: Option<String> = None;
        let callee = match p.peek() {
            b'@' => {
                p.i += 1;
                let mut n = p.name();
                while let Some(t) = self.aliases.get(n.as_str()) {
                    n = t.clone();
                }
                ext = Some(n);
                None
            }
            b'%' => {
                p.i += 1;
                let n = p.name();
                Some(Callee::Ind(Opnd::Reg(reg(n))))
            }
            _ => {
                let w = p.word_peek();
                if w == "asm" {
                    // skip to "(" after the constraint string
                    let mut q = 0;
                    while q < 4 {
                        while p.s[p.i] != b'"' {
                            p.i += 1;
                        }
                        p.i += 1;
                        q += 1;
                    }
                    Some(Callee::Asm)
                } else if w == "inttoptr" {
                    return Err("call of constant".into());
                } else {
                    return Err(format!("callee {:?}", p.rest(60)));
                }
            }
        };
        let callee = match callee {
            Some(c) => c,
            None => {
                let n = ext.unwrap();
                match self.fmap.get(n.as_str()) {
                    Some(f) if self.funcs[*f as usize].body.is_some() => Callee::Fn(*f),
                    _ => Callee::Ext(n.into()),
                }
            }
        };
        p.expect("(");
        let mut args = vec![];
        if !p.eat(")") {
            loop {
                let t = self.ty(p);
                if t == Ty::Other {
                    // metadata argument: skip to the matching comma / paren
                    let mut dpt = 0;
                    loop {
                        match p.s[p.i] {
                            b'(' | b'{' | b'[' => dpt += 1,
                            b')' | b'}' | b']' if dpt > 0 => dpt -= 1,
                            b')' | b',' if dpt == 0 => break,
                            b'"' => {
                                p.i += 1;
                                while p.s[p.i] != b'"' {
                                    p.i += 1;
                                }
                            }
                            _ => {}
                        }
                        p.i += 1;
                    }
                    args.push((t, Opnd::C(0)));
                } else {
                    self.attrs(p);
                    let v = self.opnd(p, &t, reg);
                    args.push((t, v));
                }
                if !p.eat(",") {
                    break;
                }
            }
            p.expect(")");
        }
        Ok((callee, args, rt))
    }
}

fn binop(w: &str) -> Option<crate::expr::B> {
    use crate::expr::B::*;
    Some(match w {
        "add" => Add,
        "sub" => Sub,
        "mul" => Mul,
        "udiv" => UDiv,
        "sdiv" => SDiv,
        "urem" => URem,
        "srem" => SRem,
        "and" => And,
        "or" => Or,
        "xor" => Xor,
        "shl" => Shl,
        "lshr" => LShr,
        "ashr" => AShr,
        "fadd" => FAdd,
        "fsub" => FSub,
        "fmul" => FMul,
        "fdiv" => FDiv,
        _ => return None,
    })
}
fn pred(w: &str) -> Pred {
    use Pred::*;
    match w {
        "eq" => Eq,
        "ne" => Ne,
        "ugt" => Ugt,
        "uge" => Uge,
        "ult" => Ult,
        "ule" => Ule,
        "sgt" => Sgt,
        "sge" => Sge,
        "slt" => Slt,
        "sle" => Sle,
        _ => panic!("pred {}", w),
    }
}
fn fpred(w: &str) -> Pred {
    use Pred::*;
    match w {
        "false" => FFalse,
        "oeq" => FOeq,
        "ogt" => FOgt,
        "oge" => FOge,
        "olt" => FOlt,
        "ole" => FOle,
        "one" => FOne,
        "ord" => FOrd,
        "ueq" => FUeq,
        "ugt" => FUgt,
        "uge" => FUge,
        "ult" => FUlt,
        "ule" => FUle,
        "une" => FUne,
        "uno" => FUno,
        "true" => FTrue,
        _ => panic!("fpred {}", w),
    }
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}
fn rfind(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).rposition(|w| w == n)
}
fn trim(l: &[u8]) -> &[u8] {
    let mut i = 0;
    while i < l.len() && (l[i] == b' ' || l[i] == b'\t') {
        i += 1;
    }
    &l[i..]
}
fn starts_inst(t: &[u8], k: &[u8]) -> bool {
    t.starts_with(k)
}
fn after_eq(t: &[u8]) -> &[u8] {
    if t.first() == Some(&b'%') {
        if let Some(k) = find(t, b" = ") {
            return &t[k + 3..];
        }
    }
    t
}
fn is_invoke(t: &[u8]) -> bool {
    after_eq(t).starts_with(b"invoke ")
}
fn is_landingpad(t: &[u8]) -> bool {
    after_eq(t).starts_with(b"landingpad ")
}
fn dbg_of(l: &[u8]) -> u32 {
    match rfind(l, b"!dbg !") {
        Some(k) => {
            let mut p = P::new(l);
            p.i = k + 6;
            p.int() as u32
        }
        None => 0,
    }
}
fn fn_name(line: &[u8]) -> String {
    let k = find(line, b" @").unwrap();
    let mut p = P::new(line);
    p.i = k + 2;
    p.name()
}
