//! Hash-consed bit-vector expressions over symbolic input bytes.
use std::collections::HashMap;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cmp {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    /// ordered float comparisons
    FOeq,
    FOlt,
    FOle,
    /// unordered test: either operand is NaN
    FUno,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum U {
    /// float -> other float width
    FCvt,
    /// float -> integer (truncation), saturating semantics outside range left to callers
    FToUI,
    FToSI,
    UIToF,
    SIToF,
    FSqrt,
    FFloor,
    FCeil,
    FTrunc,
    FRoundEven,
    FRoundAway,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Sym(u16),
    Bin(B, Id, Id),
    Cmp(Cmp, Id, Id),
    Un(U, Id),
    Ite(Id, Id, Id),
    ZExt(Id),
    SExt(Id),
    /// bits [lo, lo+w) of the operand
    Extract(Id, u8),
    /// hi, lo
    Concat(Id, Id),
    /// table lookup: table id, 8-bit index
    Lut(u32, Id),
}

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub mask: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<(Op, u8), Id, Fx>,
    tt: HashMap<Id, [u64; 4], Fx>,
    pub tables: Vec<Vec<u128>>,
    tmap: HashMap<Vec<u128>, u32>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
}

#[derive(Clone, Copy, Default)]
pub struct Fx;
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}

static mut ARENA: *mut Arena = std::ptr::null_mut();
#[inline]
pub fn ar() -> &'static mut Arena {
    unsafe {
        if ARENA.is_null() {
            ARENA = Box::into_raw(Box::new(Arena {
                nodes: Vec::new(),
                map: HashMap::default(),
                tt: HashMap::default(),
                tables: Vec::new(),
                tmap: HashMap::new(),
                memo: Vec::new(),
                epoch: 0,
            }));
        }
        &mut *ARENA
    }
}

pub fn mask_w(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext_to_i128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn fold_bin(b: B, x: u128, y: u128, w: u32) -> u128 {
    let m = mask_w(w);
    let r = match b {
        B::Add => x.wrapping_add(y),
        B::Sub => x.wrapping_sub(y),
        B::Mul => x.wrapping_mul(y),
        B::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        B::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        B::SDiv => {
            let (a, b) = (sext_to_i128(x, w), sext_to_i128(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                a.wrapping_div(b) as u128
            }
        }
        B::SRem => {
            let (a, b) = (sext_to_i128(x, w), sext_to_i128(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128
            }
        }
        B::And => x & y,
        B::Or => x | y,
        B::Xor => x ^ y,
        B::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        B::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        B::AShr => {
            let a = sext_to_i128(x, w);
            let s = if y >= w as u128 { w - 1 } else { y as u32 };
            (a >> s) as u128
        }
        B::FAdd | B::FSub | B::FMul | B::FDiv => {
            if w == 32 {
                let (a, c) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                (match b {
                    B::FAdd => a + c,
                    B::FSub => a - c,
                    B::FMul => a * c,
                    _ => a / c,
                })
                .to_bits() as u128
            } else {
                let (a, c) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                (match b {
                    B::FAdd => a + c,
                    B::FSub => a - c,
                    B::FMul => a * c,
                    _ => a / c,
                })
                .to_bits() as u128
            }
        }
    };
    r & m
}
fn as_f(x: u128, w: u32) -> f64 {
    if w == 32 {
        f32::from_bits(x as u32) as f64
    } else {
        f64::from_bits(x as u64)
    }
}
pub fn fold_cmp(c: Cmp, x: u128, y: u128, w: u32) -> bool {
    match c {
        Cmp::Eq => x == y,
        Cmp::Ult => x < y,
        Cmp::Ule => x <= y,
        Cmp::Slt => sext_to_i128(x, w) < sext_to_i128(y, w),
        Cmp::Sle => sext_to_i128(x, w) <= sext_to_i128(y, w),
        Cmp::FOeq => as_f(x, w) == as_f(y, w),
        Cmp::FOlt => as_f(x, w) < as_f(y, w),
        Cmp::FOle => as_f(x, w) <= as_f(y, w),
        Cmp::FUno => as_f(x, w).is_nan() || as_f(y, w).is_nan(),
    }
}
pub fn fold_un(u: U, x: u128, wi: u32, wo: u32) -> u128 {
    let tof = |v: f64| -> u128 {
        if wo == 32 {
            (v as f32).to_bits() as u128
        } else {
            v.to_bits() as u128
        }
    };
    match u {
        U::FCvt => tof(as_f(x, wi)),
        U::FToUI => (as_f(x, wi) as u128).min(mask_w(wo)),
        U::FToSI => {
            let v = as_f(x, wi) as i128;
            let hi = (mask_w(wo) >> 1) as i128;
            (v.clamp(-hi - 1, hi) as u128) & mask_w(wo)
        }
        U::UIToF => {
            if wo == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        U::SIToF => {
            let v = sext_to_i128(x, wi);
            if wo == 32 {
                (v as f32).to_bits() as u128
            } else {
                (v as f64).to_bits() as u128
            }
        }
        U::FSqrt => {
            if wo == 32 {
                f32::from_bits(x as u32).sqrt().to_bits() as u128
            } else {
                f64::from_bits(x as u64).sqrt().to_bits() as u128
            }
        }
        U::FFloor => tof(as_f(x, wi).floor()),
        U::FCeil => tof(as_f(x, wi).ceil()),
        U::FTrunc => tof(as_f(x, wi).trunc()),
        U::FRoundEven => tof(as_f(x, wi).round_ties_even()),
        U::FRoundAway => tof(as_f(x, wi).round()),
    }
}

fn intern(op: Op, w: u32) -> Id {
    let a = ar();
    if let Some(i) = a.map.get(&(op, w as u8)) {
        return *i;
    }
    let mask = match op {
        Op::Const(_) => 0,
        Op::Sym(s) => 1u128 << (s.min(127)),
        Op::Bin(_, x, y) | Op::Cmp(_, x, y) | Op::Concat(x, y) => {
            a.nodes[x as usize].mask | a.nodes[y as usize].mask
        }
        Op::Un(_, x) | Op::ZExt(x) | Op::SExt(x) | Op::Extract(x, _) | Op::Lut(_, x) => {
            a.nodes[x as usize].mask
        }
        Op::Ite(c, x, y) => {
            a.nodes[c as usize].mask | a.nodes[x as usize].mask | a.nodes[y as usize].mask
        }
    };
    let id = a.nodes.len() as Id;
    a.nodes.push(Node { op, w: w as u8, mask });
    a.map.insert((op, w as u8), id);
    id
}

#[inline]
pub fn nd(i: Id) -> Node {
    ar().nodes[i as usize]
}
#[inline]
pub fn width(i: Id) -> u32 {
    ar().nodes[i as usize].w as u32
}
pub fn konst(v: u128, w: u32) -> Id {
    intern(Op::Const(v & mask_w(w)), w)
}
pub fn sym(s: u16) -> Id {
    intern(Op::Sym(s), 8)
}
pub fn as_const(i: Id) -> Option<u128> {
    match nd(i).op {
        Op::Const(c) => Some(c),
        _ => None,
    }
}
pub fn not(c: Id) -> Id {
    xor(c, konst(1, 1))
}
pub fn xor(a: Id, b: Id) -> Id {
    bin(B::Xor, a, b)
}
pub fn and1(a: Id, b: Id) -> Id {
    bin(B::And, a, b)
}
pub fn or1(a: Id, b: Id) -> Id {
    bin(B::Or, a, b)
}

/// Bounds of an expression read as a signed integer
fn srange(e: Id, depth: u32) -> (i128, i128) {
    let n = nd(e);
    let w = n.w as u32;
    let full = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
    if depth == 0 || w > 64 {
        return if w > 64 { (i128::MIN / 4, i128::MAX / 4) } else { full };
    }
    let fit = |r: (i128, i128)| if r.0 >= full.0 && r.1 <= full.1 { r } else { full };
    match n.op {
        Op::Const(c) => {
            let v = sext_to_i128(c, w);
            (v, v)
        }
        Op::ZExt(x) => {
            let r = srange(x, depth - 1);
            if r.0 >= 0 { r } else { (0, (1i128 << width(x)) - 1) }
        }
        Op::SExt(x) => srange(x, depth - 1),
        Op::Bin(B::Add, x, y) => {
            let (p, q) = (srange(x, depth - 1), srange(y, depth - 1));
            fit((p.0 + q.0, p.1 + q.1))
        }
        Op::Bin(B::Sub, x, y) => {
            let (p, q) = (srange(x, depth - 1), srange(y, depth - 1));
            fit((p.0 - q.1, p.1 - q.0))
        }
        Op::Bin(B::Mul, x, y) => {
            let (p, q) = (srange(x, depth - 1), srange(y, depth - 1));
            let v = [p.0 * q.0, p.0 * q.1, p.1 * q.0, p.1 * q.1];
            fit((*v.iter().min().unwrap(), *v.iter().max().unwrap()))
        }
        Op::Bin(B::And, _, y) if as_const(y).is_some_and(|c| c >> (w - 1) == 0) => (0, as_const(y).unwrap() as i128),
        Op::Ite(_, x, y) => {
            let (p, q) = (srange(x, depth - 1), srange(y, depth - 1));
            (p.0.min(q.0), p.1.max(q.1))
        }
        Op::Concat(h, l) if as_const(h) == Some(0) => (0, (1i128 << width(l)) - 1),
        _ => full,
    }
}
fn sext64(e: Id) -> Id {
    if width(e) < 64 { sext(e, 64) } else { e }
}
/// A float that is surely a (small) integer, as that 64-bit integer
fn as_int_f(x: Id) -> Option<(Id, i128, i128)> {
    let w = width(x);
    let lim: i128 = if w == 32 { 1 << 24 } else { 1 << 53 };
    match nd(x).op {
        Op::Const(c) => {
            let v = as_f(c, w);
            let i = v as i64;
            if i as f64 == v && (i as i128).abs() <= lim && !(i == 0 && c != 0) {
                return Some((konst(i as u64 as u128, 64), i as i128, i as i128));
            }
            None
        }
        Op::Un(U::UIToF, e) if width(e) < 64 => {
            let z = zext(e, 64);
            let r = srange(z, 12);
            (r.0 >= 0 && r.1 <= lim).then_some((z, r.0, r.1))
        }
        Op::Un(U::UIToF | U::SIToF, e) if width(e) <= 64 => {
            let z = sext64(e);
            let r = srange(z, 12);
            let unsigned = matches!(nd(x).op, Op::Un(U::UIToF, _));
            (r.0 >= if unsigned { 0 } else { -lim } && r.1 <= lim).then_some((z, r.0, r.1))
        }
        _ => None,
    }
}

pub fn bin(b: B, mut x: Id, mut y: Id) -> Id {
    let w = width(x);
    debug_assert_eq!(w, width(y), "{:?}", b);
    let (mut cx, mut cy) = (as_const(x), as_const(y));
    if let (Some(p), Some(q)) = (cx, cy) {
        return konst(fold_bin(b, p, q, w), w);
    }
    // Exact arithmetic on integers
    if matches!(b, B::FAdd | B::FSub | B::FMul) {
        if let (Some((i, p0, p1)), Some((j, q0, q1))) = (as_int_f(x), as_int_f(y)) {
            let lim: i128 = if w == 32 { 1 << 24 } else { 1 << 53 };
            let ((lo, hi), op) = match b {
                B::FAdd => ((p0 + q0, p1 + q1), B::Add),
                B::FSub => ((p0 - q1, p1 - q0), B::Sub),
                // 0 times a negative number is -0
                _ => ((if p0 < 0 || q0 < 0 { i128::MIN } else { p0 * q0 }, p1 * q1), B::Mul),
            };
            if lo >= -lim && hi <= lim {
                return un(U::SIToF, bin(op, i, j), w);
            }
        }
    }
    let m = mask_w(w);
    // constants to the right for commutative operators
    if matches!(b, B::Add | B::Mul | B::And | B::Or | B::Xor) {
        if cx.is_some() || (cy.is_none() && x > y) {
            std::mem::swap(&mut x, &mut y);
            std::mem::swap(&mut cx, &mut cy);
        }
    }
    match b {
        B::Add => {
            if cy == Some(0) {
                return x;
            }
            if let (Some(c), Op::Bin(B::Add, p, q)) = (cy, nd(x).op) {
                if let Some(d) = as_const(q) {
                    return bin(B::Add, p, konst(c.wrapping_add(d), w));
                }
            }
        }
        B::Sub => {
            if cy == Some(0) {
                return x;
            }
            if x == y {
                return konst(0, w);
            }
            if let Some(c) = cy {
                return bin(B::Add, x, konst((!c).wrapping_add(1) & m, w));
            }
        }
        B::Mul => {
            if cy == Some(0) {
                return konst(0, w);
            }
            if cy == Some(1) {
                return x;
            }
            if let Some(c) = cy {
                if c.is_power_of_two() {
                    return bin(B::Shl, x, konst(c.trailing_zeros() as u128, w));
                }
            }
        }
        B::And => {
            if x == y {
                return x;
            }
            if cy == Some(0) {
                return konst(0, w);
            }
            if cy == Some(m) {
                return x;
            }
            if let Some(c) = cy {
                // low mask: zext(extract)
                if (c & (c + 1)) == 0 {
                    let k = 128 - c.leading_zeros();
                    return zext(extract(x, 0, k), w);
                }
                if let Op::ZExt(i) = nd(x).op {
                    let wi = width(i);
                    return zext(bin(B::And, i, konst(c, wi)), w);
                }
            }
            if w == 1 {
                if not_of(x) == Some(y) {
                    return konst(0, 1);
                }
            }
        }
        B::Or => {
            if x == y || cy == Some(0) {
                return x;
            }
            if cy == Some(m) {
                return konst(m, w);
            }
            if w == 1 && not_of(x) == Some(y) {
                return konst(1, 1);
            }
            // or of disjoint shifted zext pieces -> concat
            if let Some(r) = or_concat(x, y, w) {
                return r;
            }
        }
        B::Xor => {
            if x == y {
                return konst(0, w);
            }
            if cy == Some(0) {
                return x;
            }
            if let (Some(c), Op::Bin(B::Xor, p, q)) = (cy, nd(x).op) {
                if let Some(d) = as_const(q) {
                    return bin(B::Xor, p, konst(c ^ d, w));
                }
            }
            if w == 1 && cy == Some(1) {
                // push negation into comparisons
                match nd(x).op {
                    Op::Cmp(Cmp::Ult, p, q) => return cmp(Cmp::Ule, q, p),
                    Op::Cmp(Cmp::Ule, p, q) => return cmp(Cmp::Ult, q, p),
                    Op::Cmp(Cmp::Slt, p, q) => return cmp(Cmp::Sle, q, p),
                    Op::Cmp(Cmp::Sle, p, q) => return cmp(Cmp::Slt, q, p),
                    _ => {}
                }
            }
        }
        B::Shl => {
            if cy == Some(0) {
                return x;
            }
            if let Some(c) = cy {
                if c >= w as u128 {
                    return konst(0, w);
                }
                let c = c as u32;
                return concat(extract(x, 0, w - c), konst(0, c));
            }
        }
        B::LShr => {
            if cy == Some(0) {
                return x;
            }
            if let Some(c) = cy {
                if c >= w as u128 {
                    return konst(0, w);
                }
                let c = c as u32;
                return zext(extract(x, c, w - c), w);
            }
        }
        B::AShr => {
            if cy == Some(0) {
                return x;
            }
            if let Some(c) = cy {
                let c = (c.min(w as u128 - 1)) as u32;
                return sext(extract(x, c, w - c), w);
            }
        }
        B::UDiv => {
            if cy == Some(1) {
                return x;
            }
            if let Some(c) = cy {
                if c.is_power_of_two() {
                    return bin(B::LShr, x, konst(c.trailing_zeros() as u128, w));
                }
                if let Op::ZExt(i) = nd(x).op {
                    let wi = width(i);
                    if c <= mask_w(wi) {
                        return zext(bin(B::UDiv, i, konst(c, wi)), w);
                    }
                    return konst(0, w);
                }
            }
        }
        B::URem => {
            if let Some(c) = cy {
                if c.is_power_of_two() {
                    return bin(B::And, x, konst(c - 1, w));
                }
                if let Op::ZExt(i) = nd(x).op {
                    let wi = width(i);
                    if c <= mask_w(wi) {
                        return zext(bin(B::URem, i, konst(c, wi)), w);
                    }
                    return x;
                }
            }
        }
        _ => {}
    }
    intern(Op::Bin(b, x, y), w)
}
fn not_of(x: Id) -> Option<Id> {
    match nd(x).op {
        Op::Bin(B::Xor, p, q) if as_const(q) == Some(1) && width(x) == 1 => Some(p),
        _ => None,
    }
}
/// zext(lo) | concat(hi, 0...) => concat(hi', lo)
fn or_concat(x: Id, y: Id, w: u32) -> Option<Id> {
    for (a, b) in [(x, y), (y, x)] {
        if let Op::Concat(h, z) = nd(a).op {
            if as_const(z) == Some(0) {
                let wz = width(z);
                if let Op::ZExt(l) = nd(b).op {
                    if width(l) <= wz {
                        return Some(concat(h, zext(l, wz)));
                    }
                }
                if let Some(c) = as_const(b) {
                    if c >> wz == 0 {
                        return Some(concat(h, konst(c, wz)));
                    }
                }
                if let Op::Concat(h2, l2) = nd(b).op {
                    // zero-high concat
                    if as_const(h2) == Some(0) && width(l2) <= wz && width(l2) + width(h2) == w {
                        return Some(concat(h, zext(l2, wz)));
                    }
                }
            }
        }
        if let Op::ZExt(i) = nd(a).op {
            if let (Op::Concat(h, z), Op::ZExt(l)) = (nd(i).op, nd(b).op) {
                if as_const(z) == Some(0) && width(l) <= width(z) {
                    return Some(zext(concat(h, zext(l, width(z))), w));
                }
            }
        }
    }
    None
}

pub fn cmp(c: Cmp, x: Id, y: Id) -> Id {
    let w = width(x);
    debug_assert_eq!(w, width(y));
    let (cx, cy) = (as_const(x), as_const(y));
    if let (Some(p), Some(q)) = (cx, cy) {
        return konst(fold_cmp(c, p, q, w) as u128, 1);
    }
    let m = mask_w(w);
    if matches!(c, Cmp::FOeq | Cmp::FOlt | Cmp::FOle | Cmp::FUno) {
        if let (Some((i, ..)), Some((j, ..))) = (as_int_f(x), as_int_f(y)) {
            return match c {
                Cmp::FOeq => cmp(Cmp::Eq, i, j),
                Cmp::FOlt => cmp(Cmp::Slt, i, j),
                Cmp::FOle => cmp(Cmp::Sle, i, j),
                _ => konst(0, 1),
            };
        }
        // beyond any small integer
        let huge = |k: Option<u128>| k.map(|k| as_f(k, w)).filter(|f| f.abs() > 1e18);
        if let (Some(_), Some(f)) = (as_int_f(x), huge(cy)) {
            return konst((matches!(c, Cmp::FOlt | Cmp::FOle) && f > 0.0) as u128, 1);
        }
        if let (Some(f), Some(_)) = (huge(cx), as_int_f(y)) {
            return konst((matches!(c, Cmp::FOlt | Cmp::FOle) && f < 0.0) as u128, 1);
        }
    }
    match c {
        Cmp::Eq => {
            if x == y {
                return konst(1, 1);
            }
            if cx.is_some() || (cy.is_none() && x > y) {
                return cmp_eq_norm(y, x);
            }
            return cmp_eq_norm(x, y);
        }
        Cmp::Ult => {
            if x == y || cy == Some(0) || cx == Some(m) {
                return konst(0, 1);
            }
            if let (Some(c), Op::ZExt(i)) = (cy, nd(x).op) {
                let wi = width(i);
                if c > mask_w(wi) {
                    return konst(1, 1);
                }
                return cmp(Cmp::Ult, i, konst(c, wi));
            }
            if let (Some(c), Op::ZExt(i)) = (cx, nd(y).op) {
                let wi = width(i);
                if c >= mask_w(wi) {
                    return konst(0, 1);
                }
                return cmp(Cmp::Ult, konst(c, wi), i);
            }
            if cy == Some(1) {
                return cmp(Cmp::Eq, x, konst(0, w));
            }
            if let (Op::ZExt(i), Op::ZExt(j)) = (nd(x).op, nd(y).op) {
                if width(i) == width(j) {
                    return cmp(Cmp::Ult, i, j);
                }
            }
        }
        Cmp::Ule => {
            if x == y || cx == Some(0) || cy == Some(m) {
                return konst(1, 1);
            }
            if let Some(c) = cy {
                return cmp(Cmp::Ult, x, konst(c + 1, w));
            }
            if let Some(c) = cx {
                return cmp(Cmp::Ult, konst(c - 1, w), y);
            }
            if let (Op::ZExt(i), Op::ZExt(j)) = (nd(x).op, nd(y).op) {
                if width(i) == width(j) {
                    return cmp(Cmp::Ule, i, j);
                }
            }
        }
        Cmp::Slt => {
            if x == y {
                return konst(0, 1);
            }
            if let Op::ZExt(_) = nd(x).op {
                if let Some(c) = cy {
                    if c >> (w - 1) == 0 {
                        return cmp(Cmp::Ult, x, y);
                    }
                    return konst(0, 1);
                }
            }
            if let Op::ZExt(_) = nd(y).op {
                if let Some(c) = cx {
                    if c >> (w - 1) == 0 {
                        return cmp(Cmp::Ult, x, y);
                    }
                    return konst(1, 1);
                }
            }
        }
        Cmp::Sle => {
            if x == y {
                return konst(1, 1);
            }
            if let Some(c) = cy {
                if c == m >> 1 {
                    return konst(1, 1);
                }
                return cmp(Cmp::Slt, x, konst(c.wrapping_add(1), w));
            }
            if let Some(c) = cx {
                if c == (m >> 1) + 1 {
                    return konst(1, 1);
                }
                return cmp(Cmp::Slt, konst(c.wrapping_sub(1), w), y);
            }
        }
        _ => {}
    }
    intern(Op::Cmp(c, x, y), 1)
}
fn cmp_eq_norm(x: Id, y: Id) -> Id {
    let w = width(x);
    if let Some(c) = as_const(y) {
        if w == 1 {
            return if c == 1 { x } else { bin(B::Xor, x, konst(1, 1)) };
        }
        match nd(x).op {
            Op::ZExt(i) => {
                let wi = width(i);
                if c > mask_w(wi) {
                    return konst(0, 1);
                }
                return cmp(Cmp::Eq, i, konst(c, wi));
            }
            Op::SExt(i) => {
                let wi = width(i);
                let t = c & mask_w(wi);
                if (sext_to_i128(t, wi) as u128) & mask_w(w) != c {
                    return konst(0, 1);
                }
                return cmp(Cmp::Eq, i, konst(t, wi));
            }
            Op::Concat(h, l) => {
                let wl = width(l);
                let a = cmp(Cmp::Eq, h, konst(c >> wl, w - wl));
                let b = cmp(Cmp::Eq, l, konst(c & mask_w(wl), wl));
                return and1(a, b);
            }
            Op::Bin(B::Add, p, q) => {
                if let Some(d) = as_const(q) {
                    return cmp(Cmp::Eq, p, konst(c.wrapping_sub(d), w));
                }
            }
            Op::Bin(B::Xor, p, q) => {
                if let Some(d) = as_const(q) {
                    return cmp(Cmp::Eq, p, konst(c ^ d, w));
                }
                if c == 0 {
                    return cmp(Cmp::Eq, p, q);
                }
            }
            Op::Bin(B::Sub, p, q) => {
                if c == 0 {
                    return cmp(Cmp::Eq, p, q);
                }
            }
            Op::Bin(B::Or, p, q) => {
                if c == 0 {
                    let a = cmp(Cmp::Eq, p, konst(0, w));
                    let b = cmp(Cmp::Eq, q, konst(0, w));
                    return and1(a, b);
                }
            }
            Op::Ite(k, p, q) => {
                if as_const(p).is_some() || as_const(q).is_some() {
                    let a = cmp(Cmp::Eq, p, y);
                    let b = cmp(Cmp::Eq, q, y);
                    if as_const(a).is_some() || as_const(b).is_some() {
                        return ite(k, a, b);
                    }
                }
            }
            _ => {}
        }
    } else {
        if let (Op::ZExt(i), Op::ZExt(j)) = (nd(x).op, nd(y).op) {
            if width(i) == width(j) {
                return cmp(Cmp::Eq, i, j);
            }
        }
    }
    intern(Op::Cmp(Cmp::Eq, x, y), 1)
}

pub fn ite(c: Id, x: Id, y: Id) -> Id {
    if let Some(k) = as_const(c) {
        return if k == 1 { x } else { y };
    }
    if x == y {
        return x;
    }
    let w = width(x);
    if w == 1 {
        match (as_const(x), as_const(y)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or1(c, y),
            (Some(0), None) => return and1(not(c), y),
            (None, Some(0)) => return and1(c, x),
            (None, Some(1)) => return or1(not(c), x),
            _ => {}
        }
    }
    if let Some(n) = not_of(c) {
        return ite(n, y, x);
    }
    intern(Op::Ite(c, x, y), w)
}
pub fn zext(x: Id, w: u32) -> Id {
    let wi = width(x);
    if wi == w {
        return x;
    }
    debug_assert!(wi < w);
    match nd(x).op {
        Op::Const(c) => konst(c, w),
        Op::ZExt(i) => zext(i, w),
        _ => intern(Op::ZExt(x), w),
    }
}
pub fn sext(x: Id, w: u32) -> Id {
    let wi = width(x);
    if wi == w {
        return x;
    }
    match nd(x).op {
        Op::Const(c) => konst(sext_to_i128(c, wi) as u128, w),
        Op::ZExt(i) => zext(i, w),
        Op::SExt(i) => sext(i, w),
        _ => intern(Op::SExt(x), w),
    }
}
pub fn extract(x: Id, lo: u32, w: u32) -> Id {
    let wx = width(x);
    debug_assert!(lo + w <= wx && w > 0, "extract {} {} of {}", lo, w, wx);
    if w == wx {
        return x;
    }
    match nd(x).op {
        Op::Const(c) => return konst(c >> lo, w),
        Op::Extract(i, l2) => return extract(i, lo + l2 as u32, w),
        Op::ZExt(i) => {
            let wi = width(i);
            if lo >= wi {
                return konst(0, w);
            }
            if lo + w <= wi {
                return extract(i, lo, w);
            }
            return zext(extract(i, lo, wi - lo), w);
        }
        Op::SExt(i) => {
            let wi = width(i);
            if lo + w <= wi {
                return extract(i, lo, w);
            }
            if lo == 0 {
                return sext(i, w);
            }
        }
        Op::Concat(h, l) => {
            let wl = width(l);
            if lo + w <= wl {
                return extract(l, lo, w);
            }
            if lo >= wl {
                return extract(h, lo - wl, w);
            }
            return concat(extract(h, 0, lo + w - wl), extract(l, lo, wl - lo));
        }
        Op::Ite(c, p, q) => {
            if as_const(p).is_some() || as_const(q).is_some() {
                return ite(c, extract(p, lo, w), extract(q, lo, w));
            }
        }
        Op::Bin(b @ (B::And | B::Or | B::Xor), p, q) => {
            return bin(b, extract(p, lo, w), extract(q, lo, w));
        }
        Op::Bin(b @ (B::Add | B::Sub | B::Mul), p, q) if lo == 0 => {
            return bin(b, extract(p, 0, w), extract(q, 0, w));
        }
        _ => {}
    }
    intern(Op::Extract(x, lo as u8), w)
}
pub fn concat(h: Id, l: Id) -> Id {
    let (wh, wl) = (width(h), width(l));
    let w = wh + wl;
    if let (Some(a), Some(b)) = (as_const(h), as_const(l)) {
        return konst((a << wl) | b, w);
    }
    if as_const(h) == Some(0) {
        return zext(l, w);
    }
    if let (Op::Extract(a, la), Op::Extract(b, lb)) = (nd(h).op, nd(l).op) {
        if a == b && la as u32 == lb as u32 + wl {
            return extract(a, lb as u32, w);
        }
    }
    // low bits of sums are kept as sums
    if let Op::Extract(a, la) = nd(h).op {
        if la as u32 == wl && matches!(nd(l).op, Op::Bin(..)) && extract(a, 0, wl) == l {
            return extract(a, 0, w);
        }
    }
    // concat(zext? ..) of low extract of same base when l is whole low part
    if let Op::Concat(h2, l2) = nd(l).op {
        if let (Op::Extract(a, la), Op::Extract(b, lb)) = (nd(h).op, nd(h2).op) {
            if a == b && la as u32 == lb as u32 + width(h2) {
                return concat(extract(a, lb as u32, wh + width(h2)), l2);
            }
        }
    }
    if let Op::ZExt(i) = nd(h).op {
        return zext(concat(i, l), w);
    }
    intern(Op::Concat(h, l), w)
}
pub fn un(u: U, x: Id, wo: u32) -> Id {
    if let Some(c) = as_const(x) {
        return konst(fold_un(u, c, width(x), wo), wo);
    }
    match u {
        U::FToUI | U::FToSI => {
            if let Some((i, lo, hi)) = as_int_f(x) {
                let (min, max) = if u == U::FToUI { (0, mask_w(wo.min(100)) as i128) } else { (-(1i128 << (wo.min(100) - 1)), (1i128 << (wo.min(100) - 1)) - 1) };
                if lo >= min && hi <= max {
                    return if wo <= 64 { extract(i, 0, wo) } else { sext(i, wo) };
                }
            }
        }
        U::FFloor | U::FCeil | U::FTrunc | U::FRoundEven | U::FRoundAway if as_int_f(x).is_some() => return x,
        _ => {}
    }
    intern(Op::Un(u, x), wo)
}
pub fn lut(table: Vec<u128>, idx: Id, w: u32) -> Id {
    debug_assert_eq!(table.len(), 256);
    if let Some(c) = as_const(idx) {
        return konst(table[c as usize], w);
    }
    if table.iter().all(|v| *v == table[0]) {
        return konst(table[0], w);
    }
    let a = ar();
    let t = match a.tmap.get(&table) {
        Some(t) => *t,
        None => {
            let t = a.tables.len() as u32;
            a.tables.push(table.clone());
            a.tmap.insert(table, t);
            t
        }
    };
    intern(Op::Lut(t, idx), w)
}

/// Evaluate under an assignment of bytes to symbols
pub fn eval(root: Id, model: &[u8]) -> u128 {
    let a = ar();
    a.epoch += 1;
    if a.memo.len() < a.nodes.len() {
        a.memo.resize(a.nodes.len() * 2, (0, 0));
    }
    ev(a, root, model)
}
fn ev(a: &mut Arena, i: Id, m: &[u8]) -> u128 {
    let n = a.nodes[i as usize];
    match n.op {
        Op::Const(c) => return c,
        Op::Sym(s) => return *m.get(s as usize).unwrap_or(&0) as u128,
        _ => {}
    }
    let (e, v) = a.memo[i as usize];
    if e == a.epoch {
        return v;
    }
    let w = n.w as u32;
    let r = match n.op {
        Op::Const(_) | Op::Sym(_) => unreachable!(),
        Op::Bin(b, x, y) => {
            let p = ev(a, x, m);
            let q = ev(a, y, m);
            fold_bin(b, p, q, w)
        }
        Op::Cmp(c, x, y) => {
            let p = ev(a, x, m);
            let q = ev(a, y, m);
            fold_cmp(c, p, q, a.nodes[x as usize].w as u32) as u128
        }
        Op::Un(u, x) => {
            let p = ev(a, x, m);
            fold_un(u, p, a.nodes[x as usize].w as u32, w)
        }
        Op::Ite(c, x, y) => {
            if ev(a, c, m) == 1 {
                ev(a, x, m)
            } else {
                ev(a, y, m)
            }
        }
        Op::ZExt(x) => ev(a, x, m),
        Op::SExt(x) => {
            let p = ev(a, x, m);
            (sext_to_i128(p, a.nodes[x as usize].w as u32) as u128) & mask_w(w)
        }
        Op::Extract(x, lo) => (ev(a, x, m) >> lo) & mask_w(w),
        Op::Concat(h, l) => {
            let p = ev(a, h, m);
            let q = ev(a, l, m);
            (p << a.nodes[l as usize].w) | q
        }
        Op::Lut(t, x) => {
            let p = ev(a, x, m) as usize;
            a.tables[t as usize][p]
        }
    };
    a.memo[i as usize] = (a.epoch, r);
    r
}

/// Truth table of a 1-bit expression over exactly one symbol
pub fn truth(i: Id, s: u16) -> [u64; 4] {
    if let Some(t) = ar().tt.get(&i) {
        return *t;
    }
    let mut m = vec![0u8; s as usize + 1];
    let mut t = [0u64; 4];
    for v in 0..256usize {
        m[s as usize] = v as u8;
        if eval(i, &m) == 1 {
            t[v / 64] |= 1 << (v % 64);
        }
    }
    ar().tt.insert(i, t);
    t
}

/// The only symbol an expression depends on
pub fn single_sym(mask: u128) -> Option<u16> {
    if mask != 0 && mask & (mask - 1) == 0 && mask != 1u128 << 127 {
        Some(mask.trailing_zeros() as u16)
    } else {
        None
    }
}

/// Does an expression involve floating-point arithmetic?
pub fn has_fp(id: Id) -> bool {
    let mut seen = std::collections::HashSet::new();
    let mut todo = vec![id];
    while let Some(x) = todo.pop() {
        if !seen.insert(x) {
            continue;
        }
        match nd(x).op {
            Op::Bin(B::FAdd | B::FSub | B::FMul | B::FDiv, ..) | Op::Cmp(Cmp::FOeq | Cmp::FOlt | Cmp::FOle | Cmp::FUno, ..) | Op::Un(..) => return true,
            Op::Bin(_, a, b) | Op::Cmp(_, a, b) | Op::Concat(a, b) => todo.extend([a, b]),
            Op::Ite(a, b, c) => todo.extend([a, b, c]),
            Op::ZExt(a) | Op::SExt(a) | Op::Extract(a, _) | Op::Lut(_, a) => todo.push(a),
            Op::Const(_) | Op::Sym(_) => {}
        }
    }
    false
}
