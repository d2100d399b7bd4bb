//! Harnesses for `cpparser` (C++ entity names)
use cpparser::{display::CustomDisplay, subparsers::values::literals::LiteralValue, EntityParser};
use symrt::{assume, check, choice, cover, log};

/// A name where some characters are symbolic
///
/// `$`: any ASCII character, except the digits 0 and 2 to 9
/// `@`: any letter or underscore
/// `\``: any ASCII character that has no meaning in a path
/// `%`: a character of a list of parameters
/// `^`: a character of an expression
fn holes(t: &str) -> String {
    let mut b = t.as_bytes().to_vec();
    for x in &mut b {
        let c = *x;
        if matches!(c, b'$' | b'@' | b'`' | b'%' | b'^') {
            *x = symrt::u8();
            let ok = match c {
                b'$' => (*x < 0x80) & (!x.is_ascii_digit() | (*x == b'1')),
                b'@' => x.is_ascii_alphabetic() | (*x == b'_'),
                b'%' => (*x == b'.') | (*x == b',') | (*x == b'a') | (*x == b')') | (*x == b'(') | (*x == b'*') | (*x == b' '),
                b'^' => (*x == b'a') | (*x == b'1') | ((*x >= b'<') & (*x <= b'?')) | ((*x >= b'(') & (*x <= b'.')) | (*x == b'&') | (*x == b':') | (*x == b'!'),
                _ => (*x < 0x80) & (*x != b'/') & (*x != b'.') & (*x != b':') & !x.is_ascii_digit(),
            };
            assume(ok);
        }
    }
    String::from_utf8(b).unwrap()
}
fn squeeze(s: &str) -> Vec<u8> {
    s.bytes().filter(|b| !matches!(b, b' ' | b'\t' | b'\r' | b'\n')).collect()
}
/// Tokens of a name, minus integer literal suffixes
fn canon(s: &str) -> Vec<u8> {
    let (mut o, mut ident, mut number) = (Vec::new(), false, false);
    for b in squeeze(s) {
        let digit = b.is_ascii_digit();
        let suffix = matches!(b, b'u' | b'U' | b'l' | b'L' | b'z' | b'Z');
        if number && suffix {
            continue;
        }
        number = digit && !ident;
        ident = !number && (digit || b == b'_' || b == b'$' || b.is_ascii_alphabetic());
        o.push(b);
    }
    o
}

/// Spellings that are known to be displayed as another spelling of the same:
/// positive signs of integers, declarators of scopes, character literals
fn respelled(s: &str) -> bool {
    let sq = squeeze(s);
    sq.windows(2).fold(false, |a, w| a | ((w[0] == b'+') & (w[1] == b'1')))
        | sq.windows(3).fold(false, |a, w| a | ((w[0] == b'&') & (w[1] == b':') & (w[2] == b':')))
        | sq.iter().fold(false, |a, x| a | (*x == b'\''))
}

/// Any name of this shape is either rejected or understood: printing it gives
/// back its tokens, and what is printed is a name that prints the same.
fn entity(t: &str) {
    let s = holes(t);
    let mut p = EntityParser::new();
    match p.parse_entity(&s) {
        Ok(k) => {
            cover("accepted");
            let d = p.entity(k).to_string();
            log(d.as_bytes());
            if respelled(&s) {
                return;
            }
            check(squeeze(&d) == canon(&s), "displayed name has other tokens");
            match p.parse_entity(&d) {
                Ok(k) => check(p.entity(k).to_string() == d, "displayed name is another name"),
                Err(_) => check(false, "displayed name is no name"),
            }
        }
        Err(_) => cover("rejected"),
    }
}

/// Generator of names in canonical form
struct Gen {
    s: String,
    id: u8,
}
impl Gen {
    fn new() -> Self {
        Gen { s: String::new(), id: b'A' }
    }
    fn p(&mut self, s: &str) {
        self.s.push_str(s)
    }
    fn pick(&mut self, alts: &[&str]) {
        let i = choice(alts.len() as u32);
        self.p(alts[i as usize])
    }
    fn ident(&mut self) {
        self.s.push(self.id as char);
        self.id += 1;
    }
    fn list(&mut self, max: u32, f: impl Fn(&mut Self)) {
        for i in 0..choice(max + 1) {
            if i > 0 {
                self.p(", ")
            }
            f(self)
        }
    }
    fn scopes(&mut self, d: u32) {
        match choice(4) {
            0 => {}
            1 => self.p("::"),
            2 => {
                self.ident();
                if d > 0 && symrt::bool() {
                    self.targs(d - 1);
                }
                self.p("::");
            }
            _ => {
                self.ident();
                self.signature(d);
                self.p("::");
            }
        }
    }
    fn targs(&mut self, d: u32) {
        match choice(3) {
            0 => self.p("<>"),
            1 => {
                self.p("<");
                self.ty(d);
                self.p(">");
            }
            _ => {
                self.p("<");
                self.ident();
                self.p(", ");
                self.value(d, false);
                self.p(">");
            }
        }
    }
    fn signature(&mut self, d: u32) {
        self.p("(");
        match choice(4) {
            0 => {}
            1 => self.p("..."),
            2 => {
                if d > 0 {
                    self.ty(d - 1)
                } else {
                    self.ident()
                }
            }
            _ => {
                self.ident();
                self.p(", ...");
            }
        }
        self.p(")");
        self.pick(&["", " const", " volatile &&", " noexcept"]);
    }
    fn unqualified(&mut self, d: u32, operators: bool) {
        match choice(if operators { 8 } else { 6 }) {
            0 => self.ident(),
            1 => {
                self.ident();
                self.targs(d.saturating_sub(1));
            }
            2 => {
                self.p("~");
                self.ident();
            }
            6 => {
                self.p("operator");
                self.pick(&["+", "==", "<<=", "()", "[]", "->", "->*", "<=>", "&&", "++", ",", " new[]", " delete", "\"\" _x", " co_await"]);
            }
            7 => {
                self.p("operator ");
                self.ident();
            }
            3 => {
                self.p("decltype(");
                self.value(d.saturating_sub(1), true);
                self.p(")");
            }
            4 => {
                self.p("(lambda at /");
                self.ident();
                self.p(":1:2)");
            }
            _ => {
                self.p("{lambda");
                self.signature(0);
                self.p("#1}");
            }
        }
    }
    fn id_expr(&mut self, d: u32) {
        if d > 0 {
            self.scopes(d - 1)
        }
        self.unqualified(d, false)
    }
    fn ty(&mut self, d: u32) {
        if d == 0 {
            return self.pick(&["A", "const B", "unsigned int", "C*", "D&&"]);
        }
        self.pick(&["", "const ", "const volatile "]);
        if symrt::bool() {
            self.pick(&["int", "unsigned long", "auto:1"])
        } else {
            self.id_expr(d - 1)
        }
        match choice(9) {
            0 => {}
            1 => self.p("*"),
            2 => self.p("&"),
            3 => self.p("* const*"),
            4 => {
                self.p("[");
                self.value(d - 1, true);
                self.p("]");
            }
            5 => {
                self.p(" (*)");
                self.signature(d - 1);
            }
            6 => {
                self.p(" ");
                self.ident();
                self.p("::*");
            }
            7 => self.p(" __vector(4)"),
            _ => self.signature(d - 1),
        }
    }
    fn value(&mut self, d: u32, greater: bool) {
        if d == 0 {
            return self.pick(&["1", "-7", "'c'", "V"]);
        }
        match choice(13) {
            0 => self.id_expr(d - 1),
            1 => {
                self.p("(");
                self.value(d - 1, true);
                self.p(")");
            }
            2 => {
                self.pick(&["!", "*", "&", "~", "++", "--", "-"]);
                self.ident();
            }
            3 => {
                self.ident();
                self.pick(&[" + ", " && ", " == ", " <= ", " | ", " <<= ", "->", "->*"]);
                self.value(d - 1, greater);
            }
            4 => {
                self.ident();
                if greater {
                    self.pick(&[" >> ", " > "]);
                } else {
                    self.p(" - ");
                }
                self.value(d - 1, greater);
            }
            5 => {
                self.ident();
                self.p(" ? ");
                self.value(d - 1, greater);
                self.p(" : ");
                self.ident();
            }
            6 => {
                self.ident();
                self.p(".");
                self.ident();
            }
            7 => {
                self.ident();
                self.p("(");
                if symrt::bool() {
                    self.value(d - 1, true)
                } else {
                    self.list(2, |g| g.ident())
                }
                self.p(")");
            }
            8 => {
                self.ident();
                self.p("[");
                self.value(d - 1, true);
                self.p("]");
            }
            9 => {
                self.pick(&["sizeof", "declval"]);
                self.p("(");
                self.ty(d - 1);
                self.p(")");
            }
            10 => {
                self.pick(&["new ", "::new ", "new(P) ", "new(1, P) "]);
                self.ident();
                self.pick(&["", "()", "(Q, 2)"]);
            }
            11 => {
                self.p("(");
                self.ident();
                self.p(")");
                self.ident();
            }
            _ => {
                self.ident();
                self.pick(&["...", "++", "--"]);
            }
        }
    }
}

fn canonical(values: bool, check_bounded: bool, f: impl Fn(&mut Gen)) {
    let mut g = Gen::new();
    f(&mut g);
    let s = g.s;
    log(s.as_bytes());
    let mut p = EntityParser::new();
    let Ok(k) = p.parse_entity(&s) else {
        check(false, "canonical name rejected");
        return;
    };
    cover("accepted");
    let e = p.entity(k);
    let d = e.to_string();
    log(d.as_bytes());
    if check_bounded {
        bounded(&e, &d);
        return;
    }
    // In a template argument, "a && (b)" may be a type or a value
    check(d == s || (values && squeeze(&d) == squeeze(&s)), "canonical name displays differently");
    drop(e);
    let k2 = p.parse_entity(&s);
    check(k2 == Ok(k), "same name, other entity");
}

/// Width-bounded display of an entity
fn bounded(e: &cpparser::EntityView, full: &str) {
    let cols = symrt::u16();
    assume(cols > 0);
    let b = e.bounded_display(cols);
    log(b.as_bytes());
    let w = b.chars().count();
    check(w <= cols as usize, "bounded display too wide");
    if full.len() <= cols as usize {
        cover("fits");
        check(b == full, "bounded display elides although everything fits");
    } else {
        cover("elided");
        check(b.contains('…') || full.replacen("::", "", 1) == b, "silently truncated");
    }
}

/// C-style type name from n keywords, in any order
fn legacy(n: usize) {
    const K: [&str; 12] = ["unsigned", "signed", "short", "long", "int", "__int128", "char", "float", "double", "_Complex", "const", "volatile"];
    let (mut s, mut count) = (String::new(), [0u32; 12]);
    for i in 0..n {
        let k = choice(12) as usize;
        // cv qualifiers may be written around, not between, the keywords
        assume(k < 10 || i == 0 || i + 1 == n);
        count[k] += 1;
        s.push_str(if i > 0 { " " } else { "" });
        s.push_str(K[k]);
    }
    let [u, si, sh, lo, int, i128_, ch, fl, dou, cplx, co, vo] = count;
    let bases = int + i128_ + ch + fl + dou;
    let words = n as u32 - co - vo;
    let legal = words > 0
        && bases <= 1
        && u + si <= 1
        && sh + lo <= if sh > 0 { 1 } else { 2 }
        && cplx <= fl + dou
        && (fl == 0 || u + si + sh + lo == 0)
        && (dou == 0 || (u + si + sh == 0 && lo <= 1))
        && (ch + i128_ == 0 || sh + lo == 0);
    let mut p = EntityParser::new();
    let k = p.parse_entity(&s);
    if !legal {
        cover("illegal");
        if words > 1 {
            check(k.is_err(), "impossible type accepted");
        }
        return;
    }
    cover("legal");
    let Ok(k) = k else {
        check(false, "legal type rejected");
        return;
    };
    let d = p.entity(k).to_string();
    log(d.as_bytes());
    let mut base = String::new();
    let mut add = |w: &str| {
        base.push_str(if base.is_empty() { "" } else { " " });
        base.push_str(w);
    };
    if u > 0 {
        add("unsigned")
    }
    if ch > 0 && si > 0 {
        add("signed")
    }
    if sh > 0 {
        add("short")
    }
    for _ in 0..lo {
        add("long")
    }
    let named = [i128_, ch, fl, dou];
    for (i, w) in ["__int128", "char", "float", "double"].into_iter().enumerate() {
        if named[i] > 0 {
            add(w)
        }
    }
    if cplx > 0 {
        add("_Complex")
    }
    if named == [0; 4] && sh + lo == 0 {
        add("int")
    }
    // Qualifiers stay on the side where they are written
    let side = |first: bool| {
        let on = |w: &str| if first { s.starts_with(w) } else { s.ends_with(w) };
        match (on("const"), on("volatile")) {
            (true, _) => "const",
            (_, true) => "volatile",
            _ => "",
        }
    };
    let mut want = String::new();
    if !side(true).is_empty() {
        want.push_str(side(true));
        want.push(' ');
    }
    want.push_str(&base);
    if !side(false).is_empty() {
        want.push(' ');
        want.push_str(side(false));
    }
    check(d == want, "type means something else");
}

/// Integer literals (n digits after a prefix, sign and suffix) keep their value
fn integer(prefix: &str, n: usize) {
    let neg = symrt::bool();
    let mut s = String::from(if neg { "-" } else { "" });
    let first = s.len();
    s.push_str(prefix);
    for _ in 0..n {
        let c = symrt::u8();
        assume(c.is_ascii_digit());
        s.push(c as char);
    }
    let digits = s.len();
    s.push_str(["", "u", "UL", "ll", "zu", "ULL"][choice(6) as usize]);
    let mut v = 0u128;
    for b in &s.as_bytes()[first..digits] {
        v = v * 10 + (b - b'0') as u128;
    }
    let mut p = EntityParser::new();
    match p.parse_literal(&s) {
        Ok((rest, l)) => {
            cover("accepted");
            check(rest.is_empty(), "literal partly read");
            let l = p.literal(l);
            check(l.custom_suffix().is_none(), "standard suffix taken for a custom one");
            match l.value() {
                LiteralValue::I64(i) if neg => check(i <= 0 && i.unsigned_abs() as u128 == v, "integer changed value"),
                LiteralValue::I64(i) => check(i >= 0 && i as u128 == v, "integer changed value"),
                LiteralValue::U64(u) => check(!neg && u as u128 == v, "integer changed value"),
                LiteralValue::Char(_) => check(false, "integer became a character"),
            }
        }
        Err(_) => {
            cover("rejected");
            check(if neg { v > 1 << 63 } else { v > u64::MAX as u128 }, "64-bit integer rejected");
        }
    }
}

/// A character literal prints as a literal for the same character
fn character(t: &str) {
    let s = holes(t);
    let mut p = EntityParser::new();
    match p.parse_entity(&s) {
        Ok(k) => {
            cover("accepted");
            let d = p.entity(k).to_string();
            log(d.as_bytes());
            if !d.is_ascii() {
                return;
            }
            let k2 = p.parse_entity(&d);
            check(k2 == Ok(k), "displayed character is another character");
            let plain = s.as_bytes();
            if plain.len() == 6 && plain[3] != b'\'' && plain[3] != b'\\' && (0x20..0x7f).contains(&plain[3]) {
                check(d == s, "plain character changed");
            }
        }
        Err(_) => cover("rejected"),
    }
}

/// What a name means, and what was returned for it, does not depend on the
/// names (good or bad) that were parsed before or after
fn history(a: &str, b: &str) {
    let (a, b) = (holes(a), holes(b));
    let mut p = EntityParser::new();
    let ka = p.parse_entity(&a).ok();
    let da = ka.map(|k| p.entity(k).to_string());
    let kb = p.parse_entity(&b).ok();
    let db = kb.map(|k| p.entity(k).to_string());
    let mut fresh = EntityParser::new();
    let kf = fresh.parse_entity(&b).ok();
    let df = kf.map(|k| fresh.entity(k).to_string());
    cover(if da.is_some() { "first accepted" } else { "first rejected" });
    cover(if db.is_some() { "second accepted" } else { "second rejected" });
    for d in [&da, &db].into_iter().flatten() {
        log(d.as_bytes());
    }
    check(db == df, "meaning depends on earlier names");
    check(ka.map(|k| p.entity(k).to_string()) == da, "earlier entity changed meaning");
    check(p.parse_entity(&a).ok() == ka, "same name, another entity");
    check(p.parse_entity(&b).ok() == kb, "same name, another entity (second)");
    if let (Some(ka), Some(kb)) = (ka, kb) {
        check((ka == kb) == (da == db) || a.contains('~') || b.contains('~'), "entities are equal iff they print the same");
    }
}

/// An operator in an expression in a name: which are understood is decided by
/// the innermost brackets around it
fn operators() {
    // name (the expression is at #), is `>` allowed?, is `,` allowed?
    const CONTEXTS: [(&str, bool, bool); 20] = [
        ("R<f(#)>", true, false),
        ("R<f(1, #)>", true, false),
        ("R<f(#, 1)>", true, false),
        ("R<f[#]>", true, false),
        ("R<(#)>", true, true),
        ("R<#>", false, false),
        ("R<int, #>", false, false),
        ("R<#, int>", false, false),
        ("decltype(#)", true, false),
        ("R<decltype(#)>", true, false),
        ("T[#]", true, false),
        ("R<(f<#>(1))>", false, false),
        ("R<f(g<#>)>", false, false),
        ("R<new(#) T>", true, false),
        ("R<new T(#)>", true, false),
        ("R<a ? # : b>", false, false),
        ("R<(a ? 1 : #)>", true, true),
        ("f() noexcept(#)", true, false),
        ("R<T(#).m>", true, false),
        ("R<!(#)>", true, true),
    ];
    const OPS: [&str; 31] = [
        "+", "-", "*", "/", "%", "^", "&", "|", "=", "<", "==", "!=", "<=", "<<", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<=", "->", "->*", "<=>",
        ">", ">>", ",",
    ];
    let at = choice(20) as usize;
    let (context, greater, comma) = CONTEXTS[at];
    let i = choice(31) as usize;
    let ok = i < 28 || if i == 30 { comma } else { greater };
    // those that have another reading
    assume((ok || i < 30 && at != 11) && (i != 9 || greater));
    let (x, y) = ((symrt::u8() & 15) + b'c', (symrt::u8() & 15) + b'c');
    let tight = i == 25 || i == 26;
    let mut e = String::new();
    e.push(x as char);
    e.push_str(if tight || i == 30 { "" } else { " " });
    e.push_str(OPS[i]);
    e.push_str(if tight { "" } else { " " });
    e.push(y as char);
    let s = context.replacen('#', &e, 1);
    log(s.as_bytes());
    let mut p = EntityParser::new();
    match p.parse_entity(&s) {
        Ok(k) => {
            check(ok, "ambiguous operator accepted");
            let d = p.entity(k).to_string();
            log(d.as_bytes());
            check(squeeze(&d) == squeeze(&s), "name displays differently");
            cover("accepted")
        }
        Err(_) => {
            check(!ok, "operator refused");
            cover("rejected")
        }
    }
}
/// Deeply nested names
fn deep(g: &mut Gen, max: u32) {
    let kind = choice(10);
    // nested calls and function types take exponential time
    let depth = 1 + choice(if matches!(kind, 2 | 4 | 9) { max / 2 } else { max });
    let around: [(&str, &str, &str); 10] = [
        ("A<", "B", ">"),
        ("decltype(", "b", ")"),
        ("A<f(", "1", ")>"),
        ("A<(", "b", ")>"),
        ("f(", "int", ")"),
        ("a::", "b", ""),
        ("A<a[", "1", "]>"),
        ("A<int, ", "B", ">"),
        ("A<", "B", ">::c"),
        ("f(A<", "B", ">*)"),
    ];
    let (pre, mid, post) = around[kind as usize];
    // the template around an expression is not repeated
    let (head, pre) = if pre.len() > 2 && pre.starts_with("A<") && kind != 7 { pre.split_at(2) } else { ("", pre) };
    let (post, tail) = if !head.is_empty() { post.split_at(1) } else { (post, "") };
    g.p(head);
    for _ in 0..depth {
        g.p(pre)
    }
    g.p(mid);
    for _ in 0..depth {
        g.p(post)
    }
    g.p(tail);
}
const DEEP: fn(&mut Gen) = |g| deep(g, 12);
const NAME: fn(&mut Gen) = |g| {
    g.scopes(1);
    g.unqualified(1, true)
};
const TYPE: fn(&mut Gen) = |g| g.ty(1);
const VALUE: fn(&mut Gen) = |g| {
    g.p("R<");
    g.value(1, false);
    g.p(">")
};
const VALUE2: fn(&mut Gen) = |g| {
    g.p("R<");
    g.value(2, false);
    g.p(">")
};
const FUNC: fn(&mut Gen) = |g| {
    g.p("f(");
    g.ty(1);
    g.p(")")
};
const ARGS: fn(&mut Gen) = |g| {
    g.p("R<");
    g.ty(1);
    g.p(", ");
    g.ty(0);
    g.p(">::m")
};

symrt::harnesses! {
    fn h_legacy_3() { legacy(3) }
    fn h_legacy_4() { legacy(4) }
    fn h_legacy_5() { legacy(5) }
    fn h_int_3() { integer("", 3) }
    fn h_int_19() { integer("922337203685477", 4) }
    fn h_int_20() { integer("1844674407370955", 4) }
    fn h_int_20s() { integer("", 20) }
    fn h_char_1() { character("A<'$'>") }
    fn h_char_2() { character("A<'$$'>") }
    fn h_char_3() { character("A<'\\x$$'>") }
    fn h_char_4() { character("A<'\\$$$'>") }
    fn h_char_5() { character("A<u8'\\u$$'>") }
    fn h_hist_1() { history("f<$$>(x)", "g<a, b>(c, d)::h[1]") }
    fn h_hist_2() { history("f<a, b$, c(d, $)>", "f<a, b>") }
    fn h_hist_3() { history("A<B>::C(D, $$", "$") }
    fn h_hist_4() { history("A$", "A$") }
    fn h_hist_5() { history("A$(B$)", "A(B)") }
    fn h_hist_6() { history("decltype(a[b] $$ (c(d)))", "decltype(a[b] + (c(d)))") }
    fn h_hist_7() { history("(lambda at /a/b:1:$)::c", "(lambda at /a/$:1:2)::c") }
    fn h_canon_name() { canonical(false, false, NAME) }
    fn h_canon_type() { canonical(false, false, TYPE) }
    fn h_canon_value() { canonical(true, false, VALUE) }
    fn h_canon_value2() { canonical(true, false, VALUE2) }
    fn h_canon_func() { canonical(false, false, FUNC) }
    fn h_canon_args() { canonical(true, false, ARGS) }
    fn h_bound_name() { canonical(false, true, NAME) }
    fn h_bound_type() { canonical(false, true, TYPE) }
    fn h_bound_value() { canonical(true, true, VALUE) }
    fn h_bound_value2() { canonical(true, true, VALUE2) }
    fn h_bound_func() { canonical(false, true, FUNC) }
    fn h_bound_args() { canonical(true, true, ARGS) }
    fn h_ops() { operators() }
    fn h_canon_deep() { canonical(true, false, DEEP) }
    fn h_bound_deep() { canonical(true, true, DEEP) }
    fn h_any_ell_1() { entity("f(%%%%%)") }
    fn h_any_ell_2() { entity("f(...%%%%)") }
    fn h_any_ell_3() { entity("f(a, ...%%%%)") }
    fn h_any_ell_4() { entity("f(..., ...%%)") }
    fn h_any_ex_call() { entity("A<a(^^^^)>") }
    fn h_any_ex_index() { entity("A<a[^^^^]>") }
    fn h_any_ex_args() { entity("A<^^^^>") }
    fn h_any_ex_paren() { entity("A<(^^^^)>") }
    fn h_any_ex_new() { entity("A<decltype(new(^^) a(^^))>") }
    fn h_any_ex_array() { entity("f[^^^^]") }
    fn h_any_ex_noexcept() { entity("f() noexcept(^^^)") }
    fn h_any_ex_tern() { entity("A<^ ? ^^ : ^>") }
    fn h_any_3() { entity("$$$") }
    fn h_any_4() { entity("$$$$") }
    fn h_any_array() { entity("f[$$$]") }
    fn h_any_args() { entity("A<$$$>") }
    fn h_any_params() { entity("f($$$)") }
    fn h_any_decltype() { entity("decltype($$$)") }
    fn h_any_operator() { entity("operator$$$") }
    fn h_any_conversion() { entity("operator @$$") }
    fn h_any_scoped() { entity("a::$$$") }
    fn h_any_scope() { entity("@@::a") }
    fn h_any_lambda_path() { entity("(lambda at /```:1:2)") }
    fn h_any_lambda_rel() { entity("(lambda at ```:1:2)") }
    fn h_any_lambda_loc() { entity("(lambda at /a:$$$)") }
    fn h_any_anonymous() { entity("(anonymous$$$)") }
    fn h_any_anonymous_at() { entity("(anonymous class at /```:1:2)") }
    fn h_any_unnamed() { entity("{unnamed type#$$") }
    fn h_any_declarator() { entity("A<int $$$>") }
    fn h_any_paren() { entity("A<int ($$)(a)>") }
    fn h_any_new() { entity("A<decltype(new $$)>") }
    fn h_any_quals() { entity("f() $$$") }
    fn h_any_cast() { entity("A<(B)$$$>") }
    fn h_any_unary() { entity("A<&$$$>") }
    fn h_any_binary() { entity("A<a$$$b>") }
    fn h_any_ll_params() { entity("{lambda($$$)#1}") }
    fn h_any_ll_id() { entity("{lambda()$$$}") }
    fn h_any_pack() { entity("A<$$$...>") }
    fn h_any_const() { entity("const $$$") }
    fn h_any_destructor() { entity("~$$") }
    fn h_any_after_args() { entity("A<T>$$$") }
    fn h_any_fn_scope() { entity("f($$$)::g") }
    fn h_any_ternary() { entity("A<a ? $ : $>") }
    fn h_any_member() { entity("A<a$b$c>") }
    fn h_any_sizeof() { entity("A<sizeof($$)>") }
    fn h_any_call() { entity("A<a($, $)>") }
    fn h_any_two_args() { entity("A<$, $>") }
    fn h_any_two_params() { entity("f($, $$)") }
    fn h_any_arrow() { entity("f() -> $$") }
    fn h_any_noexcept() { entity("f() noexcept$$$") }
    fn h_any_attribute() { entity("__attribute__((x$$)) a") }
    fn h_any_auto() { entity("auto:$$") }
    fn h_any_vector() { entity("a __vector($$)") }
    fn h_any_member_ptr() { entity("a b::$$") }
    fn h_any_op_args() { entity("operator<$$$>") }
    fn h_any_keyword() { entity("long$$$") }
    fn h_any_abi() { entity("f[abi:$$](a)") }
}
fn main() {
    symrt::main(TABLE)
}
