// Harnesses for the compilation database and for build profiles
use crate::{
    commands::{CompilationDatabase, DatabaseEntry, DatabaseLoadError, ProductFreshness},
    output::{self, ProfileLoadError, UnitProfile},
};
use std::{
    path::{Path, PathBuf},
    time::Duration,
};
use symrt::*;

/// A character of the text of a string in a JSON file
fn plain() -> u8 {
    let c = symrt::u8();
    assume(c >= 0x20 && c < 0x7f && c != b'"' && c != b'\\');
    c
}

/// What a field of an entry is
fn field(name: &str, kind: u32, value: &str, out: &mut String) {
    let more = match kind {
        0 => return,
        1 => format!("\"{name}\":\"{value}\""),
        2 => format!("\"{name}\":null"),
        3 => format!("\"{name}\":[\"{value}\"]"),
        4 => format!("\"{name}\":7"),
        _ => format!("\"{name}\":\"{value}\",\"{name}\":\"{value}\""),
    };
    if !out.ends_with('{') {
        out.push(',');
    }
    out.push_str(&more);
}

/// Every combination of the fields of an entry, in two orders
fn fields() {
    let (a, b) = (plain() as char, plain() as char);
    // one field is as `kind` says, one more may be missing
    let odd = choice(5);
    let kind = choice(6);
    let reversed = choice(2) == 1;
    let unknown = choice(2) == 1;
    let names = ["directory", "command", "file", "output"];
    let values = [format!("/d{a}"), format!("c {b}"), "f".to_string(), format!("o{a}{b}")];
    let mut kinds = [1u32; 4];
    if odd < 4 {
        kinds[odd as usize] = kind;
    } else {
        kinds[3] = 0;
        assume(kind == 0);
    }
    let mut text = String::from("[{");
    for k in 0..4 {
        let k = if reversed { 3 - k } else { k };
        field(names[k], kinds[k], &values[k], &mut text);
        if unknown && k == 1 {
            field("arguments", 3, "x", &mut text);
        }
    }
    text.push_str("}]");
    log(text.as_bytes());
    let required = kinds[..3].iter().all(|k| *k == 1);
    let ok = required && kinds[3] < 3 && !unknown;
    match text.parse::<CompilationDatabase>() {
        Err(_) => {
            check(!ok, "a valid compilation database is refused");
            cover("rejected");
        }
        Ok(db) => {
            check(ok, "an invalid compilation database is accepted");
            cover("accepted");
            let e = db.entries().next().expect("no entry");
            check(db.entries().count() == 1, "number of entries");
            check(e.current_dir() == Path::new(&values[0]), "directory");
            check(e.raw_command() == values[1], "command");
            check(e.input() == Path::new(&values[2]), "file");
            if kinds[3] == 1 {
                check(e.output() == Some(PathBuf::from(&values[3])), "output");
            } else {
                check(e.output().is_none(), "made up output");
            }
            check(db.entry(Path::new(&values[2])) == Some(e), "entry by file");
            check(db.entry(Path::new("/nowhere")).is_none(), "entry of no file");
        }
    }
}

/// Databases with several entries
fn entries(n: usize) {
    let names = ["a.c", "b.c", "./a.c"];
    let mut text = String::from("[");
    let mut files = vec![];
    let c = plain() as char;
    for k in 0..n {
        let f = names[choice(3) as usize];
        if k > 0 {
            text.push(',');
        }
        text.push_str(&format!("{{\"directory\":\"/d\",\"command\":\"cc {c}{k}\",\"file\":\"{f}\"}}"));
        files.push(f);
    }
    text.push(']');
    let Ok(db) = text.parse::<CompilationDatabase>() else {
        check(false, "a valid compilation database is refused");
        return;
    };
    let mut different = files.clone();
    different.sort_unstable();
    different.dedup();
    check(db.entries().count() == different.len(), "number of entries");
    for (k, f) in files.iter().enumerate() {
        let Some(e) = db.entry(Path::new(f)) else {
            check(false, "an entry gets lost");
            return;
        };
        check(e.input() == Path::new(f), "entry of another file");
        if !files[k + 1..].contains(f) {
            check(e.raw_command() == format!("cc {c}{k}"), "command of another entry");
        }
        check(db.entries().filter(|x| x.input() == Path::new(f)).count() == 1, "an entry comes twice");
    }
    if different.len() < n {
        cover("same file");
    } else {
        cover("different files");
    }
    let mut other = CompilationDatabase::new();
    for e in db.entries() {
        other.push(e.clone());
    }
    check(other == db, "database put together by hand");
    other.clear();
    check(other.entries().next().is_none() && other == CompilationDatabase::new(), "cleared database");
}

const TOKENS: &[&str] = &[
    "[", "{", "\"directory\"", ":", "\"/d\"", ",", "\"command\"", ":", "\"c x\"", ",", "\"file\"", ":", "\"f\"", ",", "\"output\"", ":", "\"o\"", "}", "]",
];
/// A database one of whose tokens is anything
fn token(lo: u32, hi: u32) {
    let which = (lo + choice(hi - lo)) as usize;
    let (a, b) = (symrt::u8(), symrt::u8());
    assume(a < 0x80 && b < 0x80);
    let mut text = vec![];
    for (k, t) in TOKENS.iter().enumerate() {
        if k == which {
            text.extend([a, b]);
        } else {
            text.extend(t.as_bytes());
        }
    }
    garbled(&text);
}
/// Every start of a database
fn cut() {
    let text = TOKENS.concat();
    let n = choice(text.len() as u32) as usize;
    let mut text = text.as_bytes()[..n].to_vec();
    let c = symrt::u8();
    assume(c < 0x80);
    text.push(c);
    garbled(&text);
}
fn any(n: usize) {
    let mut text = vec![0; n];
    fill(&mut text);
    for c in &text {
        assume(!c.is_ascii_digit());
    }
    garbled(&text);
}
fn garbled(text: &[u8]) {
    let Ok(text) = std::str::from_utf8(text) else { return };
    let v = serde_json::from_str::<serde_json::Value>(text).ok();
    let string = |v: Option<&serde_json::Value>| matches!(v, Some(serde_json::Value::String(_)));
    let valid = |v: &serde_json::Value| match v {
        serde_json::Value::Object(m) => {
            m.keys().all(|k| matches!(&**k, "directory" | "command" | "file" | "output"))
                && ["directory", "command", "file"].iter().all(|k| string(m.get(*k)))
                && (matches!(m.get("output"), None | Some(serde_json::Value::Null)) || string(m.get("output")))
        }
        _ => false,
    };
    let ok = match &v {
        Some(serde_json::Value::Array(a)) => a.iter().all(valid),
        _ => false,
    };
    match text.parse::<CompilationDatabase>() {
        Err(_) => {
            check(!ok, "a valid compilation database is refused");
            cover("rejected");
        }
        Ok(db) => {
            check(ok, "an invalid compilation database is accepted");
            cover("accepted");
            let Some(serde_json::Value::Array(a)) = v else { return };
            check(db.entries().count() == a.len(), "number of entries");
            for (e, v) in db.entries().zip(&a) {
                check(v["directory"].as_str().map(Path::new) == Some(e.current_dir()), "directory");
                check(v["command"].as_str() == Some(e.raw_command()), "command");
                check(v["file"].as_str().map(Path::new) == Some(e.input()), "file");
            }
        }
    }
}
/// Loading from the current directory
fn load() {
    let there = choice(3);
    let text = match there {
        0 => None,
        1 => Some("[]"),
        _ => Some("[{]"),
    };
    if let Some(t) = text {
        sys::file_at("compile_commands.json", t.as_bytes());
    }
    match (there, CompilationDatabase::load()) {
        (0, Err(DatabaseLoadError::FileNotFound)) => cover("missing"),
        (1, Ok(db)) => {
            check(db == CompilationDatabase::new(), "entries from nowhere");
            cover("loaded");
        }
        (2, Err(DatabaseLoadError::ParseError(_))) => cover("garbled"),
        _ => check(false, "outcome of loading a compilation database"),
    }
}

/// What a POSIX shell makes of a simple command; None if it is not complete
fn words(s: &[u8]) -> Option<Vec<Vec<u8>>> {
    #[derive(PartialEq)]
    enum Q {
        No,
        Single,
        Double,
        Comment,
    }
    let mut out = vec![];
    let mut word: Option<Vec<u8>> = None;
    let mut q = Q::No;
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        i += 1;
        match q {
            Q::Comment => {
                if c == b'\n' {
                    q = Q::No;
                }
            }
            Q::Single => {
                if c == b'\'' {
                    q = Q::No;
                } else {
                    word.as_mut().unwrap().push(c);
                }
            }
            Q::Double => {
                if c == b'"' {
                    q = Q::No;
                } else if c == b'\\' {
                    let d = *s.get(i)?;
                    i += 1;
                    let w = word.as_mut().unwrap();
                    if d == b'$' || d == b'`' || d == b'"' || d == b'\\' {
                        w.push(d);
                    } else if d != b'\n' {
                        w.push(c);
                        w.push(d);
                    }
                } else {
                    word.as_mut().unwrap().push(c);
                }
            }
            Q::No => {
                if c == b' ' || c == b'\t' || c == b'\n' {
                    out.extend(word.take());
                } else if c == b'#' && word.is_none() {
                    q = Q::Comment;
                } else {
                    if c == b'\\' {
                        let d = *s.get(i)?;
                        i += 1;
                        if d != b'\n' {
                            word.get_or_insert_with(Vec::new).push(d);
                        } else if word.is_none() {
                            // the line goes on, nothing is quoted
                            continue;
                        }
                        continue;
                    }
                    let w = word.get_or_insert_with(Vec::new);
                    if c == b'\'' {
                        q = Q::Single;
                    } else if c == b'"' {
                        q = Q::Double;
                    } else {
                        w.push(c);
                    }
                }
            }
        }
    }
    if q == Q::Single || q == Q::Double {
        return None;
    }
    out.extend(word);
    Some(out)
}

/// Fill in the $ of a template
fn template(t: &str) -> String {
    let mut b = vec![];
    for c in t.bytes() {
        if c == b'$' {
            let x = symrt::u8();
            assume(x >= 1 && x < 0x80);
            b.push(x);
        } else {
            b.push(c);
        }
    }
    String::from_utf8(b).unwrap()
}
/// The parts of a command
fn command(t: &str) {
    let cmd = template(t);
    let e = DatabaseEntry::new(Path::new("/d"), cmd.as_str(), Path::new("f"), None);
    let Some(w) = words(cmd.as_bytes()) else {
        // no shell would run this
        let _ = (e.program().is_some(), e.args().count(), e.output());
        cover("incomplete");
        return;
    };
    // a backslash and a newline that make up a word of their own, on which shells and shlex differ
    if cmd.contains("\\\n") {
        return;
    }
    match (e.program(), w.first()) {
        (None, None) => cover("empty"),
        (Some(p), Some(q)) => check(p.as_ref().as_bytes() == &q[..], "program"),
        _ => check(false, "program or not"),
    }
    let args: Vec<Vec<u8>> = e.args().map(|a| a.as_ref().as_bytes().to_vec()).collect();
    check(args.len() == w.len().saturating_sub(1), "number of arguments");
    for (a, b) in args.iter().zip(w.iter().skip(1)) {
        check(a == b, "argument");
        log(a);
    }
    if args.len() > 1 {
        cover("arguments");
    }
    // -o <output>, relative to the directory of the build
    let out = w.iter().skip(1).position(|a| a == b"-o").and_then(|k| w.get(k + 2));
    let want = out.and_then(|o| {
        let o = Path::new(std::str::from_utf8(o).unwrap());
        let name = o.file_name()?;
        Some(Path::new("/d").join(o.parent().unwrap_or(Path::new(""))).join(name))
    });
    let got = e.output();
    if want.is_some() {
        cover("output");
    }
    check(got == want, "output file");
}

/// Is a product up to date?
fn freshness(n: usize) {
    let inputs = ["in0", "in1", "in2"];
    let time = |small: bool| {
        let s = if small { symrt::u8() as i64 } else { i64::from_le_bytes(bytes()) };
        let ns = symrt::u32();
        assume(ns < 1_000_000_000);
        (s, ns)
    };
    let small = n > 1;
    // existence: there, missing or unreadable
    let file = |name: &str, kind: u32| -> Option<(i64, u32)> {
        let t = time(small);
        match kind {
            0 => os::file_time(name, Some(t)),
            1 => {}
            _ => os::file_time(name, None),
        }
        (kind == 0).then_some(t)
    };
    let kp = choice(3);
    let product = file("product", kp);
    let kd = choice(2) * 2;
    let db = file("compile_commands.json", kd);
    let mut times = vec![];
    for k in 0..n {
        times.push(file(inputs[k], choice(2)));
    }
    let (now_s, now_ns) = time(small);
    os::clock(true, now_s, now_ns as i64);
    let entry = |k: usize| DatabaseEntry::new(Path::new("/d"), "c", Path::new(inputs[k]), None);
    let got = if n == 1 && choice(2) == 1 {
        entry(0).derived_freshness(Path::new("product"))
    } else {
        CompilationDatabase::from_entries((0..n).map(entry)).profile_freshness(Path::new("product"))
    };
    let Some(p) = product else {
        if kp == 1 {
            check(matches!(got, Ok(ProductFreshness::Nonexistent)), "a missing product");
            check(!matches!(got, Ok(f) if f.exists()), "a missing product exists");
            cover("missing");
        } else {
            check(got.is_err(), "an unreadable product");
        }
        return;
    };
    let all: Vec<Option<(i64, u32)>> = std::iter::once(db).chain(times.iter().copied()).collect();
    let newer = all.iter().flatten().any(|t| p < *t);
    let unknown = all.iter().any(|t| t.is_none());
    match got {
        Err(_) => {
            check(unknown, "error although all files can be read");
            cover("error");
        }
        Ok(ProductFreshness::Nonexistent) => check(false, "the product exists"),
        Ok(f @ ProductFreshness::Outdated) => {
            check(newer, "outdated although nothing is newer");
            check(f.exists(), "an outdated product exists");
            cover("outdated");
        }
        Ok(f @ ProductFreshness::MaybeOutdated(age)) => {
            check(!newer, "up to date although a file is newer");
            check(!unknown, "up to date although a file cannot be read");
            check(f.exists(), "an up to date product exists");
            if (now_s, now_ns) < p {
                check(age.is_none(), "age of a product from the future");
                cover("future");
            } else {
                let (mut ds, mut dn) = (now_s as i128 - p.0 as i128, now_ns as i128 - p.1 as i128);
                if dn < 0 {
                    ds -= 1;
                    dn += 1_000_000_000;
                }
                check(age == Some(Duration::new(ds as u64, dn as u32)), "age of the product");
                cover("age");
            }
        }
    }
}

/// Duration of a compilation, for every possible number in a profile
fn wall_time(sign: bool, exponent: u32) {
    // every sign, exponent and mantissa
    let b: [u8; 3] = bytes();
    assume(b[2] < 128);
    let m = u32::from_le_bytes([b[0], b[1], b[2], 0]);
    if exponent >= 97 && exponent < 150 {
        // of the mantissa, only some bits are arbitrary
        let k = choice(3);
        assume(m & !(0x7ff << (6 * k)) == 0);
    }
    let secs = f32::from_bits((sign as u32) << 31 | exponent << 23 | m);
    let unit: UnitProfile = {
        use serde::de::{value::*, Deserialize, IntoDeserializer};
        let de = SeqDeserializer::<_, Error>::new([V::Path, V::Rss, V::Time(secs)].into_iter());
        #[derive(Clone, Copy)]
        enum V {
            Path,
            Rss,
            Time(f32),
        }
        impl<'de> serde::de::IntoDeserializer<'de, Error> for V {
            type Deserializer = Self;
            fn into_deserializer(self) -> Self {
                self
            }
        }
        impl<'de> serde::Deserializer<'de> for V {
            type Error = Error;
            fn deserialize_any<W: serde::de::Visitor<'de>>(self, v: W) -> Result<W::Value, Error> {
                match self {
                    V::Path => v.visit_str("f"),
                    V::Rss => v.visit_u64(1),
                    V::Time(t) => v.visit_f32(t),
                }
            }
            fn deserialize_option<W: serde::de::Visitor<'de>>(self, v: W) -> Result<W::Value, Error> {
                v.visit_some(self)
            }
            serde::forward_to_deserialize_any! {
                bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct
                newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
            }
        }
        let _ = IntoDeserializer::<'_, Error>::into_deserializer(0u8);
        UnitProfile::deserialize(SeqAccessDeserializer::new(de)).unwrap()
    };
    let got = unit.wall_time();
    match got {
        None => check(false, "no duration"),
        Some(Err(x)) => {
            check(x.to_bits() == secs.to_bits(), "a wrong duration is passed on");
            check(!(secs >= 0.0 && secs < 18446744073709551616.0), "a valid duration is refused");
            cover("invalid");
        }
        Some(Ok(d)) => {
            check(secs >= 0.0, "a negative duration");
            check(secs <= 18446744073709551616.0, "a huge duration");
            // the integer and the fractional part of the number
            if secs < 18446744073709551616.0 {
                check(d.as_secs() == secs as u64, "seconds");
                if secs >= 8388608.0 {
                    check(d.subsec_nanos() == 0, "fraction of a large number");
                    cover("large");
                } else {
                    // secs = m · 2^-e exactly
                    let bits = secs.to_bits();
                    let (e, m) = (bits >> 23 & 0xff, (bits & 0x7fffff | 0x800000) as u128);
                    if e >= 127 - 30 {
                        let shift = 150 - e;
                        let frac = m & ((1u128 << shift) - 1);
                        let exact = frac * 1_000_000_000;
                        let got = (d.subsec_nanos() as u128) << shift;
                        // single precision: 64 ns
                        check(got <= exact + (64 << shift) && exact <= got + (65u128 << shift), "nanoseconds");
                        cover("small");
                    } else {
                        check(d.as_nanos() <= 1, "nanoseconds of a tiny number");
                        cover("tiny");
                    }
                }
            } else {
                cover("limit");
            }
        }
    }
}

/// Profile written as the measurement does, and loaded again
fn profile(n: usize, len: usize, digits: bool) {
    let mut units = vec![];
    for k in 0..n {
        let mut p = vec![0; len];
        fill(&mut p);
        for c in &p {
            assume(*c >= 1 && *c < 0x80);
        }
        let rss = if k == 0 && digits {
            match choice(2) {
                0 => symrt::u8() as u64,
                _ => 10u64.pow(choice(20)) - choice(2) as u64,
            }
        } else {
            u64::MAX
        };
        let time = match if k == 0 { choice(3) } else { 0 } {
            0 => None,
            1 => Some(Duration::from_millis(1500)),
            _ => Some(Duration::from_secs(0)),
        };
        units.push((String::from_utf8(p).unwrap(), rss, time));
    }
    let mut w = csv::Writer::from_writer(vec![]);
    for (p, r, t) in &units {
        check(w.serialize(UnitProfile::new(PathBuf::from(p), *r, *t)).is_ok(), "writing a profile");
    }
    let text = w.into_inner().unwrap_or_default();
    log(&text);
    let path = sys::file("profile.csv", &text);
    match output::load(&path) {
        Err(_) => check(false, "loading a profile"),
        Ok(got) => {
            check(got.len() == n, "number of units");
            for (g, (p, r, t)) in got.iter().zip(&units) {
                check(g.rel_path() == Path::new(p), "path");
                check(g.max_rss_bytes() == *r, "memory");
                check(g.wall_time() == t.map(Ok), "time");
            }
            cover("loaded");
        }
    }
}
/// Any text as a profile
fn profile_text(t: &str) {
    let text = template(t);
    let path = sys::file("profile.csv", text.as_bytes());
    match output::load(&path) {
        Ok(units) => {
            cover("loaded");
            for u in units {
                let _ = u.wall_time();
                log(&u.max_rss_bytes().to_le_bytes());
            }
        }
        Err(ProfileLoadError::ParseError(_)) => cover("rejected"),
        Err(ProfileLoadError::FileNotFound) => check(false, "the file is there"),
    }
}
fn profile_missing() {
    check(matches!(output::load("/verif-files/nothing"), Err(ProfileLoadError::FileNotFound)), "a missing profile");
    cover("missing");
}

harnesses! {
    fn h_db_fields() { fields() }
    fn h_db_entries_2() { entries(2) }
    fn h_db_entries_3() { entries(3) }
    fn h_db_tok_a() { token(0, 7) }
    fn h_db_tok_b() { token(7, 13) }
    fn h_db_tok_c() { token(13, 19) }
    fn h_db_cut() { cut() }
    fn h_db_any_2() { any(2) }
    fn h_db_any_4() { any(4) }
    fn h_db_load() { load() }
    fn h_cmd_3() { command("$$$") }
    fn h_cmd_4() { command("$$$$") }
    fn h_cmd_5() { command("$$$$$") }
    fn h_cmd_quote() { command("a '$$' \"$$\" b") }
    fn h_cmd_double() { command("a \"$$$\"b") }
    fn h_cmd_out() { command("c -o $$$") }
    fn h_cmd_out2() { command("c$-o$a$b c") }
    fn h_cmd_out3() { command("c -o x/$$ -o y") }
    fn h_cmd_first() { command("-o $ -$ z") }
    fn h_fresh_1() { freshness(1) }
    fn h_fresh_2() { freshness(2) }
    fn h_fresh_3() { freshness(3) }
    fn h_wall_time_a() { wall_time(false, choice(127)) }
    fn h_wall_time_b() { wall_time(false, 127 + choice(23)) }
    fn h_wall_time_c() { wall_time(false, 150 + choice(106)) }
    fn h_wall_time_neg() { wall_time(true, choice(256)) }
    fn h_profile_digits() { profile(1, 0, true) }
    fn h_profile_1() { profile(1, 1, false) }
    fn h_profile_2() { profile(1, 2, false) }
    fn h_profile_two() { profile(2, 1, false) }
    fn h_profile_text_a() { profile_text("file,max_rss\n$$$,1\n") }
    fn h_profile_text_b() { profile_text("file,max_rss,time\nf,$$,$$$\n") }
    fn h_profile_text_c() { profile_text("$$$") }
    fn h_profile_missing() { profile_missing() }
}

pub fn main() {
    symrt::main(&[TABLE, crate::measure::verif::TABLE].concat());
}
