//! Debug locations: which functions of the repository were executed.
use crate::ir::*;
use std::collections::{BTreeSet, HashMap};

fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    let pat = format!("{}: ", k);
    let mut from = 0;
    while let Some(i) = l[from..].find(&pat) {
        let at = from + i;
        if at == 0 || matches!(l.as_bytes()[at - 1], b'(' | b' ' | b',') {
            let r = &l[at + pat.len()..];
            if let Some(q) = r.strip_prefix('"') {
                return q.split('"').next();
            }
            let e = r.find([',', ')']).unwrap_or(r.len());
            return Some(&r[..e]);
        }
        from = at + 1;
    }
    None
}
fn md(m: &Module, id: u32) -> Option<&str> {
    m.md.get(&id).map(|(a, b)| std::str::from_utf8(&m.text[*a..*b]).unwrap_or(""))
}
fn refid(s: &str) -> Option<u32> {
    s.strip_prefix('!')?.parse().ok()
}
/// (function name, file, line, inlinedAt)
fn loc(m: &Module, id: u32) -> Option<(String, String, u32, Option<u32>)> {
    let l = md(m, id)?;
    if !l.contains("DILocation(") {
        return None;
    }
    let line = field(l, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
    let ia = field(l, "inlinedAt").and_then(refid);
    let mut s = field(l, "scope").and_then(refid)?;
    for _ in 0..64 {
        let t = md(m, s)?;
        if t.contains("DISubprogram(") {
            let name = field(t, "name").unwrap_or("?").to_string();
            let file = field(t, "file").and_then(refid).and_then(|f| md(m, f)).unwrap_or("");
            let fname = field(file, "filename").unwrap_or("").to_string();
            return Some((name, fname, line, ia));
        }
        s = field(t, "scope").and_then(refid)?;
    }
    None
}
fn is_repo(f: &str) -> bool {
    f.starts_with("/repo/") || f.contains("/repo/")
}
pub fn repo_loc(m: &Module, id: u32) -> Option<String> {
    let mut d = id;
    for _ in 0..64 {
        let (_, f, l, ia) = loc(m, d)?;
        if is_repo(&f) {
            return Some(format!("{}:{}", f, l));
        }
        d = ia?;
    }
    None
}
pub fn repo_functions(m: &Module, dbgs: &[u32]) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let mut seen: HashMap<u32, ()> = HashMap::new();
    let mut st: Vec<u32> = dbgs.to_vec();
    while let Some(d) = st.pop() {
        if d == 0 || seen.insert(d, ()).is_some() {
            continue;
        }
        if let Some((n, f, _, ia)) = loc(m, d) {
            if is_repo(&f) {
                let f = f.split("/repo/").last().unwrap_or(&f).to_string();
                out.insert(format!("{}: {}", f, n));
            }
            if let Some(i) = ia {
                st.push(i);
            }
        }
    }
    out
}
