//! Harnesses for `clang-time-trace` (loading -ftime-trace profiles)
use clang_time_trace::*;
use std::str::FromStr;
use symrt::{assume, check, choice, cover, log};

// ------------------------------------------------------------ JSON snippets
/// A decimal digit of unknown value
fn digit(min: u8) -> u8 {
    let d = symrt::u8();
    assume((d >= min) & (d < 10));
    d
}
struct Json(Vec<u8>);
impl Json {
    fn new() -> Self {
        Json(br#"{"traceEvents":["#.to_vec())
    }
    fn s(&mut self, x: &str) -> &mut Self {
        self.0.extend_from_slice(x.as_bytes());
        self
    }
    fn d(&mut self, d: u8) -> &mut Self {
        self.0.push(b'0' + d);
        self
    }
    fn b(&mut self, b: u8) -> &mut Self {
        self.0.push(b);
        self
    }
    /// Start another event
    fn ev(&mut self) -> &mut Self {
        if self.0.last() == Some(&b'}') {
            self.0.push(b',');
        }
        self
    }
    fn process(&mut self) -> &mut Self {
        self.ev().s(PROCESS)
    }
    fn text(&mut self) -> String {
        self.s("]}");
        // every byte of it is ASCII
        unsafe { String::from_utf8_unchecked(std::mem::take(&mut self.0)) }
    }
    fn load(&mut self) -> Result<ClangTrace, ClangTraceParseError> {
        let t = self.text();
        log(t.as_bytes());
        ClangTrace::from_str(&t)
    }
}
const PROCESS: &str = r#"{"ph":"M","pid":1,"tid":0,"ts":0,"cat":"","name":"process_name","args":{"name":"clang"}}"#;

// ----------------------------------------------------------- T01: any text
fn any_text(n: usize) {
    let mut b = vec![0; n];
    symrt::fill(&mut b);
    for x in &b {
        assume((*x < 0x80) & !x.is_ascii_digit());
    }
    let s = String::from_utf8(b).unwrap();
    match ClangTrace::from_str(&s) {
        Ok(_) => check(false, "accepted"),
        Err(_) => cover("rejected"),
    }
}

// ------------------------------------------------------ T02: activity tree
/// Activities in file order: time stamp 2a, duration b. Every activity gets
/// its place in the tree, or the trace is rejected.
fn tree(n: usize, long: bool) {
    tree_from(n, long, 1)
}
fn tree_from(n: usize, long: bool, min: u8) {
    let mut j = Json::new();
    let (mut s, mut e) = (vec![], vec![]);
    for _ in 0..n {
        let (ts, dur) = (digit(0), digit(if long { 0 } else { min }));
        j.ev().s(r#"{"ph":"X","pid":1,"tid":0,"ts":        2"#).d(ts);
        let mut w = dur as u64;
        let mut t0 = 20 + ts as u64;
        if long {
            // two more digits
            let (a, b) = (digit(0), digit(1));
            t0 = 10 * t0 + a as u64;
            w += 10 * b as u64;
            j.d(a).s(r#","dur":        "#).d(b);
        } else {
            j.s(r#","dur":        "#);
        }
        j.d(dur).s(r#","name":"Frontend"}"#);
        s.push(t0);
        e.push(t0 + w);
    }
    j.process();
    let mut sorted = true;
    let mut nested = true;
    for i in 0..n {
        for k in 0..i {
            sorted &= e[k] <= e[i];
            nested &= !((s[k] < s[i]) & (s[i] < e[k]));
        }
    }
    let trace = match j.load() {
        Ok(t) => t,
        Err(err) => {
            check(!(sorted & nested), "rejected");
            match err {
                ClangTraceParseError::ActivityTreeError(ActivityTreeError::UnexpectedActivityOrder { .. }) => {
                    check(!sorted, "order-error");
                    cover("unordered")
                }
                ClangTraceParseError::ActivityTreeError(ActivityTreeError::PartialActivityOverlap { .. }) => {
                    check(!nested, "overlap-error");
                    cover("overlap")
                }
                _ => check(false, "other-error"),
            }
            return;
        }
    };
    check(sorted & nested, "accepted");
    cover("accepted");
    // parents, from the input alone
    let mut parent = vec![n as u64; n];
    let mut own: Vec<i64> = (0..n).map(|i| (e[i] - s[i]) as i64).collect();
    for i in 0..n {
        for k in (i + 1..n).rev() {
            parent[i] = if s[k] <= s[i] { k as u64 } else { parent[i] };
        }
        for k in i + 1..n {
            own[k] -= if parent[i] == k as u64 { (e[i] - s[i]) as i64 } else { 0 };
        }
    }
    let all: Vec<_> = trace.all_activities().collect();
    check(all.len() == n, "all-count");
    let mut roots = vec![0u8; n];
    for r in trace.root_activities() {
        roots[r.id()] += 1;
    }
    let mut seen = vec![false; n];
    for a in &all {
        let i = a.id();
        check(i < n && !seen[i], "all-distinct");
        seen[i] = true;
        let same = (a.start() == s[i] as f64) & (a.end() == e[i] as f64) & (a.duration() == (e[i] - s[i]) as f64);
        check(same, "span");
        check(a.self_duration() == own[i] as f64, "self-duration");
        let p = a.parent().map_or(n, |p| p.id());
        check(p as u64 == parent[i], "parent");
        check(roots[i] == (p == n) as u8, "roots");
        check(trace.activity_trace(i) == *a, "by-id");
        // children and descendants, from parents
        let mut kids = vec![0u8; n];
        for c in a.direct_children() {
            kids[c.id()] += 1;
        }
        let mut desc = vec![0u8; n];
        for c in a.all_children() {
            desc[c.id()] += 1;
        }
        for c in 0..n {
            check(kids[c] == (all[c].id() == c && parent[c] == i as u64) as u8, "children");
            let mut up = parent[c];
            let mut under = false;
            for _ in 0..n {
                under |= up == i as u64;
                up = if up < n as u64 { parent[symrt::concretize(up) as usize] } else { up };
            }
            check(desc[c] == under as u8, "descendants");
        }
        if p < n {
            cover("nested")
        }
    }
}


/// The same for any shape of trace, with two unknown characters somewhere
fn any_token(which: u32) {
    let tokens: &[&str] = &[
        "{", r#""traceEvents""#, ":", "[", "{", r#""ph""#, ":", r#""X""#, ",", r#""pid""#, ":", "1", ",", r#""tid""#, ":", "1", ",",
        r#""ts""#, ":", "5", ",", r#""dur""#, ":", "5", ",", r#""name""#, ":", r#""RunPass""#, ",", r#""args""#, ":", "{",
        r#""detail""#, ":", r#""A b""#, "}", "}", ",", PROCESS, "]", "}",
    ];
    let mut b = vec![];
    for (i, t) in tokens.iter().enumerate() {
        if i as u32 == which {
            for _ in 0..2 {
                let x = symrt::u8();
                assume((x < 0x80) & !x.is_ascii_digit());
                b.push(x);
            }
        } else {
            b.extend_from_slice(t.as_bytes());
        }
    }
    let s = unsafe { String::from_utf8_unchecked(b) };
    match ClangTrace::from_str(&s) {
        Ok(t) => {
            check(t.process_name() == "clang", "name");
            cover("accepted")
        }
        Err(_) => cover("rejected"),
    }
}
fn any_token_range(lo: u32, hi: u32) {
    any_token(lo + choice(hi - lo))
}
/// Traces that are cut short, or followed by something
fn cut() {
    let mut j = Json::new();
    j.ev().s(r#"{"ph":"X","dur":5,"pid":1,"tid":0,"ts":5,"name":"RunPass","args":{"detail":"x"}}"#).process();
    let t = j.text();
    let n = choice(t.len() as u32 + 1) as usize;
    let mut b = t.as_bytes()[..n].to_vec();
    let c = symrt::u8();
    assume(c < 0x80);
    b.push(c);
    let whole = n == t.len() && matches!(c, b' ' | b'\n' | b'\r' | b'\t') || n + 1 == t.len() && c == b'}';
    match ClangTrace::from_str(unsafe { std::str::from_utf8_unchecked(&b) }) {
        Ok(t) => {
            check(whole, "accepted");
            check(t.all_activities().count() == 1, "count");
            cover("accepted")
        }
        Err(_) => {
            check(!whole, "rejected");
            cover("rejected")
        }
    }
}
/// Traces whose list of events is empty, or holds few events
fn few_events() {
    let mut j = Json::new();
    let n = choice(3);
    for _ in 0..n {
        j.process();
    }
    match j.load() {
        Ok(_) => check(n == 1, "accepted"),
        Err(e) => check(n != 1 && matches!(e, ClangTraceParseError::NoProcessName) == (n == 0), "rejected"),
    }
    cover("loaded");
}

// --------------------------------------------------------- T03: metadata
/// Process identifiers of all events
fn pids() {
    let mut j = Json::new();
    let mut v = vec![];
    let mut id = |j: &mut Json| {
        let d = digit(0);
        j.d(4).d(d);
        v.push(d);
    };
    let (thread, act, stat) = (choice(2) == 1, choice(2) == 1, choice(2) == 1);
    if act {
        j.ev().s(r#"{"ph":"X","pid":        "#);
        id(&mut j);
        j.s(r#","tid":        "#);
        id(&mut j);
        j.s(r#","ts":5,"dur":5,"name":"Frontend"}"#);
    }
    j.ev().s(r#"{"ph":"M","ts":0,"cat":"","name":"process_name","args":{"name":"clang"},"pid":        "#);
    id(&mut j);
    j.s(r#","tid":        "#);
    id(&mut j);
    j.s("}");
    if thread {
        j.ev().s(r#"{"ph":"M","ts":0,"cat":"","name":"thread_name","args":{"name":"main"},"pid":        "#);
        id(&mut j);
        j.s(r#","tid":        "#);
        id(&mut j);
        j.s("}");
    }
    let tid = digit(0);
    if stat {
        j.ev().s(r#"{"ph":"X","name":"Total Frontend","ts":0,"dur":5,"args":{"count":1,"avg ms":1},"pid":        "#);
        id(&mut j);
        j.s(r#","tid":        "#).d(4).d(tid).s("}");
    }
    let same = v.iter().fold(true, |a, x| a & (*x == v[0]));
    match j.load() {
        Ok(t) => {
            check(same, "accepted");
            check(t.pid() == Some(40 + v[0] as i32), "pid");
            check(t.thread_name() == thread.then_some("main"), "thread");
            check(t.process_name() == "clang", "process");
            check(t.all_activities().count() == act as usize, "activities");
            check(t.global_stats().len() == stat as usize, "stats");
            cover("accepted")
        }
        Err(_) => {
            check(!same, "rejected");
            cover("rejected")
        }
    }
}
/// Small process identifiers, which old versions of clang made up
fn small_pids() {
    let mut j = Json::new();
    let (p, t) = (digit(0), digit(0));
    j.ev().s(r#"{"ph":"M","ts":0,"cat":"","name":"process_name","args":{"name":"clang"},"pid":        "#).d(p);
    j.s(r#","tid":        "#).d(t).s("}");
    match j.load() {
        Ok(tr) => {
            check((p == t) | ((p == 1) & (t == 0)), "accepted");
            check(tr.pid() == if p > 1 { Some(p as i32) } else { None }, "pid");
            cover("accepted")
        }
        Err(_) => {
            check((p != t) & !((p == 1) & (t == 0)), "rejected");
            cover("rejected")
        }
    }
}
/// Identifiers below 10 of all events, including the 1 of old versions
fn low_pids() {
    let mut j = Json::new();
    let (mut v, mut good) = (vec![], true);
    let order = choice(2) == 1;
    let (act, thread, stat) = (choice(2) == 1, choice(2) == 1, choice(2) == 1);
    for step in 0..4 {
        let kind = if order { 3 - step } else { step };
        let head = match kind {
            0 if act => r#"{"ph":"X","ts":5,"dur":5,"name":"Frontend","#,
            1 => r#"{"ph":"M","ts":0,"cat":"","name":"process_name","args":{"name":"clang"},"#,
            2 if thread => r#"{"ph":"M","ts":0,"cat":"","name":"thread_name","args":{"name":"main"},"#,
            3 if stat => r#"{"ph":"X","name":"Total Frontend","ts":0,"dur":5,"args":{"count":1,"avg ms":1},"#,
            _ => continue,
        };
        let (p, t) = (digit(0), digit(0));
        j.ev().s(head).s(r#""pid":        "#).d(p).s(r#","tid":        "#).d(t).s("}");
        good &= match kind {
            0 | 1 => (p == t) | ((p == 1) & (t == 0)),
            2 => p == t,
            _ => t != 0,
        };
        v.push(p);
    }
    good &= v.iter().fold(true, |a, x| a & (*x == v[0]));
    match j.load() {
        Ok(t) => {
            check(good, "accepted");
            check(t.pid() == if v[0] > 1 { Some(v[0] as i32) } else { None }, "pid");
            cover("accepted")
        }
        Err(_) => {
            check(!good, "rejected");
            cover("rejected")
        }
    }
}
/// A character of a JSON string
fn plain() -> u8 {
    let x = symrt::u8();
    assume((x < 0x80) & (x >= 0x20) & (x != b'"') & (x != b'\\'));
    x
}
/// Names of processes and threads: how many there are, and any text
fn names() {
    let mut j = Json::new();
    let (np, nt) = (choice(3), choice(3));
    let (mut ps, mut ts) = (vec![], vec![]);
    for _ in 0..np {
        let c = [plain(), plain()];
        j.ev().s(r#"{"ph":"M","pid":7,"tid":7,"ts":0,"cat":"","name":"process_name","args":{"name":        ""#).b(c[0]).b(c[1]).s(r#"        "}}"#);
        ps.push(c);
    }
    for _ in 0..nt {
        let c = [plain(), plain()];
        j.ev().s(r#"{"ph":"M","pid":7,"tid":7,"ts":0,"cat":"","name":"thread_name","args":{"name":        ""#).b(c[0]).b(c[1]).s(r#"        "}}"#);
        ts.push(c);
    }
    let is = |s: &str, c: &[u8; 2]| {
        let b = s.as_bytes();
        b.len() == 10 && (b[0] == c[0]) & (b[1] == c[1])
    };
    match j.load() {
        Ok(t) => {
            check(np == 1 && nt <= 1, "accepted");
            check(is(t.process_name(), &ps[0]), "process");
            check(t.thread_name().is_some() == (nt == 1), "thread-present");
            if nt == 1 {
                check(is(t.thread_name().unwrap(), &ts[0]), "thread")
            }
            check(t.pid() == Some(7), "pid");
            cover("accepted")
        }
        Err(ClangTraceParseError::NoProcessName) => check(np == 0 && nt <= 1, "no-process"),
        Err(ClangTraceParseError::DuplicateProcessName(a, b)) => {
            check(np == 2 && is(&a, &ps[0]) && is(&b, &ps[1]), "dup-process");
            cover("duplicate")
        }
        Err(ClangTraceParseError::DuplicateThreadName(a, b)) => check(nt == 2 && is(&a, &ts[0]) && is(&b, &ts[1]), "dup-thread"),
        Err(_) => check(false, "rejected"),
    }
}
/// Escape sequences in names
fn escapes() {
    let e = symrt::u8();
    assume((e >= 0x20) & (e < 0x80) & (e != b'u'));
    let mut j = Json::new();
    j.ev().s(r#"{"ph":"M","pid":7,"tid":7,"ts":0,"cat":"","name":"process_name","args":{"name":"a\"#).b(e).s(r#"b\u00e9\ud83d\ude00"}}"#);
    let want = match e {
        b'"' | b'\\' | b'/' => Some(e),
        b'b' => Some(8),
        b'f' => Some(12),
        b'n' => Some(10),
        b'r' => Some(13),
        b't' => Some(9),
        _ => None,
    };
    match j.load() {
        Ok(t) => {
            let b = t.process_name().as_bytes();
            check(b.len() == 9 && b[0] == b'a' && Some(b[1]) == want && &b[2..] == "bé😀".as_bytes(), "text");
            cover("accepted")
        }
        Err(_) => {
            check(want.is_none(), "rejected");
            cover("rejected")
        }
    }
}
/// Fields of the events that carry names
fn name_fields(thread: bool) {
    let mut j = Json::new();
    let cat = choice(3);
    let ts = choice(3);
    let d = digit(1);
    let tts = choice(2) == 1;
    let extra = choice(2) == 1;
    let tid = choice(2) == 1;
    if thread {
        j.process();
    }
    j.ev().s(r#"{"ph":"M","pid":1,"name":""#).s(if thread { "thread" } else { "process" }).s(r#"_name","args":{"name":"it""#);
    j.s(if extra { r#","more":"x"},"# } else { "}," });
    j.s(["", r#""cat":"","#, r#""cat":"x","#][cat as usize]);
    if ts == 1 {
        j.s(r#""ts":0,"#);
    }
    if ts == 2 {
        j.s(r#""ts":        "#).d(d).s(",");
    }
    j.s(if tts { r#""tts":0,"# } else { "" });
    // threads have to have an identifier
    j.s(if tid || thread { r#""tid":1}"# } else { r#""other":1}"# });
    let good = cat == 1 && ts == 1 && !tts && !extra && (tid || thread);
    match j.load() {
        Ok(t) => {
            check(good, "accepted");
            check(if thread { t.thread_name() == Some("it") } else { t.process_name() == "it" }, "name");
            cover("accepted")
        }
        Err(e) => {
            check(!good, "rejected");
            check(matches!(e, ClangTraceParseError::NameParseError(_)), "error");
            cover("rejected")
        }
    }
}
/// Fields of the trace
fn trace_fields() {
    let d = digit(1);
    let which = choice(18);
    // text of the field, does it have to be rejected?, beginning of time
    let (f, bad, time) = match which {
        0 => ("", false, None),
        1 => (r#","displayTimeUnit":"ms""#, false, None),
        2 => (r#","displayTimeUnit":"ns""#, true, None),
        3 => (r#","systemTraceEvents":"x""#, true, None),
        4 => (r#","powerTraceAsString":"x""#, true, None),
        5 => (r#","stackFrames":{}"#, true, None),
        6 => (r#","samples":[]"#, true, None),
        7 => (r#","controllerTraceDataKey":"x""#, true, None),
        8 => (r#","other":[1,{"a":null}]"#, false, None),
        9 => (r#","beginningOfTime":        #"#, false, Some(d as f64)),
        10 => (r#","beginningOfTime":        -#"#, false, Some(-(d as i64) as f64)),
        11 => (r#","beginningOfTime":        167000000000000#"#, false, Some((1670000000000000 + d as i64) as f64)),
        12 => (r#","beginningOfTime":"x""#, true, None),
        13 => (r#","beginningOfTime":null"#, true, None),
        14 => (r#","beginningOfTime":[]"#, true, None),
        15 => (r#","beginningOfTime":true"#, true, None),
        16 => (r#","systemTraceEvents":null"#, false, None),
        _ => (r#","displayTimeUnit":"s""#, true, None),
    };
    let mut j = Json::new();
    j.process().s("]");
    for b in f.bytes() {
        if b == b'#' {
            j.d(d);
        } else {
            j.b(b);
        }
    }
    j.s("}");
    let t = unsafe { String::from_utf8_unchecked(j.0) };
    log(t.as_bytes());
    match ClangTrace::from_str(&t) {
        Ok(t) => {
            check(!bad, "accepted");
            check(t.beginning_of_time().is_some() == time.is_some(), "time-present");
            if let (Some(a), Some(b)) = (t.beginning_of_time(), time) {
                check(a == b, "time");
                cover("time")
            }
            cover("accepted")
        }
        Err(_) => {
            check(bad, "rejected");
            cover("rejected")
        }
    }
}
/// Kinds of events
fn kinds() {
    let mut j = Json::new();
    let ph = plain();
    let meta = choice(2) == 1;
    j.process().ev().s(r#"{"ph":        ""#).b(ph).s(r#"","pid":1,"tid":0,"ts":5,"dur":5,"name":""#);
    let m = choice(4) as usize;
    if meta {
        j.s(["process_labels", "process_sort_index", "thread_sort_index", "thread_name"][m]).s(r#"","args":{"#).s([r#""labels":"x"}}"#, r#""sort_index":1}}"#, r#""sort_index":1}}"#, r#""name":"x"}}"#][m]);
    } else {
        let a = ["", r#","cat":"x""#, r#","tts":5"#, r#","tdur":5"#][m];
        j.s("Frontend\"").s(a).s(r#"}"#);
    }
    match j.load() {
        Ok(t) => {
            check(ph == b'X', "kind");
            check(!meta && m == 0, "accepted");
            check(t.all_activities().count() == 1, "count");
            cover("activity")
        }
        Err(_) => {
            check((ph != b'X') | meta | (m != 0), "rejected");
            cover("rejected")
        }
    }
}

// --------------------------------------------------------- T04: activities
const KINDS: [(&str, ActivityArgumentType); 8] = [
    ("Backend", ActivityArgumentType::Nothing),
    ("RunPass", ActivityArgumentType::String),
    ("Source", ActivityArgumentType::FilePathOrModule),
    ("ParseClass", ActivityArgumentType::CppEntity),
    ("OptFunction", ActivityArgumentType::Symbol),
    ("InlinerPass", ActivityArgumentType::SymbolOpt),
    ("LoopRotatePass", ActivityArgumentType::UnnamedLoop),
    ("LICMPass", ActivityArgumentType::UnnamedLoopOpt),
];
/// Which arguments activities of all kinds may have
fn arguments() {
    use ActivityArgumentType::*;
    let k = choice(9) as usize;
    let name = if k < 8 { KINDS[k].0 } else { "NewActivity" };
    let shape = choice(19) as usize;
    let c = plain();
    let (ts, pid, tid) = (digit(0), choice(2), choice(2));
    let args = [
        "", r#","args":null"#, r#","args":{}"#, r#","args":{"detail":"        ~"}"#, r#","args":{"detail":""}"#,
        r#","args":{"detail":"~","more":1}"#, r#","args":{"more":"~"}"#, r#","args":{"Detail":"~"}"#, r#","args":{"detail":1}"#,
        r#","args":{"detail":null}"#, r#","args":{"detail":["~"]}"#, r#","args":"~"#, r#","args":["~"]"#,
        r#","args":{"detail":"~","more":null}"#, r#","args":{"more":null,"detail":"~"}"#, r#","args":{"more":null}"#,
        r#","args":{"detail":"~","more":""}"#, r#","args":{"":"~"}"#, r#","args":{"detail":"~","more":{"detail":null}}"#,
    ][shape];
    let mut j = Json::new();
    j.ev().s(r#"{"ph":"X","dur":5,"pid":1,"tid":"#).s(if tid == 0 { "0" } else { "2" }).s(r#","ts":        "#).d(ts).s(r#","name":""#).s(name).s("\"");
    for b in args.bytes() {
        if b == b'~' && shape != 11 {
            j.b(c);
        } else {
            j.b(if b == b'~' { b'1' } else { b });
        }
    }
    j.s("}");
    let _ = pid;
    j.process();
    let none = shape < 3;
    let text = shape == 3 || shape == 4;
    let ok = if k < 8 {
        match KINDS[k].1 {
            Nothing => none,
            SymbolOpt | UnnamedLoopOpt => none || text,
            _ => text,
        }
    } else {
        none || text
    };
    match j.load() {
        Ok(t) => {
            check(ok, "accepted");
            check(tid == 0, "tid");
            check(ts > 1, "ts");
            let all: Vec<_> = t.all_activities().collect();
            check(all.len() == 1, "count");
            let a = all[0].activity();
            check(a.name() == name, "name");
            check(matches!(a.id(), ActivityId::UnknownActivity(_)) == (k == 8), "known");
            if k < 8 {
                check(a.raw_argument().arg_type() == KINDS[k].1, "type");
            }
            match a.raw_argument().detail() {
                None => check(none, "detail-missing"),
                Some(d) => {
                    check(text, "detail");
                    let b = d.as_bytes();
                    check(if shape == 4 { b.is_empty() } else { b.len() == 9 && b[8] == c && b[0] == b' ' }, "detail-text")
                }
            }
            cover("accepted")
        }
        Err(_) => {
            check((ts <= 1) | !ok | (tid != 0), "rejected");
            cover("rejected")
        }
    }
}
/// Every known activity keeps its name
fn known_names() {
    let i = choice(NAMES.len() as u32) as usize;
    let mut j = Json::new();
    let c = plain();
    let tail = choice(2) == 1;
    j.ev().s(r#"{"ph":"X","dur":5,"pid":1,"tid":0,"ts":5,"name":""#).s(NAMES[i]).s(if tail { "Pass2" } else { "" }).s("\"");
    let det = choice(2) == 1;
    if det {
        j.s(r#","args":{"detail":"        "#).b(c).s(r#""}"#);
    }
    j.s("}").process();
    if let Ok(t) = j.load() {
        let all: Vec<_> = t.all_activities().collect();
        let a = all[0].activity();
        let n = a.name();
        check(n.starts_with(NAMES[i]) && n.len() == NAMES[i].len() + if tail { 5 } else { 0 }, "name");
        check(matches!(a.id(), ActivityId::UnknownActivity(_)) == tail, "known");
        check(a.raw_argument().detail().is_some() == det, "detail");
        cover(if det { "detail" } else { "plain" });
    } else {
        check(!tail, "rejected");
        cover("rejected");
    }
}
const NAMES: &[&str] = &[
    "AAManager",
    "ADCEPass",
    "AggressiveInstCombinePass",
    "AlignmentFromAssumptionsPass",
    "Annotation2MetadataPass",
    "AnnotationRemarksPass",
    "AssignmentTrackingPass",
    "Backend",
    "BDCEPass",
    "BlockFrequencyAnalysis",
    "BranchProbabilityAnalysis",
    "CalledValuePropagationPass",
    "CallGraphAnalysis",
    "CGProfilePass",
    "CGSCCToFunctionPassAdaptor",
    "CodeGen Function",
    "CodeGenPasses",
    "ConstantMergePass",
    "ConstraintEliminationPass",
    "CoroCleanupPass",
    "CoroEarlyPass",
    "CoroElidePass",
    "CoroSplitPass",
    "CorrelatedValuePropagationPass",
    "DeadArgumentEliminationPass",
    "DebugConstGlobalVariable",
    "DebugFunction",
    "DebugGlobalVariable",
    "DebugType",
    "DevirtSCCRepeatedPass",
    "DivRemPairsPass",
    "DominatorTreeAnalysis",
    "DSEPass",
    "EarlyCSEPass",
    "EliminateAvailableExternallyPass",
    "ExecuteCompiler",
    "Float2IntPass",
    "ForceFunctionAttrsPass",
    "Frontend",
    "FunctionToLoopPassAdaptor",
    "GlobalDCEPass",
    "GlobalOptPass",
    "GlobalsAA",
    "GVNPass",
    "IndVarSimplifyPass",
    "InferFunctionAttrsPass",
    "InjectTLIMappings",
    "InlinerPass",
    "InnerAnalysisManagerProxy<CGSCCAnalysisManager, Module>",
    "InstantiateClass",
    "InstantiateFunction",
    "InstCombinePass",
    "InstSimplifyPass",
    "InvalidateAnalysisPass<llvm::AAManager>",
    "InvalidateAnalysisPass<llvm::ShouldNotRunFunctionPassesAnalysis>",
    "IPSCCPPass",
    "JumpThreadingPass",
    "LazyCallGraphAnalysis",
    "LCSSAPass",
    "LibCallsShrinkWrapPass",
    "LICMPass",
    "LoopAnalysis",
    "LoopDeletionPass",
    "LoopDistributePass",
    "LoopFullUnrollPass",
    "LoopIdiomRecognizePass",
    "LoopInstSimplifyPass",
    "LoopLoadEliminationPass",
    "LoopRotatePass",
    "LoopSimplifyCFGPass",
    "LoopSimplifyPass",
    "LoopSinkPass",
    "LoopUnrollPass",
    "LoopVectorizePass",
    "LowerConstantIntrinsicsPass",
    "LowerExpectIntrinsicPass",
    "MemCpyOptPass",
    "MemorySSAAnalysis",
    "MergedLoadStoreMotionPass",
    "ModuleInlinerWrapperPass",
    "ModuleToFunctionPassAdaptor",
    "ModuleToPostOrderCGSCCPassAdaptor",
    "OpenMPOptCGSCCPass",
    "OpenMPOptPass",
    "OptFunction",
    "Optimizer",
    "OptModule",
    "ParseClass",
    "ParseTemplate",
    "PassManager<llvm::Function>",
    "PassManager<llvm::Loop, llvm::LoopAnalysisManager, llvm::LoopStandardAnalysisResults &, llvm::LPMUpdater &>",
    "PassManager<Function>",
    "PassManager<LazyCallGraph::SCC, CGSCCAnalysisManager, LazyCallGraph &, CGSCCUpdateResult &>",
    "PassManager<Loop, LoopAnalysisManager, LoopStandardAnalysisResults &, LPMUpdater &>",
    "PerformPendingInstantiations",
    "PerFunctionPasses",
    "PerModulePasses",
    "PostDominatorTreeAnalysis",
    "PostOrderFunctionAttrsPass",
    "PromotePass",
    "ReassociatePass",
    "RecomputeGlobalsAAPass",
    "RelLookupTableConverterPass",
    "RequireAnalysisPass<llvm::GlobalsAA, llvm::Module>",
    "RequireAnalysisPass<llvm::OptimizationRemarkEmitterAnalysis, llvm::Function>",
    "RequireAnalysisPass<llvm::ProfileSummaryAnalysis, llvm::Module>",
    "RequireAnalysisPass<llvm::GlobalsAA, llvm::Module, llvm::AnalysisManager<Module>>",
    "ReversePostOrderFunctionAttrsPass",
    "RunLoopPass",
    "RunPass",
    "ScalarEvolutionAnalysis",
    "SCCPPass",
    "SimpleLoopUnswitchPass",
    "SimplifyCFGPass",
    "SLPVectorizerPass",
    "Source",
    "SpeculativeExecutionPass",
    "SROAPass",
    "TailCallElimPass",
    "TargetIRAnalysis",
    "VectorCombinePass",
    "WarnMissedTransformationsPass",
];

/// A text with unknown characters: `$` any, `@` a letter
fn holes(t: &str) -> Vec<u8> {
    let mut b = t.as_bytes().to_vec();
    for x in &mut b {
        if *x == b'$' {
            *x = plain();
        } else if *x == b'@' {
            *x = symrt::u8();
            assume(x.is_ascii_alphabetic() | (*x == b'_'));
        }
    }
    b
}
fn with_detail(name: &str, d: &[u8]) -> Result<ClangTrace, ClangTraceParseError> {
    let mut j = Json::new();
    j.ev().s(r#"{"ph":"X","dur":5,"pid":1,"tid":0,"ts":5,"name":""#).s(name).s(r#"","args":{"detail":        ""#);
    for b in d {
        j.b(*b);
    }
    j.s(r#""}}"#).process().load()
}
/// The argument of an unknown activity
fn infer(t: &str) {
    use ActivityArgumentType::*;
    let d = holes(t);
    match with_detail("NewPass", &d) {
        Ok(tr) => {
            let a = tr.all_activities().next().unwrap();
            let raw = a.activity().raw_argument();
            check(raw.detail().unwrap().as_bytes() == &d[..], "detail");
            let inner = if d.len() > 1 && d[0] == b'(' && d[d.len() - 1] == b')' { &d[1..d.len() - 1] } else { &d[..] };
            let symbol = inner.starts_with(b"_Z") || inner == b"main" || inner == b"__clang_call_terminate" || inner.starts_with(b"__cxx_global_var_init") || inner.starts_with(b"_GLOBAL__sub_I_");
            let file = d.starts_with(b"/") || d == b"[module]";
            let unnamed = d == b"<unnamed loop>";
            match raw.arg_type() {
                Symbol => {
                    check(symbol, "symbol");
                    cover("symbol")
                }
                UnnamedLoop => {
                    check(unnamed, "loop");
                    cover("loop")
                }
                FilePathOrModule => {
                    check(file & !symbol, "file");
                    cover("file")
                }
                String => {
                    check(!symbol & !file & !unnamed, "string");
                    // templates, scopes, etc. are not for mere text
                    check(!d.iter().any(|c| matches!(c, b'<' | b':' | b'*' | b'[' | b'{' | b'~' | b',' | b'=')), "string-chars");
                    cover("string")
                }
                CppEntity => {
                    check(!symbol & !file & !unnamed, "entity");
                    cover("entity")
                }
                _ => check(false, "type"),
            }
        }
        Err(_) => check(false, "rejected"),
    }
}
/// Understanding the argument of an activity
fn parse_detail(k: usize, t: &str) {
    use ActivityArgumentType::*;
    let d = holes(t);
    // the meaning of .. is part of N01
    assume(!d.windows(2).fold(false, |a, w| a | ((w[0] == b'.') & (w[1] == b'.'))));
    let mut tr = match with_detail(KINDS[k].0, &d) {
        Ok(t) => t,
        Err(_) => return check(false, "rejected"),
    };
    let raw = tr.all_activities().next().unwrap().activity().raw_argument().clone();
    let parsed = raw.parse(&mut tr);
    let module = d == b"[module]";
    match (KINDS[k].1, parsed) {
        (String, Ok(ParsedActivityArgument::String(s))) => {
            check(s.as_bytes() == &d[..], "string");
            cover("string")
        }
        (FilePathOrModule, Ok(ParsedActivityArgument::Module)) => {
            check(module, "module");
            cover("module")
        }
        (FilePathOrModule, Ok(p @ ParsedActivityArgument::FilePath(_))) => {
            check(d[0] == b'/' && !module, "absolute");
            match p.resolve(&tr) {
                ActivityArgument::FilePath(p) => {
                    // the components of the path, in order
                    let want: Vec<&[u8]> = d.split(|c| *c == b'/').filter(|c| !c.is_empty() && *c != b".").collect();
                    let got: Vec<_> = p.components().collect();
                    check(got.len() == want.len() + 1 && got[0].value() == "/", "components");
                    for (g, w) in got[1..].iter().zip(&want) {
                        check(g.value().as_bytes() == *w, "component");
                    }
                }
                _ => check(false, "resolve"),
            }
            cover("path")
        }
        (FilePathOrModule, Err(ActivityArgumentError::BadFilePath(_))) => {
            check(d[0] != b'/' && !module, "bad-path");
            cover("bad-path")
        }
        (UnnamedLoop | UnnamedLoopOpt, Ok(ParsedActivityArgument::UnnamedLoop)) => {
            check(d == b"<unnamed loop>", "loop");
            cover("loop")
        }
        (UnnamedLoop | UnnamedLoopOpt, Err(ActivityArgumentError::UnexpectedLoopName(n))) => {
            check(d != b"<unnamed loop>" && n.as_bytes() == &d[..], "bad-loop");
            cover("bad-loop")
        }
        (CppEntity, Ok(p @ ParsedActivityArgument::CppEntity(_))) => {
            if let ActivityArgument::CppEntity(e) = p.resolve(&tr) {
                let shown = e.display(&DisplayState::default()).to_string();
                let sq = |b: &[u8]| b.iter().copied().filter(|c| *c != b' ').collect::<Vec<u8>>();
                check(sq(shown.as_bytes()) == sq(&d), "entity-text");
            }
            cover("entity")
        }
        (CppEntity, Err(ActivityArgumentError::BadCppEntity(_))) => cover("bad-entity"),
        (Symbol | SymbolOpt, Ok(ParsedActivityArgument::Symbol(s))) => {
            let inner = if d.len() > 1 && d[0] == b'(' && d[d.len() - 1] == b')' { &d[1..d.len() - 1] } else { &d[..] };
            match s {
                ParsedSymbol::MaybeMangled(m) => {
                    check(m.as_bytes() == inner, "symbol-text");
                    cover("mangled")
                }
                ParsedSymbol::Demangled(_) => {
                    check(inner.starts_with(b"_"), "demangled");
                    cover("demangled")
                }
                ParsedSymbol::Parsed(_) => {
                    check(inner.starts_with(b"_") || inner == b"main" || inner == b"__clang_call_terminate", "parsed");
                    cover("parsed")
                }
            }
        }
        _ => check(false, "kind"),
    }
}
/// Names of functions in mangled form, here in a namespace
fn mangled() {
    let (a, b) = (symrt::u8(), symrt::u8());
    assume((a.is_ascii_alphabetic() | (a == b'_')) & (b.is_ascii_alphabetic() | (b == b'_')));
    let paren = choice(2) == 1;
    let mut d = Vec::new();
    if paren {
        d.push(b'(');
    }
    d.extend_from_slice(b"_ZN1");
    d.push(a);
    d.extend_from_slice(b"2f");
    d.push(b);
    let k = choice(4) as usize;
    d.extend_from_slice(["Ev", "Ei", "IiEEvv", "EPKcz"][k].as_bytes());
    if paren {
        d.push(b')');
    }
    let mut tr = match with_detail("OptFunction", &d) {
        Ok(t) => t,
        Err(_) => return check(false, "rejected"),
    };
    let raw = tr.all_activities().next().unwrap().activity().raw_argument().clone();
    match raw.parse(&mut tr) {
        Ok(p) => match p.resolve(&tr) {
            ActivityArgument::Symbol(Symbol::Parsed(e)) => {
                let shown = e.display(&DisplayState::default()).to_string().into_bytes();
                let mut want = vec![a];
                want.extend_from_slice(b"::f");
                want.push(b);
                want.extend_from_slice(["()", "(int)", "<int>()", "(const char*, ...)"][k].as_bytes());
                let sq = |b: Vec<u8>| b.into_iter().filter(|c| *c != b' ').collect::<Vec<u8>>();
                let (shown, want) = (sq(shown), sq(want));
                log(&shown);
                // const is written on either side of a type
                check(if k == 3 { shown.len() == want.len() && shown[..6] == want[..6] } else { shown == want }, "text");
                cover("parsed")
            }
            _ => check(false, "not-parsed"),
        },
        Err(_) => check(false, "error"),
    }
}

// ---------------------------------------------------- T06: global statistics
fn global_stat() {
    let mut j = Json::new();
    let sep = plain();
    let (ts, tid, dur, count, avg) = (digit(0), digit(0), digit(0), digit(1), digit(1));
    // later ones are activities
    assume(ts <= 1);
    let shape = choice(12) as usize;
    j.process().ev().s(r#"{"ph":"X","pid":1,"tid":        "#).d(tid).s(r#","ts":        "#).d(ts).s(r#","dur":        7"#).d(dur);
    let cut = choice(3);
    j.s(r#","name":        ""#).s(["Total", "Tota", ""][cut as usize]).b(sep).s(r#"Frontend"        "#);
    let args = [
        r#","args":{"count":        C,"avg ms":        A}"#, r#","args":{"avg ms":        A,"count":        C}"#, "", r#","args":{}"#,
        r#","args":{"count":        C}"#, r#","args":{"avg ms":        A}"#, r#","args":{"count":        C,"avg ms":        A,"more":1}"#,
        r#","args":{"count":        -C,"avg ms":        A}"#, r#","args":{"count":"x","avg ms":        A}"#, r#","args":{"count":        C,"avg ms":null}"#,
        r#","args":{"count":        C.5,"avg ms":        A}"#, r#","cat":"x","args":{"count":        C,"avg ms":        A}"#,
    ][shape];
    for b in args.bytes() {
        match b {
            b'C' => j.d(count),
            b'A' => j.d(avg),
            _ => j.b(b),
        };
    }
    j.s("}");
    let ok = (shape < 2) & (cut == 0) & (sep == b' ') & (ts == 0) & (tid != 0);
    match j.load() {
        Ok(t) => {
            check(ok, "accepted");
            check(t.global_stats().len() == 1, "count");
            match t.global_stats().get("Frontend") {
                None => check(false, "name"),
                Some(s) => {
                    check(s.count() == count as usize, "occurences");
                    check(s.total_duration() == 70.0 + dur as f64, "duration");
                }
            }
            check(t.all_activities().count() == 0, "activities");
            cover("accepted")
        }
        Err(_) => {
            check(!ok, "rejected");
            cover("rejected")
        }
    }
}
/// Several statistics
fn global_stats(n: usize) {
    let mut j = Json::new();
    let mut v = vec![];
    j.process();
    for _ in 0..n {
        let name = ["Frontend", "Backend", "Frontend2", "Total Frontend", "", " Frontend", "Total "][choice(7) as usize];
        let (c, d) = (digit(1), digit(1));
        j.ev().s(r#"{"ph":"X","pid":1,"tid":2,"ts":0,"name":"Total "#).s(name).s(r#"","dur":        "#).d(d).s(r#","args":{"count":        "#).d(c).s(r#","avg ms":1}}"#);
        v.push((name, c, d));
    }
    let dup = (0..n).find_map(|i| (0..i).find(|k| v[*k].0 == v[i].0).map(|k| (k, i)));
    match (j.load(), dup) {
        (Ok(t), None) => {
            check(t.global_stats().len() == n, "len");
            for (name, c, d) in v {
                match t.global_stats().get(name) {
                    Some(s) => check((s.count() == c as usize) & (s.total_duration() == d as f64), "value"),
                    None => check(false, "missing"),
                }
            }
            cover("distinct")
        }
        (Err(ClangTraceParseError::DuplicateGlobalStat(name, a, b)), Some((k, i))) => {
            check(&*name == v[i].0, "dup-name");
            check((a.count() == v[k].1 as usize) & (b.count() == v[i].1 as usize), "dup-values");
            cover("duplicate")
        }
        _ => check(false, "verdict"),
    }
}

symrt::harnesses! {
    fn h_tok_a() { any_token_range(0, 14) }
    fn h_tok_b() { any_token_range(14, 28) }
    fn h_tok_c() { any_token_range(28, 41) }
    fn h_cut() { cut() }
    fn h_few() { few_events() }
    fn h_pids() { pids() }
    fn h_low_pids() { low_pids() }
    fn h_small_pids() { small_pids() }
    fn h_names() { names() }
    fn h_escapes() { escapes() }
    fn h_process_fields() { name_fields(false) }
    fn h_thread_fields() { name_fields(true) }
    fn h_trace_fields() { trace_fields() }
    fn h_kinds() { kinds() }
    fn h_arguments() { arguments() }
    fn h_known_names() { known_names() }
    fn h_infer_0() { infer("") }
    fn h_infer_1() { infer("$") }
    fn h_infer_2() { infer("$$") }
    fn h_infer_3() { infer("$$$") }
    fn h_infer_4() { infer("$$$$") }
    fn h_infer_5() { infer("$$$$$") }
    fn h_infer_6() { infer("$$$$$$") }
    fn h_infer_sym() { infer("($Z$$") }
    fn h_infer_sym2() { infer("$_$$)") }
    fn h_infer_loop() { infer("<unnamed loo$$") }
    fn h_infer_mod() { infer("[modul$$") }
    fn h_infer_text() { infer("X$6 D->DA$ mem") }
    fn h_infer_text2() { infer("A &$b_$C") }
    fn h_infer_main() { infer("(mai$$") }
    fn h_p_string() { parse_detail(1, "$$$") }
    fn h_p_path_1() { parse_detail(2, "$") }
    fn h_p_path_3() { parse_detail(2, "$$$") }
    fn h_p_path_4() { parse_detail(2, "/$$$") }
    fn h_p_path_6() { parse_detail(2, "/a$$$b") }
    fn h_p_module() { parse_detail(2, "$module$") }
    fn h_p_loop() { parse_detail(6, "<unname$ loo$$") }
    fn h_p_loop2() { parse_detail(7, "$unnamed loop$") }
    fn h_p_ent() { parse_detail(3, "@::@<@>") }
    fn h_p_sym_1() { parse_detail(4, "$") }
    fn h_p_sym_2() { parse_detail(4, "$$") }
    fn h_p_sym_3() { parse_detail(4, "$$$") }
    fn h_p_sym_z() { parse_detail(4, "_Z$$") }
    fn h_p_sym_z3() { parse_detail(4, "_Z$$$") }
    fn h_p_path_8() { parse_detail(2, "/$$$$$b/") }
    fn h_p_string_5() { parse_detail(1, "$$$$$") }
    fn h_p_sym_z1() { parse_detail(4, "_Z1$v") }
    fn h_p_sym_z2() { parse_detail(5, "(_Z1f$$") }
    fn h_p_mangled() { mangled() }
    fn h_p_sym_main() { parse_detail(5, "$mai$$") }
    fn h_gstat() { global_stat() }
    fn h_gstats_2() { global_stats(2) }
    fn h_gstats_3() { global_stats(3) }

    fn h_any_2() { any_text(2) }
    fn h_any_3() { any_text(3) }
    fn h_any_6() { any_text(6) }
    fn h_any_4() { any_text(4) }
    fn h_tree_2() { tree(2, false) }
    fn h_tree_3() { tree(3, false) }
    fn h_tree_long_3() { tree(3, true) }
    fn h_tree_4() { tree(4, false) }
    fn h_tree_long_4() { tree(4, true) }
    fn h_tree_5() { tree(5, false) }
    fn h_tree_7() { tree(7, false) }
    fn h_tree_long_5() { tree(5, true) }
    fn h_tree_6() { tree(6, false) }
    fn h_tree_zero_3() { tree_from(3, false, 0) }
    fn h_tree_zero_4() { tree_from(4, false, 0) }
}
fn main() {
    symrt::main(TABLE)
}
