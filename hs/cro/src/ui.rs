// Harnesses over the display code of crofiler, included in the module `crate::ui`
use super::display::{
    self,
    activity::{display_activity_desc, ActivityDescError},
    path::truncate_path_iter,
    DisplayConfig,
};
use clang_time_trace::{ActivityArgument, ClangTrace};
use std::str::FromStr;
use symrt::{assume, check, choice, cover, log};
use unicode_width::UnicodeWidthStr;

// ---------------------------------------------------------------- any text
/// One character of a class chosen by the engine: ASCII, accented, wide, zero-width
fn push_any(s: &mut String, class: u32) {
    let b = symrt::u8();
    match class {
        0 => {
            assume((b >= 0x20) & (b < 0x7f));
            s.push(b as char)
        }
        1 => {
            assume(b >= 0xc0);
            s.push(char::from_u32(b as u32).unwrap())
        }
        2 => s.push(char::from_u32(0x4e00 + b as u32).unwrap()),
        _ => {
            assume(b < 0x70);
            s.push(char::from_u32(0x300 + b as u32).unwrap())
        }
    }
}
fn word(n: usize, classes: u32) -> String {
    let mut s = String::new();
    for _ in 0..n {
        push_any(&mut s, choice(classes));
    }
    s
}
/// A character that ends up in paths: anything but the separator
fn path_word(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        let b = symrt::u8();
        assume((b >= 0x20) & (b < 0x7f) & (b != b'/'));
        s.push(b as char);
    }
    s
}
fn budget() -> u16 {
    let c = symrt::u16();
    assume(c >= 1);
    c
}

// -------------------------------------------------- D01: shortened strings
fn string(s: &str) {
    let cols = budget();
    let mut out = Vec::new();
    let r = display::display_string(&mut out, s, DisplayConfig::SingleLine { max_cols: cols });
    check(r.is_ok(), "works");
    let out = unsafe { std::str::from_utf8_unchecked(&out) };
    log(out.as_bytes());
    let cols = cols as usize;
    check(out.width() <= cols, "fits");
    if s.width() <= cols {
        cover("whole");
        check(out == s, "whole");
        return;
    }
    cover("cut");
    cut_form(s, out, cols);
}
/// `out` is the beginning of `s`, an ellipsis and the end of `s`
fn cut_form(s: &str, out: &str, cols: usize) {
    let at = out.find('…');
    check(at.is_some(), "ellipsis");
    let at = at.unwrap();
    let (head, tail) = (&out[..at], &out[at + '…'.len_utf8()..]);
    check(s.starts_with(head), "head");
    check(s.ends_with(tail), "tail");
    check(head.len() + tail.len() <= s.len(), "overlap");
    let (h, t) = (head.width(), tail.width());
    // nothing is left out that there was room for, and the cut is in the middle
    let next = s[head.len()..].chars().next().map_or(0, |c| c.to_string().width());
    let last = s[..s.len() - tail.len()].chars().next_back().map_or(0, |c| c.to_string().width());
    check(h + 1 + t + last.max(1) > cols || last == 0, "room at the end");
    check(h <= (cols - 1) / 2 && h + next.max(1) > (cols - 1) / 2, "cut in the middle");
}
fn multi(s: &str) {
    let mut out = Vec::new();
    let (tot_cols, header_cols, trailer_cols) = (symrt::u16(), symrt::u16(), symrt::u16());
    let r = display::display_string(&mut out, s, DisplayConfig::MultiLine { tot_cols, header_cols, trailer_cols });
    check(r.is_ok() && out == s.as_bytes(), "multi");
}

// --------------------------------------------------------- D02: file paths
/// A word of narrow (a), accented (e) and wide (w) characters
fn classes(shape: &str) -> String {
    let mut s = String::new();
    for c in shape.chars() {
        match c {
            'a' => s.push_str(&path_word(1)),
            'e' => push_any(&mut s, 1),
            _ => push_any(&mut s, 2),
        }
    }
    s
}
/// Components with characters of any width
fn path_wide(shapes: &[&str]) {
    let root = choice(2) == 1;
    let mut comps: Vec<String> = shapes.iter().map(|s| classes(s)).collect();
    if root {
        comps.insert(0, "/".into());
    }
    path_form(&comps, root, symrt::u16());
}
const SHAPES: &[&str] = &["a", "w", "ww", "ew", "aw", "e"];
fn shape() -> &'static str {
    SHAPES[choice(SHAPES.len() as u32) as usize]
}
/// Components of a path, shown as `Path::components` would yield them
fn path(parts: &[usize], root: bool) {
    let mut comps: Vec<String> = parts.iter().map(|n| path_word(*n)).collect();
    if root {
        comps.insert(0, "/".into());
    }
    path_form(&comps, root, symrt::u16());
}
fn path_form(comps: &[String], root: bool, cols: u16) {
    assume(cols >= 1);
    let out = truncate_path_iter(comps.iter(), cols);
    log(out.as_bytes());
    // the whole path and the places where components start and end
    let (mut full, mut starts) = (String::new(), vec![]);
    for (i, c) in comps.iter().enumerate() {
        if i > (root as usize) {
            full.push('/');
        }
        starts.push(full.len());
        full.push_str(c);
    }
    let cols = cols as usize;
    check(out.width() <= cols, "fits");
    if full.width() <= cols {
        cover("whole");
        check(*out == *full, "whole");
        return;
    }
    let name = comps.last().unwrap();
    if &*out == "…" {
        cover("nothing");
        check(2 + name.width() > cols && cols < 17, "nothing shown");
        return;
    }
    let at = out.find('…');
    check(at.is_some(), "ellipsis");
    let at = at.unwrap();
    let tail = &out[at + '…'.len_utf8()..];
    if 2 + name.width() <= cols {
        cover("elided");
        // whole components on both sides
        let head = &out[..at];
        check(full.starts_with(head), "head");
        check(full.ends_with(tail), "tail");
        let skipped = full.len() - tail.len();
        check(head.len() < skipped, "overlap");
        let first = starts.iter().position(|s| *s == head.len());
        check(first.is_some() && (head.is_empty() || head.ends_with('/')), "head boundary");
        let last = starts.iter().position(|s| *s == skipped + 1);
        check(last.is_some() && tail.starts_with('/'), "tail boundary");
        // as many of them as fit
        let (first, last) = (first.unwrap(), last.unwrap());
        let w = out.width();
        if last - first > 1 {
            let next = comps[first].width() + (first > 0 || !root) as usize;
            check(w + next > cols, "more head");
            check(w + comps[last - 1].width() + 1 > cols || (last - 1 == 0 && root), "more tail");
        }
    } else {
        cover("name");
        check(out.starts_with("…/"), "name prefix");
        let rest = &out["…/".len()..];
        let at = rest.find('…');
        check(at.is_some(), "name ellipsis");
        let at = at.unwrap();
        let (h, t) = (&rest[..at], &rest[at + '…'.len_utf8()..]);
        check(name.starts_with(h) && name.ends_with(t) && h.len() + t.len() < name.len(), "name parts");
        let next = name[h.len()..].chars().next().map_or(0, |c| c.to_string().width());
        let last = name[..name.len() - t.len()].chars().next_back().map_or(0, |c| c.to_string().width());
        check(out.width() + last > cols, "name room");
        let half = (cols - 3) / 2;
        check(h.width() <= half && h.width() + next > half, "name balance");
    }
}

// ------------------------------------------------- D03: activities in columns
const PROCESS: &str = r#"{"ph":"M","pid":7,"tid":7,"ts":0,"cat":"","name":"process_name","args":{"name":"clang"}}"#;
/// A trace of one activity
fn one(name: &str, detail: Option<&str>) -> ClangTrace {
    let mut j = r#"{"traceEvents":[{"ph":"X","pid":7,"tid":7,"ts":5,"dur":5,"name":""#.to_owned();
    j.push_str(name);
    if let Some(d) = detail {
        j.push_str(r#"","args":{"detail":""#);
        j.push_str(d);
        j.push_str(r#""}},"#);
    } else {
        j.push_str(r#""},"#);
    }
    j.push_str(PROCESS);
    j.push_str("]}");
    match ClangTrace::from_str(&j) {
        Ok(t) => t,
        Err(e) => {
            #[cfg(feature = "real")]
            eprintln!("{e}");
            let _ = e;
            panic!()
        }
    }
}
fn holes(t: &str) -> String {
    let mut s = String::new();
    for c in t.chars() {
        match c {
            '$' => {
                // any printable ASCII character JSON does not escape
                let b = symrt::u8();
                assume((b >= 0x20) & (b < 0x7f) & (b != b'"') & (b != b'\\'));
                s.push(b as char)
            }
            '@' => {
                let b = symrt::u8();
                assume(b.is_ascii_lowercase());
                s.push(b as char)
            }
            '#' => {
                let b = symrt::u8();
                assume(b.is_ascii_digit());
                s.push(b as char)
            }
            '%' => push_any(&mut s, 2),
            c => s.push(c),
        }
    }
    s
}
fn desc(name: &str, detail: Option<&str>) {
    let detail = detail.map(holes);
    let mut trace = one(name, detail.as_deref());
    let id = trace.all_activities().next().unwrap().id();
    let arg = super::force_parse_arg(&mut trace, id);
    let act = trace.activity_trace(id);
    let act = act.activity().id();
    check(act.name() == name, "name");
    let arg = arg.resolve(&trace);
    // everything, on as many lines as needed
    let mut full = Vec::new();
    let all = DisplayConfig::MultiLine { tot_cols: 80, header_cols: 0, trailer_cols: 0 };
    let wrap = display_activity_desc(&mut full, act, &arg, all);
    check(matches!(wrap, Ok(true)), "multi");
    let full = unsafe { std::str::from_utf8_unchecked(&full) };
    log(full.as_bytes());
    let has = arg != ActivityArgument::Nothing;
    check(has == detail.is_some(), "has argument");
    if has {
        check(full.starts_with(name) && full[name.len()..].starts_with('(') && full.ends_with(')'), "form");
        if let Some(d) = &detail {
            if matches!(arg, ActivityArgument::String(_)) {
                check(full[name.len() + 1..full.len() - 1] == **d, "all of it");
                cover("string");
            }
        }
    } else {
        check(full == name, "form");
    }
    // one line
    let cols = symrt::u16();
    let mut out = Vec::new();
    let res = display_activity_desc(&mut out, act, &arg, DisplayConfig::SingleLine { max_cols: cols });
    let out = unsafe { std::str::from_utf8_unchecked(&out) };
    log(out.as_bytes());
    let (c, min) = (cols as usize, name.width() + 3 * has as usize);
    match res {
        Ok(wrap) => {
            check(!wrap, "no wrapping");
            check(c >= min, "accepted");
            check(out.width() <= c, "fits");
            if full.width() <= c {
                cover("whole");
                check(out == full, "whole");
            } else {
                cover("cut");
                check(out.starts_with(name) && out[name.len()..].starts_with('(') && out.ends_with(')'), "cut form");
                check(out.contains('…'), "cut mark");
            }
        }
        Err(ActivityDescError::NotEnoughCols(n)) => {
            cover("refused");
            check(n == cols && c < min, "refused");
            check(out.is_empty(), "refused output");
        }
        Err(_) => check(false, "other"),
    }
}

/// Two activities that may have the same argument, which may be none that makes sense
fn desc_two(name: &'static str) {
    let first = holes(["a((((@", "@", "::@<"][choice(3) as usize]);
    let second = if choice(2) == 0 { first.clone() } else { holes(["a((((@", "@"][choice(2) as usize]) };
    let mut j = r#"{"traceEvents":["#.to_owned();
    for (at, d) in [(5, &first), (20, &second)] {
        j.push_str(&format!(r#"{{"ph":"X","pid":7,"tid":7,"ts":{at},"dur":5,"name":"{name}","args":{{"detail":""#));
        j.push_str(d);
        j.push_str(r#""}},"#);
    }
    j.push_str(PROCESS);
    j.push_str("]}");
    let mut trace = match ClangTrace::from_str(&j) {
        Ok(t) => t,
        Err(_) => return check(false, "loads"),
    };
    let ids: Vec<_> = trace.all_activities().map(|a| (a.id(), a.activity().raw_argument().detail())).collect();
    check(ids.len() == 2, "both");
    let mut seen = vec![];
    for (id, detail) in ids {
        let arg = super::force_parse_arg(&mut trace, id);
        let act = trace.activity_trace(id);
        let mut full = Vec::new();
        let all = DisplayConfig::MultiLine { tot_cols: 80, header_cols: 0, trailer_cols: 0 };
        check(display_activity_desc(&mut full, act.activity().id(), &arg.resolve(&trace), all).is_ok(), "shown");
        // none of these texts is displayed in another way than it is written
        let want = [&first, &second].into_iter().position(|t| !seen.contains(&(t.as_ptr() as usize)) && Some(&**t) == detail.as_deref());
        check(want.is_some(), "its detail");
        let t = [&first, &second][want.unwrap()];
        seen.push(t.as_ptr() as usize);
        let full = unsafe { std::str::from_utf8_unchecked(&full) };
        log(full.as_bytes());
        check(full.starts_with(name) && full[name.len()..].starts_with('(') && full.ends_with(')'), "form");
        check(full[name.len() + 1..full.len() - 1] == **t, "all of it");
        cover("argument");
    }
}

// --------------------------------------------------- D04: trace description
/// The description of a trace is laid out in lines of `cols` columns
fn metadata(process: &str, thread: Option<&str>, pid: Option<u8>, born: Option<&str>) {
    // old versions of clang tell neither
    let thread = thread.filter(|_| pid.is_some());
    let mut j = r#"{"traceEvents":[{"ph":"M","ts":0,"cat":"","name":"process_name","args":{"name":"        "#.to_owned();
    j.push_str(process);
    j.push_str(r#"        "},"#);
    let push_pid = |j: &mut String| {
        j.push_str(r#""pid":        "#);
        match pid {
            Some(p) => {
                j.push('4');
                j.push((b'0' + p) as char);
                j.push_str(r#","tid":        4"#);
                j.push((b'0' + p) as char);
            }
            None => j.push_str(r#"1,"tid":0"#),
        }
    };
    push_pid(&mut j);
    if let Some(t) = thread {
        j.push_str(r#"},{"ph":"M","ts":0,"cat":"","name":"thread_name","args":{"name":"        "#);
        j.push_str(t);
        j.push_str(r#"        "},"#);
        push_pid(&mut j);
    }
    j.push_str("}]");
    if let Some(b) = born {
        j.push_str(r#","beginningOfTime":"#);
        j.push_str(b);
    }
    j.push('}');
    let trace = match ClangTrace::from_str(&j) {
        Ok(t) => t,
        Err(_) => return check(false, "loads"),
    };
    let cols = budget();
    let out = display::metadata::metadata(&trace, cols);
    log(out.as_bytes());
    let room = cols as usize - 1;
    for l in out.lines() {
        check(l.width() <= cols as usize, "fits");
    }
    let head = format!("Data from         {process}        ");
    if head.width() > room {
        cover("no room");
        return check(out == "…", "no room");
    }
    // pieces, in order, each followed by a comma or the final dot
    check(out.starts_with(&head), "process");
    let mut rest = &out[head.len()..];
    let mut used = head.width();
    let mut piece = |text: &str| {
        // either on the same line, or on a new one because there is no room
        check(rest.starts_with(", ") || rest.starts_with(",\n"), "separator");
        let same = rest.starts_with(", ");
        rest = &rest[2..];
        let shown = if text.width() > room { "…" } else { text };
        check(rest.starts_with(shown), "piece");
        rest = &rest[shown.len()..];
        let w = shown.width();
        check(same == (used + 2 + w <= room), "line break");
        used = if same { used + 2 + w } else { w };
        if !same {
            cover("two lines");
        }
    };
    if let Some(p) = pid {
        let mut t = "pid 4".to_owned();
        t.push((b'0' + p) as char);
        piece(&t);
    }
    if let Some(t) = thread {
        let mut q = "thread \"        ".to_owned();
        q.push_str(t);
        q.push_str("        \"");
        piece(&q);
    }
    if let Some(b) = born {
        let at = DATES.iter().find(|(n, _)| *n == b).unwrap().1;
        if at.is_empty() {
            // there is no telling how such a date is shown
            return cover("odd date");
        }
        let mut q = "recorded ".to_owned();
        q.push_str(at);
        piece(&q);
    }
    cover("complete");
    check(rest == ".", "end");
}
const DATES: &[(&str, &str)] = &[
    ("1656508702311015", "2022-06-29T13:18:22.311015Z"),
    ("0", "1970-01-01T00:00:00Z"),
    ("4102444800000000", "2100-01-01T00:00:00Z"),
    ("253402300800000000", ""),
    ("900000000000000000000000", ""),
    ("-900000000000000000", ""),
    ("1e300", ""),
];
fn pid() -> Option<u8> {
    if choice(2) == 0 {
        return None;
    }
    let p = symrt::u8();
    assume(p < 10);
    Some(p)
}
fn alnum(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        let b = symrt::u8();
        assume((b >= 0x20) & (b < 0x7f) & (b != b'"') & (b != b'\\') & (b != b'\''));
        s.push(b as char)
    }
    s
}

// ------------------------------------------------------- D05: what is hottest
fn wide_words(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        push_any(&mut s, 1 + choice(2));
    }
    s
}
fn digit() -> u8 {
    let d = symrt::u8();
    assume(d < 10);
    d
}
/// Activities that follow each other, some holding the previous one
fn activities(names: &[&str]) -> (ClangTrace, Vec<u64>, Vec<u64>) {
    let mut j = r#"{"traceEvents":["#.to_owned();
    let (mut dur, mut own) = (vec![], vec![]);
    let (mut first, mut longs, mut last_digit) = (vec![], vec![], 0);
    for (i, n) in names.iter().enumerate() {
        let d = digit();
        // an activity that holds the previous one starts with it and ends later
        let how = if i > 0 { choice(3) } else { 0 };
        let nests = how > 0;
        let at = 100 * (i as u64 + 1);
        let start = if nests { first[i - 1] } else { at };
        // or does nothing else
        if how == 2 {
            assume(d == last_digit);
        }
        last_digit = d;
        j.push_str(&format!(r#"{{"ph":"X","pid":7,"tid":7,"ts":{start},"dur":        "#));
        let long = match how {
            0 => 0,
            1 => at - start,
            _ => longs[i - 1],
        };
        longs.push(long);
        if long > 0 {
            j.push_str(&format!("{}", long / 10));
        }
        first.push(start);
        j.push((b'0' + d) as char);
        j.push_str(r#","name":""#);
        j.push_str(n);
        j.push_str(r#""},"#);
        dur.push(long + d as u64);
        own.push(long + d as u64 - if nests { dur[i - 1] } else { 0 });
    }
    j.push_str(PROCESS);
    j.push_str("]}");
    log(j.as_bytes());
    match ClangTrace::from_str(&j) {
        Ok(t) => (t, dur, own),
        Err(_e) => {
            #[cfg(feature = "real")]
            eprintln!("{_e}");
            panic!()
        }
    }
}
fn hottest(n: usize) {
    let (trace, dur, own) = activities(&["Frontend", "Backend", "Optimizer", "Frontend", "Backend"][..n]);
    let _ = own;
    let t = digit() as f64;
    let hot = crate::trace::hottest_activities(trace.all_activities(), |a| a.duration(), t);
    let mut seen = vec![false; n];
    for (i, a) in hot.iter().enumerate() {
        let id = a.id();
        check(id < n && !seen[id], "distinct");
        seen[id] = true;
        check(a.duration() == dur[id] as f64, "same");
        if i > 0 {
            check(hot[i - 1].duration() >= a.duration(), "order");
        }
        check(dur[id] as f64 >= t, "threshold");
    }
    for i in 0..n {
        check(seen[i] | ((dur[i] as f64) < t), "complete");
    }
    if hot.len() == n {
        cover("all");
    } else {
        cover("some");
    }
}
fn breakdown(n: usize) {
    let names = &["Frontend", "Backend", "Frontend", "Optimizer", "Backend"][..n];
    let (trace, dur, own) = activities(names);
    let table = crate::trace::activity_type_breakdown(&trace);
    let mut want: Vec<(&str, u64)> = vec![];
    for (i, n) in names.iter().enumerate() {
        match want.iter_mut().find(|w| w.0 == *n) {
            Some(w) => w.1 += own[i],
            None => want.push((n, own[i])),
        }
    }
    check(table.len() == want.len(), "types");
    let mut total = 0.0;
    for (i, (name, d)) in table.iter().enumerate() {
        let w = want.iter().position(|w| w.0 == &**name);
        check(w.is_some(), "known type");
        let w = want.swap_remove(w.unwrap());
        check(*d == w.1 as f64, "sum");
        total += *d;
        if i > 0 {
            check(table[i - 1].1 >= *d, "order");
        }
    }
    let roots: u64 = trace.root_activities().map(|r| dur[r.id()]).fold(0, |a, b| a + b);
    check(total == roots as f64, "total");
    cover("table");
}

// ------------------------------------------------------ D06: stdio interface
struct Act {
    name: &'static str,
    detail: String,
    start: u64,
    end: u64,
}
/// What the program prints about a trace
fn run_stdio(acts: &[Act], cols: u16, self_threshold: f32, hierarchical_threshold: f32) -> String {
    let mut j = r#"{"traceEvents":["#.to_owned();
    for a in acts {
        j.push_str(&format!(r#"{{"ph":"X","pid":7,"tid":7,"ts":{},"dur":{},"name":"{}""#, a.start, a.end - a.start, a.name));
        if !a.detail.is_empty() {
            j.push_str(r#","args":{"detail":""#);
            j.push_str(&a.detail);
            j.push_str(r#""}"#);
        }
        j.push_str("},");
    }
    j.push_str(PROCESS);
    j.push_str("]}");
    log(j.as_bytes());
    let input = symrt::sys::file("trace.json", j.as_bytes());
    symrt::sys::stdout_start();
    super::stdio::run(crate::CliArgs {
        input: Some(input.into()),
        ui: crate::UI::Stdio,
        self_threshold,
        hierarchical_threshold,
        max_cols: cols,
        time_trace_granularity: None,
        build_profile: None,
    });
    let out = symrt::sys::stdout_end();
    unsafe { String::from_utf8_unchecked(out) }
}
fn act(name: &'static str, detail: String, start: u64, end: u64) -> Act {
    Act { name, detail, start, end }
}
/// What the parts of a line are made of
struct Line {
    name: &'static str,
    desc: String,
    trailer: String,
}
/// `x` shows an activity in `cols` columns
fn line_form(x: &str, l: &Line, cols: usize) {
    let (d, t) = (l.desc.width(), l.trailer.width());
    let min = l.name.width() + if l.desc.len() > l.name.len() { 3 } else { 0 };
    check(x.width() <= cols.max(1), "line fits");
    if min > cols {
        cover("placeholder");
        return check(x == "…", "placeholder");
    }
    let room = if min + t <= cols {
        check(x.ends_with(&l.trailer[..]), "durations");
        cols - t
    } else {
        cover("no durations");
        cols
    };
    let shown = if min + t <= cols { &x[..x.len() - l.trailer.len()] } else { x };
    if d <= room {
        check(shown == l.desc, "whole description");
    } else {
        cover("cut description");
        check(shown.starts_with(l.name) && shown[l.name.len()..].starts_with('(') && shown.ends_with(')'), "cut description");
        check(shown.contains('…'), "cut mark");
    }
}
/// The report on a trace. `acts` are in the order of the file: children first.
fn stdio(acts: &[Act], self_threshold: u64, hierarchical_threshold: u64) {
    let cols = symrt::u16();
    let n = acts.len();
    // tree
    let holds = |p: usize, c: usize| p > c && acts[p].start <= acts[c].start && acts[c].end <= acts[p].end;
    let parent = |c: usize| (c + 1..n).find(|p| holds(*p, c));
    let dur = |i: usize| acts[i].end - acts[i].start;
    let own = |i: usize| dur(i) - (0..i).filter(|c| parent(*c) == Some(i)).map(dur).fold(0, |a, b| a + b);
    let total = (0..n).filter(|i| parent(*i).is_none()).map(dur).fold(0, |a, b| a + b);
    let time = |us: u64| if us < 1000 { format!("{us}µs") } else { format!("{:.2}ms", us as f64 / 1000.0) };
    let line = |i: usize, us: u64| {
        let mut desc = acts[i].name.to_owned();
        if !acts[i].detail.is_empty() {
            desc.push('(');
            desc.push_str(&acts[i].detail);
            desc.push(')');
        }
        Line { name: acts[i].name, desc, trailer: format!(" [{}, {:.2}%]", time(us), 100.0 * us as f64 / total as f64) }
    };
    let out = run_stdio(acts, cols, self_threshold as f32, hierarchical_threshold as f32);
    log(out.as_bytes());
    // one list of lines per section
    let mut sections: Vec<Vec<&str>> = vec![vec![]];
    for l in out.split('\n') {
        if l.ends_with(':') && (l.starts_with("Self-duration") || l.starts_with("Hottest") || l.starts_with("Hierarchical")) {
            sections.push(vec![]);
        } else if !l.is_empty() {
            sections.last_mut().unwrap().push(l);
        }
    }
    check(sections.len() == 4, "sections");
    let cols = cols as usize;
    for l in &sections[0] {
        check(l.width() <= cols.max(1), "metadata fits");
    }
    // activity types
    let mut types: Vec<(&str, u64)> = vec![];
    for i in 0..n {
        match types.iter_mut().find(|t| t.0 == acts[i].name) {
            Some(t) => t.1 += own(i),
            None => types.push((acts[i].name, own(i))),
        }
    }
    types.sort_by_key(|t| std::cmp::Reverse(t.1));
    let hot = |us: u64, percent: u64| 100 * us >= percent * total;
    let (shown, hidden) = (types.iter().filter(|t| hot(t.1, self_threshold)).count(), types.iter().filter(|t| !hot(t.1, self_threshold)).count());
    check(sections[1].len() == shown + (hidden > 0) as usize, "types");
    for i in 0..shown {
        // (equal durations come in any order)
        let found = types.iter().any(|t| t.1 == types[i].1 && sections[1][i] == format!("- {} [{}, {:.2}%]", t.0, time(t.1), 100.0 * t.1 as f64 / total as f64));
        check(found, "type");
    }
    if hidden > 0 {
        cover("other types");
        check(sections[1][shown] == format!("- ... and {hidden} other activity types below {self_threshold}.00% ..."), "other types");
    }
    // flat profile
    let mut order: Vec<usize> = (0..n).filter(|i| hot(own(*i), self_threshold)).collect();
    order.sort_by_key(|i| std::cmp::Reverse(own(*i)));
    let others = n - order.len();
    check(sections[2].len() == order.len() + (others > 0) as usize, "flat");
    for (k, i) in order.iter().enumerate() {
        let l = sections[2][k];
        check(l.starts_with("- "), "bullet");
        line_form(&l[2..], &line(*i, own(*i)), cols.saturating_sub(2));
    }
    if others > 0 {
        check(sections[2][order.len()] == format!("- ... and {others} other activities below {self_threshold}.00% ..."), "others");
    }
    // hierarchical profile
    let mut lines = sections[3].iter();
    let mut todo: Vec<(Option<usize>, usize, usize, Vec<bool>)> = vec![];
    let mut roots: Vec<usize> = (0..n).filter(|i| parent(*i).is_none()).collect();
    roots.sort_by_key(|i| std::cmp::Reverse(dur(*i)));
    for r in roots.iter().rev() {
        todo.push((Some(*r), 0, cols, vec![]));
    }
    while let Some((i, hidden, room, last)) = todo.pop() {
        let l = lines.next();
        check(l.is_some(), "tree size");
        let mut l = *l.unwrap();
        for (k, z) in last.iter().enumerate() {
            let p = match (k + 1 == last.len(), z) {
                (true, true) => "└─",
                (true, false) => "├─",
                (false, true) => "  ",
                (false, false) => "│ ",
            };
            check(l.starts_with(p), "tree glyph");
            l = &l[p.len()..];
        }
        let Some(i) = i else {
            let t = format!("…{hidden} callee(s) below {hierarchical_threshold}.00%…");
            check(l == if t.width() > room { "…" } else { &t }, "callees");
            cover("callees");
            continue;
        };
        line_form(l, &line(i, dur(i)), room);
        if room <= 2 {
            continue;
        }
        let mut kids: Vec<usize> = (0..i).filter(|c| parent(*c) == Some(i)).collect();
        let all = kids.len();
        kids.retain(|c| hot(dur(*c), hierarchical_threshold));
        kids.sort_by_key(|c| std::cmp::Reverse(dur(*c)));
        let mut more = vec![];
        let hidden = all - kids.len();
        let count = kids.len() + (hidden > 0) as usize;
        for (k, c) in kids.into_iter().map(Some).chain((hidden > 0).then_some(None)).enumerate() {
            let mut last = last.clone();
            last.push(k + 1 == count);
            more.push((c, hidden, room - 2, last));
        }
        todo.extend(more.into_iter().rev());
    }
    check(lines.next().is_none(), "tree end");
    cover("report");
}
fn exec(start: u64, end: u64) -> Act {
    act("ExecuteCompiler", String::new(), start, end)
}
fn stdio_1() {
    stdio(&[exec(100, 200)], 1, 1)
}
/// A root and two passes
fn stdio_3(detail: &str) {
    let t = choice(3);
    let (a, b) = (act("RunPass", holes(detail), 100, 400), act("Frontend", String::new(), 400, 400 + [30, 10, 299][t as usize]));
    stdio(&[a, b, exec(50, 1100)], 2, 2)
}
fn stdio_deep() {
    let f = |n: u64| act("Frontend", String::new(), 100 - n, 400 + n);
    stdio(&[act("Source", "/a/b.h".to_owned(), 300, 310), act("ParseClass", "A::B<3>".to_owned(), 120, 350), f(1), f(2), exec(50, 1100)], [2, 50, 0, 100][choice(4) as usize], [2, 40, 100][choice(3) as usize])
}
/// Activities that take no measurable time
fn stdio_zero() {
    let cols = symrt::u16();
    let a = [act("Frontend", String::new(), 100, 100), exec(100, 100)];
    let out = run_stdio(&a[choice(2) as usize..], cols, 0.5, 0.5);
    check(out.split('\n').filter(|l| *l == "Hottest activities by self-duration:" || *l == "Hierarchical profile:").count() == 2, "sections");
    cover("report");
}
fn stdio_roots() {
    let a = [exec(100, 400), exec(500, 900), exec(1000, 1010)];
    stdio(&a[..choice(4) as usize], 2, 2)
}

symrt::harnesses! {
    fn h_string_3() { string(&word(3, 4)) }
    fn h_string_4() { string(&word(4, 4)) }
    fn h_string_5() { string(&word(5, 3)) }
    fn h_string_ascii() { string(&word(12, 1)) }
    fn h_string_multi() { multi(&word(4, 4)) }
    fn h_path_root() { path(&[], true) }
    fn h_path_name() { let n = 1 + choice(4) as usize; path(&[n], choice(2) == 1) }
    fn h_path_2() { let (a, b) = (1 + choice(3) as usize, 1 + choice(3) as usize); path(&[a, b], choice(2) == 1) }
    fn h_path_3() { let (a, b, c) = (1 + choice(3) as usize, 1 + choice(3) as usize, 1 + choice(3) as usize); path(&[a, b, c], choice(2) == 1) }
    fn h_path_4() { let v: Vec<usize> = (0..4).map(|_| 1 + choice(3) as usize).collect(); path(&v, choice(2) == 1) }
    fn h_path_5() { let v: Vec<usize> = (0..5).map(|_| 1 + choice(2) as usize).collect(); path(&v, choice(2) == 1) }
    fn h_path_wide_2() { path_wide(&[shape(), shape()]) }
    fn h_path_wide_3() { path_wide(&["ww", shape(), shape()]) }
    fn h_path_wide_name() { path_wide(&["awwwwwwwwa"]) }
    fn h_path_wide_names() { path_wide(&["aw", ["awwwwwwwwa", "wwawawwewww", "aaawaaawaaawaae"][choice(3) as usize]]) }
    fn h_path_long() { let n = 13 + choice(9) as usize; path(&[2, n], choice(2) == 1) }
    fn h_path_long_1() { let n = 13 + choice(9) as usize; path(&[n], choice(2) == 1) }
    fn h_desc_none() { desc("ExecuteCompiler", None) }
    fn h_desc_string() { desc("RunPass", Some("%%%%%")) }
    fn h_desc_path() { desc("Source", Some("/@@/@@@/@.h")) }
    fn h_desc_module() { desc("Source", Some("[module]")) }
    fn h_desc_entity() { desc("ParseClass", Some("X#::X#<X#, #>::X")) }
    fn h_desc_loop() { desc("RunLoopPass", Some("<unnamed loop>")) }
    fn h_desc_symbol() { desc("OptFunction", Some("_Z1@v")) }
    fn h_desc_unmangled() { desc("OptFunction", Some("@$$$")) }
    fn h_desc_two() { desc_two(["RunPass", "ParseClass", "Source", "OptFunction"][choice(4) as usize]) }
    fn h_meta() { metadata(&alnum(choice(3) as usize), Some(&alnum(choice(3) as usize)), pid(), Some(DATES[0].0)) }
    fn h_meta_wide() { metadata(&wide_words(choice(2) as usize), Some(&wide_words(choice(4) as usize)), pid(), None) }
    fn h_meta_some() { metadata("clang", (choice(2) == 1).then_some("clang"), pid(), (choice(2) == 1).then_some(DATES[0].0)) }
    fn h_meta_date() { metadata("clang", None, pid(), Some(DATES[choice(DATES.len() as u32) as usize].0)) }
    fn h_hot_2() { hottest(2) }
    fn h_hot_3() { hottest(3) }
    fn h_hot_4() { hottest(4) }
    fn h_types_2() { breakdown(2) }
    fn h_types_3() { breakdown(3) }
    fn h_types_4() { breakdown(4) }
    fn h_stdio_1() { stdio_1() }
    fn h_stdio_3() { stdio_3("abc") }
    fn h_stdio_detail() { stdio_3("@@") }
    fn h_stdio_zero() { stdio_zero() }
    fn h_stdio_deep() { stdio_deep() }
    fn h_stdio_roots() { stdio_roots() }
}
