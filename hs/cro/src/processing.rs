// Harnesses over the processing thread of the TUI, included in `crate::ui::tui::processing`
use super::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use symrt::{check, choice, cover, log};

/// name, detail, start, end
type Act = (&'static str, &'static str, u64, u64);
/// Children first, as clang writes them
const ONE: &[Act] = &[("RunPass", "abcdef", 100, 130), ("Source", "/some/dir/x.h", 200, 250), ("Frontend", "", 90, 300), ("ExecuteCompiler", "", 50, 1000)];
const TWO: &[Act] = &[("RunPass", "ghijklmn", 100, 140), ("RunPass", "op", 200, 250), ("RunPass", "qr", 300, 300), ("ExecuteCompiler", "", 50, 2000)];

fn file(name: &str, acts: &[Act], process: &str) -> Box<Path> {
    let mut j = r#"{"traceEvents":["#.to_owned();
    for a in acts {
        j.push_str(&format!(r#"{{"ph":"X","pid":7,"tid":7,"ts":{},"dur":{},"name":"{}""#, a.2, a.3 - a.2, a.0));
        if !a.1.is_empty() {
            j.push_str(&format!(r#","args":{{"detail":"{}"}}"#, a.1));
        }
        j.push_str("},");
    }
    j.push_str(&format!(r#"{{"ph":"M","pid":7,"tid":7,"ts":0,"cat":"","name":"process_name","args":{{"name":"{process}"}}}}]}}"#));
    Path::new(&symrt::sys::file(name, j.as_bytes())).into()
}
fn load(acts: &[Act], process: &str) -> ClangTrace {
    let p = file(if acts.as_ptr() == ONE.as_ptr() { "one.json" } else { "two.json" }, acts, process);
    ClangTrace::from_file(p).unwrap()
}

/// How callbacks of loads ended: two bits each
static LOADS: AtomicUsize = AtomicUsize::new(0);
fn loaded(r: ClangTraceLoadResult) {
    let n = LOADS.load(Ordering::Relaxed);
    LOADS.store(n * 4 + 1 + r.is_ok() as usize, Ordering::Relaxed);
}

/// The width of a column of descriptions
fn width() -> u16 {
    symrt::u16()
}
/// What an activity looks like to a trace nobody asked anything before
fn fresh(acts: &'static [Act], id: usize, config: DisplayConfig) -> (String, bool) {
    let mut trace = load(acts, "clang");
    describe_activity(&mut trace, &mut HashMap::new(), id, config)
}

/// Requests to a processing thread, and what it replies
struct Session {
    send: Sender<Instruction>,
    instructions: Option<Receiver<Instruction>>,
    strings: (Sender<(String, bool)>, Receiver<(String, bool)>),
    activities: (Sender<ActivityInfoList>, Receiver<ActivityInfoList>),
    descs: (Sender<ActivityDescList>, Receiver<ActivityDescList>),
    loads: usize,
}
impl Session {
    fn new() -> Self {
        let (send, r) = mpsc::channel();
        Self { send, instructions: Some(r), strings: mpsc::channel(), activities: mpsc::channel(), descs: mpsc::channel(), loads: 0 }
    }
    fn ask(&mut self, i: Instruction) {
        self.send.send(i).unwrap()
    }
    fn load(&mut self, acts: &[Act]) {
        let p = file(if acts.as_ptr() == ONE.as_ptr() { "one.json" } else { "two.json" }, acts, "clang");
        self.ask(Instruction::LoadTrace(p, Box::new(loaded)));
        self.loads = self.loads * 4 + 2;
    }
    fn load_bad(&mut self) {
        self.ask(Instruction::LoadTrace(Path::new(&symrt::sys::file("bad.json", b"{\"traceEvents\":[")).into(), Box::new(loaded)));
        self.loads = self.loads * 4 + 1;
    }
    /// The worker works off all requests, then its client hangs up
    fn run(self) -> (Receiver<(String, bool)>, Receiver<ActivityInfoList>, Receiver<ActivityDescList>) {
        let Session { send, instructions, strings, activities, descs, loads } = self;
        drop(send);
        LOADS.store(0, Ordering::Relaxed);
        worker(instructions.unwrap(), strings.0, activities.0, descs.0);
        check(LOADS.load(Ordering::Relaxed) == loads, "loads");
        (strings.1, activities.1, descs.1)
    }
}

/// `steps` requests to describe activities, in any order; two widths
fn describe(steps: usize, reload: bool) {
    let widths = [width(), width()];
    symrt::assume(widths[0] != widths[1]);
    let mut s = Session::new();
    s.load(ONE);
    let mut acts = ONE;
    let mut want_lists: Vec<(&'static [Act], Vec<usize>, u16)> = vec![];
    let mut want_one: Vec<(&'static [Act], usize, u16)> = vec![];
    for k in 0..steps {
        if reload && k == 1 {
            if choice(2) == 1 {
                s.load_bad();
                cover("bad file");
            }
            s.load(TWO);
            acts = TWO;
        }
        let w = widths[choice(2) as usize];
        match choice(3) {
            0 => {
                let ids = vec![0, 3, 1];
                want_lists.push((acts, ids.clone(), w));
                s.ask(Instruction::DescribeActivities { activities: ids.into(), max_cols: w });
            }
            1 => {
                let ids = vec![1, 0];
                want_lists.push((acts, ids.clone(), w));
                s.ask(Instruction::DescribeActivities { activities: ids.into(), max_cols: w });
            }
            _ => {
                want_one.push((acts, 1, w));
                s.ask(Instruction::DescribeActivity { activity: 1, max_cols: w });
            }
        }
    }
    let (strings, _, descs) = s.run();
    for (acts, ids, w) in want_lists {
        let got = descs.recv();
        check(got.is_ok(), "reply");
        let got = got.unwrap();
        check(got.len() == ids.len(), "as many as asked");
        for (d, id) in got.iter().zip(ids) {
            log(d.as_bytes());
            let (want, _) = fresh(acts, id, DisplayConfig::SingleLine { max_cols: w });
            check(**d == *want, "description");
            check(unicode_width::UnicodeWidthStr::width(&**d) <= (w as usize).max(1), "fits");
            if **d == *"…" {
                cover("no room");
            }
        }
    }
    check(descs.recv().is_err(), "lists");
    for (acts, id, _) in want_one {
        let got = strings.recv();
        check(got.is_ok(), "reply");
        let (d, wrap) = got.unwrap();
        log(d.as_bytes());
        let full = format!("{}({})", acts[id].0, acts[id].1);
        check(wrap || d == full, "wrap");
        let w: String = d.chars().filter(|c| !c.is_whitespace()).collect();
        check(w == full, "full description");
        cover("one");
    }
    check(strings.recv().is_err(), "strings");
    cover("done");
}

/// Lists of activities
fn lists() {
    let acts = [ONE, TWO][choice(2) as usize];
    let parent = |c: usize| (c + 1..acts.len()).find(|p| acts[*p].2 <= acts[c].2 && acts[c].3 <= acts[*p].3);
    let below = |p: usize, c: usize| {
        let mut x = parent(c);
        while let Some(y) = x {
            if y == p {
                return true;
            }
            x = parent(y);
        }
        false
    };
    let mut s = Session::new();
    s.load(acts);
    let mut want: Vec<Vec<usize>> = vec![];
    for _ in 0..2 {
        let id = choice(4) as usize;
        let (i, w): (_, Vec<usize>) = match choice(4) {
            0 => (Instruction::GetRootActivities, (0..4).filter(|i| parent(*i).is_none()).collect()),
            1 => (Instruction::GetAllActivities, (0..4).collect()),
            2 => (Instruction::GetDirectChildren(id), (0..4).filter(|i| parent(*i) == Some(id)).collect()),
            _ => (Instruction::GetAllChildren(id), (0..4).filter(|i| below(id, *i)).collect()),
        };
        want.push(w);
        s.ask(i);
    }
    let (_, lists, _) = s.run();
    for want in want {
        let got = lists.recv();
        check(got.is_ok(), "reply");
        let got = got.unwrap();
        check(got.len() == want.len(), "number of activities");
        for id in &want {
            let a = got.iter().filter(|a| a.id == *id).count();
            check(a == 1, "each once");
        }
        for a in got.iter() {
            log(&[a.id as u8]);
            let dur = |i: usize| acts[i].3 - acts[i].2;
            let kids: Vec<usize> = (0..4).filter(|i| parent(*i) == Some(a.id)).collect();
            check(a.has_children == !kids.is_empty(), "has children");
            check(a.duration == dur(a.id) as f64, "duration");
            check(a.self_duration == (dur(a.id) - kids.iter().map(|k| dur(*k)).sum::<u64>()) as f64, "self duration");
        }
        cover(if want.is_empty() { "none" } else { "some" });
    }
}

symrt::harnesses! {
    fn h_tui_1() { describe(1, false) }
    fn h_tui_2() { describe(2, false) }
    fn h_tui_3() { describe(3, false) }
    fn h_tui_reload() { describe(2, true) }
    fn h_tui_lists() { lists() }
}
