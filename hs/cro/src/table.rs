// Harnesses over the profile tables of the TUI, included in `crate::ui::tui::trace::display`
use super::*;
use symrt::{assume, check, choice, cover, log};

fn columns() {
    let w = symrt::u16();
    let (kind, durations) = if choice(2) == 0 { (ProfileKind::Hierarchical, 2) } else { (ProfileKind::Flat, 1) };
    let d = description_column_width(kind, w) as usize;
    let rest = durations * DURATION_WIDTH;
    if w as usize > rest + 10 {
        // durations, description and what is between them take the whole line
        check(d + rest <= w as usize, "columns fit");
        check(d + rest + 10 >= w as usize, "columns fill");
        cover("wide");
    } else {
        check(d <= w as usize, "narrow");
        cover("narrow");
    }
}
fn row(id: usize) -> HierarchicalData {
    let (d, s) = (symrt::u16() as Duration, symrt::u16() as Duration);
    let description = [symrt::u8() & 0x7f, symrt::u8() & 0x7f];
    HierarchicalData { id, duration: d, self_duration: s, description: unsafe { std::str::from_utf8_unchecked(&description) }.into() }
}
fn column() -> HierarchicalColumn {
    let display = match choice(3) {
        0 => DurationDisplay::Time,
        1 => DurationDisplay::Percentage(Finite::<Duration>::from_inner(1.5), PercentageReference::Global),
        _ => DurationDisplay::Percentage(Finite::<Duration>::from_inner(0.5), PercentageReference::Parent),
    };
    [HierarchicalColumnName::TotalDuration, HierarchicalColumnName::SelfDuration, HierarchicalColumnName::Description][choice(3) as usize].into_column(display)
}
/// Rows are ordered by what the column shows
fn order() {
    let (mut a, mut b, c) = (row(0), row(1), column());
    // microseconds of hours
    for r in [&mut a, &mut b] {
        r.duration = symrt::u32() as Duration;
        r.self_duration = symrt::u32() as Duration;
    }
    let want = match c {
        HierarchicalColumn::Duration(DurationKind::Total, _) => (a.duration as u64).cmp(&(b.duration as u64)),
        HierarchicalColumn::Duration(DurationKind::Myself, _) => (a.self_duration as u64).cmp(&(b.self_duration as u64)),
        HierarchicalColumn::Description => a.description.as_bytes().cmp(b.description.as_bytes()),
    };
    check(a.cmp(&b, c) == want, "order");
    cover(match want {
        Ordering::Less => "less",
        Ordering::Equal => "equal",
        Ordering::Greater => "greater",
    });
}
fn infos(n: usize) -> Box<[ActivityInfo]> {
    (0..n).map(|i| ActivityInfo { id: 10 + i, duration: symrt::u16() as Duration, self_duration: symrt::u16() as Duration, has_children: symrt::bool() }).collect()
}
fn descs(n: usize) -> ActivityDescList {
    (0..n).map(|_| {
        let b = [symrt::u8() & 0x7f, symrt::u8() & 0x7f];
        Arc::from(unsafe { std::str::from_utf8_unchecked(&b) })
    }).collect()
}
/// Every activity has its row, and a + if it can be zoomed
fn rows() {
    let n = choice(4) as usize;
    let (i, d) = (infos(n), descs(n));
    let kind = if choice(2) == 0 { ProfileKind::Hierarchical } else { ProfileKind::Flat };
    let r = make_profile_data(kind, &i, d.clone());
    check(r.len() == n, "as many rows");
    for k in 0..n {
        log(r[k].description.as_bytes());
        check(r[k].id == i[k].id && r[k].duration == i[k].duration && r[k].self_duration == i[k].self_duration, "row");
        match kind {
            ProfileKind::Flat => check(*r[k].description == *d[k], "flat description"),
            ProfileKind::Hierarchical => {
                check(r[k].description.starts_with(if i[k].has_children { '+' } else { ' ' }), "zoom mark");
                check(r[k].description[1..] == *d[k], "description");
            }
        }
        cover("row");
    }
}
/// The activity that is selected at first is the first one in the order asked for
fn selected(n: usize) {
    let (i, d) = (infos(n), descs(n));
    let kind = if choice(2) == 0 { ProfileKind::Hierarchical } else { ProfileKind::Flat };
    let key = [HierarchicalColumnName::TotalDuration, HierarchicalColumnName::SelfDuration, HierarchicalColumnName::Description][choice(3) as usize];
    let mut config = ProfileDisplay { sort_config: SortConfig::default(), duration_display: Some(DurationDisplay::Time) };
    config.sort_config.key = key;
    let reverse = choice(2) == 1;
    if reverse {
        config.sort_config.order = config.sort_config.order.map(Ordering::reverse);
    }
    let pairs: Vec<(usize, u64, u64, Arc<str>, bool)> = i.iter().zip(d.iter()).map(|(i, d)| (i.id, i.duration as u64, i.self_duration as u64, d.clone(), i.has_children)).collect();
    let (_view, id) = make_profile_view("table".into(), kind, (i, d), Box::new(|_| unreachable!()), 40, config, |_, _| {});
    check(id.is_some() == (n > 0), "one selected");
    let Some(id) = id else {
        return cover("empty");
    };
    let s = pairs.iter().find(|p| p.0 == id);
    check(s.is_some(), "selected");
    let s = s.unwrap();
    for p in &pairs {
        // durations fall and descriptions rise, unless reversed
        let o = match (key, kind) {
            (HierarchicalColumnName::TotalDuration, ProfileKind::Hierarchical) => p.1.cmp(&s.1),
            (HierarchicalColumnName::Description, ProfileKind::Hierarchical) => (s.4, &*s.3).cmp(&(p.4, &*p.3)),
            (HierarchicalColumnName::Description, ProfileKind::Flat) => s.3.cmp(&p.3),
            _ => p.2.cmp(&s.2),
        };
        check(if reverse { o.is_ge() } else { o.is_le() }, "first");
    }
    cover("selected");
}
/// Description of the trace and help, on as many lines as needed
fn footer() {
    let w = symrt::u16();
    let n = choice(3) as usize;
    let text = ["Data from clang.", "Data from clang\nprocess 7.", "…"][n];
    let mut v = make_footer_view(w, text.to_owned());
    let last = text.lines().last().unwrap().width();
    let size = v.required_size(cursive::Vec2::new(1000, 1000));
    let joined = last + 18 <= w as usize;
    check(size.y == text.lines().count() + !joined as usize, "lines");
    let widest = text.lines().map(|l| l.width()).max().unwrap();
    check(size.x == widest.max(if joined { last + 18 } else { 17 }), "width");
    cover(if joined { "joined" } else { "separate" });
}
/// Percentages of any duration can be told
fn percents() {
    let total = [0.0, 1.0, 3.0, 77.0, 255.0][choice(5) as usize];
    let part = symrt::u8();
    assume(part as Duration <= total);
    let p = super::super::percent_norm(total).into_inner() * part as Duration;
    if total == 0.0 {
        check(p == 0.0, "nothing");
        return cover("nothing");
    }
    check(p >= 0.0 && p <= 100.000001, "share");
    check(p * total <= part as Duration * 100.000001 && p * total >= part as Duration * 99.999999, "proportion");
    cover("share");
}
/// Column headings tell what is shown
fn names() {
    let c = column();
    if let HierarchicalColumn::Duration(_, d) = c {
        let (t, s) = (total_column_name(d), flat_self_column_name(d));
        check(t != s && t.width() <= DURATION_WIDTH && s.width() <= DURATION_WIDTH, "headings");
        check(t.contains('%') == s.contains('%') && t.contains('%') == !matches!(d, DurationDisplay::Time), "percent");
    }
    check(c.name().into_column(DurationDisplay::Time).name() == c.name(), "name");
    check(c.name().into_flat() != HierarchicalColumnName::TotalDuration, "flat");
    let r = row(0);
    if c == HierarchicalColumn::Description {
        check(r.to_column(c) == *r.description, "text");
        cover("text");
    }
}
symrt::harnesses! {
    fn h_table_columns() { columns() }
    fn h_table_order() { order() }
    fn h_table_rows() { rows() }
    fn h_table_selected_1() { selected(1) }
    fn h_table_selected_2() { selected(2) }
    fn h_table_selected_3() { selected(3) }
    fn h_table_footer() { footer() }
    fn h_table_selected_0() { selected(0) }
    fn h_table_percents() { percents() }
    fn h_table_names() { names() }
}
