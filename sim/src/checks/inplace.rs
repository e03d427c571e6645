//! Scripts edited in place: line updates, added and removed styles, events and sections, batches
//! and atomic batches with members that fail, change tracking, diffs and writing out, against a
//! model of what each section says (C21).
use crate::checks::script;
use crate::engine::{part, Check, Cx, Scenario};
use crate::gen::Gen;
use ass_core::parser::ast::{Event, ScriptInfo, Span, Style};
use ass_core::parser::script::{Change, EventBatch, LineContent, StyleBatch, UpdateOperation};
use ass_core::parser::{Script, Section, SectionType};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Upd {
    /// which entry of the text, and where in it
    pub a: u64,
    pub b: u64,
    pub line: String,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Update(Upd),
    Batch(Vec<Upd>),
    Atomic(Vec<Upd>, Vec<String>, Vec<String>),
    Style(String),
    Event(String),
    Styles(Vec<String>),
    Events(Vec<String>),
    AddSection(u8, Vec<String>),
    RemoveSection(u64),
    Track(u8),
    /// set the order of the fields of the events
    Reorder(u64),
    /// write out, read back and go on with that
    Reload(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub text: String,
    pub acts: Vec<Act>,
}

const FIELDS: &[&str] = &["Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text"];
fn any_case(g: &mut Gen, s: &str) -> String {
    match g.below(12) {
        0 => s.to_lowercase(),
        1 => s.to_uppercase(),
        _ => s.to_string(),
    }
}
fn gen_line(g: &mut Gen) -> String {
    match g.below(20) {
        0..=7 => script::event_line(g),
        8..=11 => {
            let n = g.pick(&["Default", "Alt", "*Default,Sub", "Ω", "* Alt ,Sub2"]).to_string();
            script::style_line(g, &n)
        }
        12..=15 => format!("{}: {}", g.pick(&["Title", "PlayResX", "Author", "WrapStyle", "Subtitle", "ScriptType"]), g.pick(&["", "x", "640", "a: b", "é", "v4.00+"])),
        16 => g.pick(&["", "nothing", "Format: A", "Dialogue: 1,2", "Style: a", "  Title :  spaced  ", "Sound: 0,0:00:00.00,0:00:01.00,Default,,0,0,0,,a.wav"]).to_string(),
        17 => format!("  {}  ", script::event_line(g)),
        _ => script::event_line(g).replace("Default", "Alt"),
    }
}
fn gen_upd(g: &mut Gen) -> Upd {
    Upd { a: g.u64() >> 8, b: g.u64() >> 8, line: gen_line(g) }
}
fn gen_text(g: &mut Gen) -> String {
    let mut s = String::new();
    let mut order = vec![0, 1, 2];
    if g.chance(1, 3) {
        order.swap(0, g.idx(3));
        order.swap(1, g.idx(3));
    }
    if g.chance(1, 6) {
        order.pop();
    }
    if g.chance(1, 6) {
        order.push(3);
    }
    for k in order {
        match k {
            0 => {
                s += "[Script Info]\n";
                for _ in 0..g.below(5) {
                    s += *g.pick(&["Title: My Show\n", "ScriptType: v4.00+\n", "PlayResX: 640\n", "; a comment\n", "Empty:\n", "Title: again\n", "\n", "Author: é\n"]);
                }
            }
            1 => {
                s += g.pick(&["[V4+ Styles]\n", "[V4+ Styles]\n", "[V4 Styles]\n"]);
                if g.chance(4, 5) {
                    let f = any_case(g, script::ST_FORMAT.strip_prefix("Format: ").unwrap());
                    s += &format!("Format: {f}{}\n", g.pick(&["", "", ""]));
                }
                for n in ["Default", "Alt", "*Default,Sub", "Ω"] {
                    if g.chance(2, 3) {
                        s += &format!("{}\n", script::style_line(g, n));
                    }
                    if g.chance(1, 6) {
                        s += "; between\n";
                    }
                }
            }
            2 => {
                s += "[Events]\n";
                if g.chance(4, 5) {
                    let f = any_case(g, script::EV_FORMAT.strip_prefix("Format: ").unwrap());
                    s += &format!("Format: {f}\n");
                }
                for _ in 0..g.below(6) {
                    s += &format!("{}\n", script::event_line(g));
                    if g.chance(1, 6) {
                        s += g.pick(&["; between\n", "\n", "junk\n"]);
                    }
                }
            }
            _ => s += "[Fonts]\nfontname: a.ttf\n!!!!!!!!\n[Graphics]\nfilename: p.png\n0000\n",
        }
        if g.bool() {
            s += "\n";
        }
    }
    s
}

/// One entry: its place in the source and what it says.
#[derive(Clone, Debug, PartialEq)]
struct Entry {
    at: Option<(usize, usize)>,
    says: String,
}
#[derive(Clone, Debug, PartialEq)]
struct Sec {
    ty: SectionType,
    at: Option<(usize, usize)>,
    entries: Vec<Entry>,
    fields: Vec<(String, String)>,
}
#[derive(Clone, Debug, PartialEq)]
struct Model {
    secs: Vec<Sec>,
    tracking: bool,
    changes: Vec<String>,
    styles_format: Option<Vec<String>>,
    events_format: Option<Vec<String>>,
}
fn place(s: &Span) -> Option<(usize, usize)> {
    (s.start < s.end).then_some((s.start, s.end))
}
fn style_says(e: &Style) -> String {
    let mut e = e.clone();
    e.span = Span::new(0, 0, 0, 0);
    format!("{e:?}")
}
fn event_says(e: &Event) -> String {
    let mut e = e.clone();
    e.span = Span::new(0, 0, 0, 0);
    format!("{e:?}")
}
fn sec(s: &Section) -> Sec {
    let mut x = Sec { ty: s.section_type(), at: None, entries: vec![], fields: vec![] };
    match s {
        Section::ScriptInfo(i) => {
            x.at = place(&i.span);
            x.fields = i.fields.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        }
        Section::Styles(v) => x.entries = v.iter().map(|e| Entry { at: place(&e.span), says: style_says(e) }).collect(),
        Section::Events(v) => x.entries = v.iter().map(|e| Entry { at: place(&e.span), says: event_says(e) }).collect(),
        Section::Fonts(v) => x.entries = v.iter().map(|e| Entry { at: place(&e.span), says: format!("{:?} {:?}", e.filename, e.data_lines) }).collect(),
        Section::Graphics(v) => x.entries = v.iter().map(|e| Entry { at: place(&e.span), says: format!("{:?} {:?}", e.filename, e.data_lines) }).collect(),
    }
    x
}
/// What the sections say, without places.
fn words(v: &[Sec]) -> Vec<(SectionType, Vec<String>, Vec<(String, String)>)> {
    v.iter().map(|s| (s.ty, s.entries.iter().map(|e| e.says.clone()).collect(), s.fields.clone())).collect()
}
fn says(c: &LineContent) -> String {
    match c {
        LineContent::Style(s) => style_says(s),
        LineContent::Event(e) => event_says(e),
        LineContent::Field(k, v) => format!("{k:?}={v:?}"),
    }
}
fn change(c: &Change) -> String {
    match c {
        Change::Added { offset, content, line_number } => format!("added {offset} {} {line_number}", says(content)),
        Change::Removed { offset, section_type, line_number } => format!("removed {offset} {section_type:?} {line_number}"),
        Change::Modified { offset, old_content, new_content, line_number } => format!("modified {offset} {} {} {line_number}", says(old_content), says(new_content)),
        Change::SectionAdded { section, index } => format!("section {index} {:?}", words(&[sec(section)])),
        Change::SectionRemoved { section_type, index } => format!("no section {index} {section_type:?}"),
    }
}
fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}
/// What a line says under the formats, read as part of a whole script.
enum Read {
    Style(Style<'static>),
    Event(Event<'static>),
    Field(String, String),
    Nothing,
}
fn read(m: &Model, line: &'static str) -> Read {
    let t = line.trim();
    let fmt = |f: &Option<Vec<String>>| f.as_ref().map_or(String::new(), |f| format!("Format: {}\n", f.join(",")));
    if t.starts_with("Style:") {
        let s = Script::parse(leak(&format!("[V4+ Styles]\n{}{line}", fmt(&m.styles_format)))).unwrap();
        return match s.sections().first() {
            Some(Section::Styles(v)) if v.len() == 1 => Read::Style(v[0].clone()),
            _ => Read::Nothing,
        };
    }
    if ["Dialogue:", "Comment:", "Picture:", "Sound:", "Movie:", "Command:"].iter().any(|k| t.starts_with(k)) {
        let s = Script::parse(leak(&format!("[Events]\n{}{line}", fmt(&m.events_format)))).unwrap();
        return match s.sections().first() {
            Some(Section::Events(v)) if v.len() == 1 => Read::Event(v[0].clone()),
            _ => Read::Nothing,
        };
    }
    match t.split_once(':') {
        Some((k, v)) if !t.starts_with("Format:") => Read::Field(k.trim().into(), v.trim().into()),
        _ => Read::Nothing,
    }
}
impl Model {
    /// Update the line at an offset: what was there, or nothing if that is refused.
    fn update(&mut self, offset: usize, line: &'static str, number: u32) -> Option<String> {
        let inside = |at: &Option<(usize, usize)>| at.is_some_and(|(s, e)| s <= offset && offset < e);
        let read = read(self, line);
        let target = self.secs.iter().enumerate().find_map(|(i, s)| s.entries.iter().position(|e| inside(&e.at)).map(|k| (i, k)));
        let (ty, new) = match read {
            Read::Nothing => return None,
            Read::Field(k, v) => {
                if target.is_some() {
                    return None;
                }
                let i = self.secs.iter().position(|s| s.ty == SectionType::ScriptInfo && inside(&s.at))?;
                let f = &mut self.secs[i].fields;
                let old;
                if let Some(x) = f.iter_mut().find(|x| x.0 == k) {
                    old = format!("{k:?}={:?}", x.1);
                    x.1 = v.clone();
                    self.record(format!("modified {offset} {old} {k:?}={v:?} {number}"));
                } else {
                    old = format!("{k:?}=\"\"");
                    f.push((k.clone(), v.clone()));
                    self.record(format!("added {offset} {k:?}={v:?} {number}"));
                }
                return Some(old);
            }
            Read::Style(s) => (SectionType::Styles, style_says(&s)),
            Read::Event(e) => (SectionType::Events, event_says(&e)),
        };
        let (i, k) = target?;
        if self.secs[i].ty != ty {
            return None;
        }
        let old = std::mem::replace(&mut self.secs[i].entries[k].says, new.clone());
        self.record(format!("modified {offset} {old} {new} {number}"));
        Some(old)
    }
    fn record(&mut self, s: String) {
        if self.tracking {
            self.changes.push(s);
        }
    }
    fn append(&mut self, ty: SectionType, v: Vec<String>) -> Vec<usize> {
        let i = match self.secs.iter().position(|s| s.ty == ty) {
            Some(i) => i,
            None => {
                self.secs.push(Sec { ty, at: None, entries: vec![], fields: vec![] });
                self.secs.len() - 1
            }
        };
        let n = self.secs[i].entries.len();
        self.secs[i].entries.extend(v.into_iter().map(|says| Entry { at: None, says }));
        (n..self.secs[i].entries.len()).collect()
    }
    /// An offset in the source: mostly one of an entry.
    fn offset(&self, u: &Upd, len: usize) -> usize {
        let all: Vec<(usize, usize)> = self.secs.iter().flat_map(|s| s.entries.iter().filter_map(|e| e.at).chain(s.at)).collect();
        if all.is_empty() || u.b % 8 == 0 {
            return (u.a % (len as u64 + 9)) as usize;
        }
        let (s, e) = all[(u.a % all.len() as u64) as usize];
        match u.b % 4 {
            0 | 1 => s,
            2 => e - 1,
            _ => s + (u.b >> 3) as usize % (e - s + 1),
        }
    }
}
fn unplaced<'a>(mut s: Section<'a>) -> Section<'a> {
    let z = Span::new(0, 0, 0, 0);
    match &mut s {
        Section::ScriptInfo(i) => i.span = z,
        Section::Styles(v) => v.iter_mut().for_each(|e| e.span = z),
        Section::Events(v) => v.iter_mut().for_each(|e| e.span = z),
        Section::Fonts(v) => v.iter_mut().for_each(|e| e.span = z),
        Section::Graphics(v) => v.iter_mut().for_each(|e| e.span = z),
    }
    s
}

pub struct InPlace;
impl Scenario for InPlace {
    type Plan = Plan;
    fn name(&self) -> &'static str {
        "inplace"
    }
    fn gen(&self, g: &mut Gen) -> Plan {
        let n = if g.chance(1, 8) { g.range(15, 50) } else { g.range(1, 12) };
        let acts = (0..n)
            .map(|_| match g.below(24) {
                0..=8 => Act::Update(gen_upd(g)),
                9 | 10 => Act::Batch((0..g.range(0, 5)).map(|_| gen_upd(g)).collect()),
                11..=13 => {
                    let lines = |g: &mut Gen| (0..g.below(3)).map(|_| gen_line(g)).collect();
                    Act::Atomic((0..g.range(0, 4)).map(|_| gen_upd(g)).collect(), lines(g), lines(g))
                }
                14 => Act::Style(gen_line(g)),
                15 => Act::Event(gen_line(g)),
                16 => Act::Styles((0..g.below(4)).map(|_| gen_line(g)).collect()),
                17 => Act::Events((0..g.below(4)).map(|_| gen_line(g)).collect()),
                18 => Act::AddSection(g.below(4) as u8, (0..g.below(4)).map(|_| gen_line(g)).collect()),
                19 => Act::RemoveSection(g.u64() >> 8),
                20 => Act::Track(*g.pick(&[0, 0, 1, 1, 1, 2])),
                21 => Act::Reorder(g.u64() >> 8),
                _ => Act::Reload(g.bool()),
            })
            .collect();
        Plan { text: gen_text(g), acts }
    }
    fn run(&self, plan: &'static Plan, cx: &'static Cx) {
        let text: &'static str = &plan.text;
        let mut len = text.len();
        let mut s = Script::parse(text).unwrap();
        let owned = |f: Option<&[&str]>| f.map(|f| f.iter().map(|x| x.to_string()).collect::<Vec<_>>());
        let mut m = Model { secs: s.sections().iter().map(sec).collect(), tracking: s.is_change_tracking_enabled(), changes: vec![], styles_format: owned(s.styles_format()), events_format: owned(s.events_format()) };
        let style = |m: &Model, l: &'static str| match read(m, l) {
            Read::Style(mut x) => {
                x.span = Span::new(0, 0, 0, 0);
                Some(x)
            }
            _ => None,
        };
        let event = |m: &Model, l: &'static str| match read(m, l) {
            Read::Event(mut x) => {
                x.span = Span::new(0, 0, 0, 0);
                Some(x)
            }
            _ => None,
        };
        for (i, act) in plan.acts.iter().enumerate() {
            cx.doing(&format!("{i} {act:?}"));
            let before = s.clone();
            match act {
                Act::Update(u) => {
                    let o = m.offset(u, len);
                    let line = u.line.as_str();
                    let want = m.update(o, line, 7);
                    let got = s.update_line_at_offset(o, line, 7);
                    cx.log(format!("{i} update {o} {line:?}: {}", got.is_ok()));
                    let got = got.ok().map(|c| says(&c));
                    cx.check(got == want, "update-differs", || format!("at {o} to {line:?}: {got:?}, want {want:?}"));
                    cx.probe(if want.is_some() { "updated" } else { "fault:bad_update" });
                    if want.is_some() {
                        cx.nontrivial();
                    }
                }
                Act::Batch(v) => {
                    let mut ops: Vec<(usize, &'static str, u32)> = v.iter().enumerate().map(|(k, u)| (m.offset(u, len), u.line.as_str(), k as u32)).collect();
                    let r = s.batch_update_lines(ops.iter().map(|o| UpdateOperation { offset: o.0, new_line: o.1, line_number: o.2 }).collect());
                    ops.sort_by_key(|o| o.0);
                    let (mut up, mut bad) = (vec![], vec![]);
                    for o in &ops {
                        match m.update(o.0, o.1, o.2) {
                            Some(x) => up.push((o.0, x)),
                            None => bad.push(o.0),
                        }
                    }
                    let got: Vec<_> = r.updated.iter().map(|(o, c)| (*o, says(c))).collect();
                    let failed: Vec<_> = r.failed.iter().map(|x| x.0).collect();
                    cx.log(format!("{i} batch {} {}", got.len(), failed.len()));
                    if !bad.is_empty() {
                        cx.probe("fault:bad_batch_member");
                    }
                    cx.check(got == up && failed == bad, "batch-differs", || format!("updated {got:?}, failed {failed:?}, want {up:?} and {bad:?}"));
                }
                Act::Atomic(v, st, ev) => {
                    let ops: Vec<(usize, &'static str, u32)> = v.iter().enumerate().map(|(k, u)| (m.offset(u, len), u.line.as_str(), k as u32)).collect();
                    let st: Vec<Style> = st.iter().filter_map(|l| style(&m, l)).collect();
                    let ev: Vec<Event> = ev.iter().filter_map(|l| event(&m, l)).collect();
                    let mut z = m.clone();
                    let ok = ops.iter().all(|o| z.update(o.0, o.1, o.2).is_some());
                    if ok {
                        if !st.is_empty() {
                            z.append(SectionType::Styles, st.iter().map(style_says).collect());
                        }
                        if !ev.is_empty() {
                            z.append(SectionType::Events, ev.iter().map(event_says).collect());
                        }
                        m = z;
                    }
                    let r = s.atomic_batch_update(
                        ops.iter().map(|o| UpdateOperation { offset: o.0, new_line: o.1, line_number: o.2 }).collect(),
                        (!st.is_empty()).then_some(StyleBatch { styles: st }),
                        (!ev.is_empty()).then_some(EventBatch { events: ev }),
                    );
                    cx.log(format!("{i} atomic {}", r.is_ok()));
                    cx.check(r.is_ok() == ok, "atomic-differs", || format!("{r:?}, want {ok}"));
                    if !ok {
                        cx.probe("fault:bad_atomic_member");
                        cx.check(s == before, "atomic-partial", || "a refused batch changed the script".into());
                    }
                }
                Act::Style(l) => {
                    if let Some(x) = style(&m, l) {
                        let want = m.append(SectionType::Styles, vec![style_says(&x)])[0];
                        let got = s.add_style(x);
                        cx.check(got == want, "index-differs", || format!("style {got}, want {want}"));
                    }
                }
                Act::Event(l) => {
                    if let Some(x) = event(&m, l) {
                        let want = m.append(SectionType::Events, vec![event_says(&x)])[0];
                        let got = s.add_event(x);
                        cx.check(got == want, "index-differs", || format!("event {got}, want {want}"));
                    }
                }
                Act::Styles(l) => {
                    let v: Vec<Style> = l.iter().filter_map(|l| style(&m, l)).collect();
                    let want = m.append(SectionType::Styles, v.iter().map(style_says).collect());
                    let got = s.batch_add_styles(StyleBatch { styles: v });
                    cx.check(got == want, "index-differs", || format!("styles {got:?}, want {want:?}"));
                }
                Act::Events(l) => {
                    let v: Vec<Event> = l.iter().filter_map(|l| event(&m, l)).collect();
                    let want = m.append(SectionType::Events, v.iter().map(event_says).collect());
                    let got = s.batch_add_events(EventBatch { events: v });
                    cx.check(got == want, "index-differs", || format!("events {got:?}, want {want:?}"));
                }
                Act::AddSection(k, l) => {
                    let x = match k {
                        0 => Section::Styles(l.iter().filter_map(|l| style(&m, l)).collect()),
                        1 => Section::Events(l.iter().filter_map(|l| event(&m, l)).collect()),
                        2 => Section::ScriptInfo(ScriptInfo { fields: vec![("Title", "added"), ("Key", "v")], span: Span::new(0, 0, 0, 0) }),
                        _ => match Script::parse("[Fonts]\nfontname: b.ttf\n!!!!\n").unwrap().sections().first() {
                            Some(f) => unplaced(f.clone()),
                            None => continue,
                        },
                    };
                    let w = sec(&x);
                    m.record(format!("section {} {:?}", m.secs.len(), words(std::slice::from_ref(&w))));
                    m.secs.push(w);
                    let got = s.add_section(x);
                    cx.check(got == m.secs.len() - 1, "index-differs", || format!("section {got}"));
                }
                Act::RemoveSection(k) => {
                    let k = (*k % (m.secs.len() as u64 + 1)) as usize;
                    let r = s.remove_section(k);
                    if k < m.secs.len() {
                        let x = m.secs.remove(k);
                        m.record(format!("no section {k} {:?}", x.ty));
                        let got = r.ok().map(|x| words(&[sec(&x)]));
                        cx.check(got == Some(words(&[x])), "removed-differs", || format!("section {k}: {got:?}"));
                    } else {
                        cx.check(r.is_err(), "removed-nothing", || format!("section {k}"));
                    }
                }
                Act::Track(k) => match k {
                    0 => {
                        s.enable_change_tracking();
                        m.tracking = true;
                    }
                    1 => {
                        s.clear_changes();
                        m.changes.clear();
                    }
                    _ => {
                        s.disable_change_tracking();
                        m.tracking = false;
                    }
                },
                Act::Reorder(k) => {
                    let mut f: Vec<&str> = FIELDS.to_vec();
                    f.swap(0, (*k % 9) as usize);
                    f.swap(1, (k / 9 % 9) as usize);
                    m.events_format = Some(f.iter().map(|x| x.to_string()).collect());
                    s.set_events_format(f);
                }
                Act::Reload(go_on) => {
                    let out = leak(&s.to_ass_string());
                    let z = Script::parse(out).unwrap();
                    let mut got: Vec<Sec> = z.sections().iter().map(sec).collect();
                    // a second section of a kind whose first has a format of its own
                    let (a, b) = (words(&got), words(&m.secs));
                    let k = (0..a.len().max(b.len())).find(|k| a.get(*k) != b.get(*k));
                    cx.check(k.is_none(), "written-differs", || format!("section {:?} reads back as {:?}, was {:?}", k, k.and_then(|k| a.get(k)), k.and_then(|k| b.get(k))));
                    if *go_on {
                        len = out.len();
                        s = z;
                        m.secs = std::mem::take(&mut got);
                        m.tracking = false;
                        m.changes.clear();
                        m.styles_format = owned(s.styles_format());
                        m.events_format = owned(s.events_format());
                    }
                }
            }
            let now: Vec<Sec> = s.sections().iter().map(sec).collect();
            let (a, b) = (words(&now), words(&m.secs));
            cx.check(a == b, "content-differs", || {
                let k = (0..a.len().max(b.len())).find(|k| a.get(*k) != b.get(*k)).unwrap();
                format!("after {act:?} section {k} says {:?}, want {:?}", a.get(k), b.get(k))
            });
            cx.check(now == m.secs, "places-differ", || format!("after {act:?}: {now:?}, want {:?}", m.secs));
            let got: Vec<String> = s.changes().iter().map(change).collect();
            cx.check(got == m.changes && s.change_count() == got.len() && s.is_change_tracking_enabled() == m.tracking, "changes-differ", || format!("after {act:?}: {got:?}, want {:?}", m.changes));
            // what leads from the script before to this one
            let mut want = vec![];
            let (x, y) = (s.sections(), before.sections());
            for k in 0..x.len().max(y.len()) {
                if x.get(k) != y.get(k) {
                    y.get(k).iter().for_each(|o| want.push(format!("no section {k} {:?}", o.section_type())));
                    x.get(k).iter().for_each(|o| want.push(format!("section {k} {:?}", words(&[sec(o)]))));
                }
            }
            let got: Vec<String> = s.diff(&before).iter().map(change).collect();
            cx.check(got == want, "diff-differs", || format!("after {act:?}: {got:?}, want {want:?}"));
        }
    }
}
pub fn check() -> Check {
    Check { id: "C21", real: "ass-core Script editing, change tracking, writing and parsing (compiled from the tree)", stub: "editing client (generated)", rule: "at least one line is updated", parts: vec![part(InPlace, 40_000, 2_000_000)] }
}
