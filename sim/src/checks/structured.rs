//! Structured commands (events, styles, script info, embedded files) against a line-level model
//! of a well-formed script: each changes exactly what it names, also inside failing batches.
use super::script;
use crate::engine::{part, Check, Cx, Scenario};
use crate::gen::Gen;
use crate::rt::{self, Config};
use ass_core::parser::ast::EventType;
use ass_editor::commands::*;
use ass_editor::core::errors::EditorError;
use ass_editor::core::fluent::EventSortCriteria;
use ass_editor::{EditorDocument, EventBuilder, StyleBuilder};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, Ordering};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub op: String,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub s: String,
    pub s2: String,
    pub idx: Vec<u32>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub text: String,
    pub ops: Vec<Op>,
}

/// The script as its lines say it.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Model {
    pub info: Vec<(String, String)>,
    pub styles: Vec<Vec<String>>,
    pub events: Vec<Ev>,
    pub fonts: Vec<(String, Vec<String>)>,
    pub graphics: Vec<(String, Vec<String>)>,
    pub comments: Vec<String>,
    pub other: Vec<String>,
    pub headers: Vec<String>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ev {
    pub kind: String,
    /// layer, style, name, margins, effect, text
    pub f: Vec<String>,
    pub start: u32,
    pub end: u32,
}
pub fn cs(s: &str) -> Option<u32> {
    let mut p = s.trim().split(':');
    let (h, m, r) = (p.next()?, p.next()?, p.next()?);
    let (s, c) = r.split_once('.')?;
    if c.len() != 2 || p.next().is_some() {
        return None;
    }
    let f = |x: &str, k: u32| x.parse::<u32>().ok()?.checked_mul(k);
    f(h, 360000)?.checked_add(f(m, 6000)?)?.checked_add(f(s, 100)?)?.checked_add(f(c, 1)?)
}
pub fn fmt(t: u32) -> String {
    format!("{}:{:02}:{:02}.{:02}", t / 360000, t / 6000 % 60, t / 100 % 60, t % 100)
}
fn ev(line: &str) -> Option<Ev> {
    let (k, d) = line.split_once(':')?;
    if !KINDS.contains(&k) {
        return None;
    }
    let p: Vec<&str> = d.splitn(10, ',').map(str::trim).collect();
    if p.len() < 10 {
        return None;
    }
    let f = [0, 3, 4, 5, 6, 7, 8, 9].iter().map(|i| p[*i].to_string()).collect();
    Some(Ev { kind: k.into(), f, start: cs(p[1])?, end: cs(p[2])? })
}
fn style(line: &str) -> Option<Vec<String>> {
    Some(line.strip_prefix("Style:")?.split(',').map(|s| s.trim().to_string()).collect())
}
pub fn parse(t: &str) -> Model {
    let mut m = Model::default();
    let mut sec = String::new();
    for l in t.lines().map(str::trim) {
        if l.is_empty() {
            continue;
        }
        let media = sec == "[Fonts]" || sec == "[Graphics]";
        if l.starts_with('[') && l.ends_with(']') {
            sec = l.to_string();
            m.headers.push(sec.clone());
        } else if l.starts_with(';') && !media {
            m.comments.push(format!("{sec}{l}"));
        } else if sec == "[Script Info]" && l.contains(':') {
            let (k, v) = l.split_once(':').unwrap();
            m.info.push((k.trim().into(), v.trim().into()));
        } else if sec == "[V4+ Styles]" && l.starts_with("Style:") {
            m.styles.push(style(l).unwrap());
        } else if let (true, Some(e)) = (sec == "[Events]", ev(l)) {
            m.events.push(e);
        } else if media {
            let (list, key) = if sec == "[Fonts]" { (&mut m.fonts, "fontname:") } else { (&mut m.graphics, "filename:") };
            if let Some(n) = l.strip_prefix(key) {
                list.push((n.trim().into(), vec![]));
            } else if let Some(x) = list.last_mut() {
                x.1.push(l.into());
            } else {
                m.other.push(format!("{sec}{l}"));
            }
        } else {
            m.other.push(format!("{sec}{l}"));
        }
    }
    m
}

const KEYS: &[&str] = &["Title", "Script", "Original Script", "PlayResX", "ResX", "LayoutResX", "WrapStyle", "Video File", "File", "Timer"];
const STYLES: &[&str] = &["Default", "De", "Default Top", "Alt", "A", "Défaut", "Alternate", "lt"];
const VALUES: &[&str] = &["yes", "640", "My Show", "Über", "a: b", "Title: x", "100.0000", "v4.00+", "", "[x]"];
const TEXTS: &[&str] = &["Hello", "a, b, c", "{\\pos(1,2)}x", "日本語 text", "same", "same", "x(,y", "{\\k20}ka{\\k30}ra", "one\\Ntwo", "Style: Alt", "Dialogue: 0", "", "tail)", "ünï, {\\b1}b"];
const EFFECTS: &[&str] = &["", "", "", "Karaoke", "Banner;10;0", "Scroll up;1;2", "é"];
const FILES: &[&str] = &["a.ttf", "b.ttf", "ab.ttf", "a", "p.png", "é.png"];
const ST_FIELDS: &[(&str, usize)] = &[("Fontname", 1), ("Fontsize", 2), ("PrimaryColour", 3), ("Bold", 7), ("Italic", 8), ("ScaleX", 11), ("Outline", 16), ("Alignment", 18), ("MarginL", 19), ("MarginV", 21), ("Encoding", 22)];

const KINDS: &[&str] = &["Dialogue", "Comment", "Sound", "Picture", "Movie", "Command"];
fn event(g: &mut Gen) -> String {
    let s = if g.chance(1, 8) { g.below(4_000_000) } else { g.below(60) * 10 } as u32;
    let e = s + g.range(0, 300) as u32;
    format!(
        "{}: {},{},{},{},{},{},{},{},{},{}",
        if g.chance(1, 4) { "Comment" } else if g.chance(1, 12) { *g.pick(KINDS) } else { "Dialogue" },
        g.below(3), fmt(s), fmt(e), g.pick(STYLES), g.pick(&["", "Bob", "Zoë"]), g.below(2) * 10, g.below(2) * 5, g.below(3), g.pick(EFFECTS), g.pick(TEXTS)
    )
}
const LONG: &str = "D1A5B8*?K'L2D1A5B8*?K'L2D1A5B8*?K'L2D1A5B8*?K'L2D1A5B8*?K'L2D1A5B8*?K'L2D1A5B8*?\n";
const WIDE: &str = "D1A5B8*?K'L2D1A5B8*?K'L2D1A5B8*?K'L2D1A5B8*?K'L2D1A5B8*?K'L2D1A5B8*?K'L2D1A5B8*?D1A5B8*?K'L2D1A5B8*?\n";
pub fn gen_script(g: &mut Gen) -> String {
    let mut secs: Vec<String> = vec![];
    let noise = |g: &mut Gen, s: &mut String| {
        if g.chance(1, 7) {
            s.push('\n');
        }
        if g.chance(1, 10) {
            *s += *g.pick(&["; note\n", "; Style of Alt\n", ";Title of it\n"]);
        }
    };
    let mut s = String::from("[Script Info]\n");
    let mut keys: Vec<&str> = KEYS.to_vec();
    for _ in 0..g.below(6) {
        let i = g.idx(keys.len());
        let k = keys.swap_remove(i);
        s += &format!("{k}:{}{}\n", if g.chance(1, 6) { "" } else { " " }, g.pick(VALUES));
        noise(g, &mut s);
    }
    secs.push(s);
    if g.chance(7, 8) {
        let mut s = format!("[V4+ Styles]\n{}\n", script::ST_FORMAT);
        let mut names: Vec<&str> = STYLES.to_vec();
        for _ in 0..g.range(1, 5) {
            let i = g.idx(names.len());
            s += &script::style_line(g, names.swap_remove(i));
            s.push('\n');
            noise(g, &mut s);
        }
        secs.push(s);
    }
    let mut media = vec![];
    for (h, k) in [("[Fonts]", "fontname"), ("[Graphics]", "filename")] {
        if g.chance(1, 4) {
            let mut s = format!("{h}\n");
            for f in 0..g.range(1, 3) {
                s += &format!("{k}: {}\n", FILES[(f * 2 + g.below(2)) as usize % FILES.len()]);
                for _ in 0..g.range(1, 3) {
                    s += *g.pick(&["ABCDEFGH\n", "$%&'()*+\n", "0000\n", "M!!!!\n", LONG, WIDE]);
                }
                if g.bool() {
                    s.push('\n');
                }
            }
            media.push(s);
        }
    }
    let mut s = format!("[Events]\n{}\n", script::EV_FORMAT);
    let mut last = String::new();
    for _ in 0..g.below(8) {
        let l = if !last.is_empty() && g.chance(1, 4) { last.clone() } else { event(g) };
        s += &l;
        s.push('\n');
        last = l;
        noise(g, &mut s);
    }
    if g.chance(1, 2) {
        secs.extend(media.drain(..));
    }
    secs.push(s);
    secs.extend(media);
    let gap = g.chance(4, 5);
    let mut t = secs.join(if gap { "\n" } else { "" });
    if g.chance(1, 5) {
        while t.ends_with('\n') && !t.trim_end().ends_with("Effect, Text") {
            t.pop();
        }
    }
    t
}

const OPS: &[(&str, u64)] = &[
    ("delete", 6), ("batch_delete", 5), ("toggle", 5), ("timing", 6), ("effect", 6), ("split", 6), ("merge", 6), ("by_index", 7), ("by_builder", 7), ("add_event_line", 3), ("delete_query", 4), ("apply_style", 5),
    ("style_create", 4), ("style_edit", 6), ("style_delete", 4), ("style_clone", 5), ("edit_style_line", 3), ("add_style_line", 2),
    ("info_set", 7), ("info_delete", 4), ("api_info_set", 4), ("resolution", 3), ("font_add", 3), ("font_remove", 3), ("font_clear", 1), ("gfx_add", 3), ("gfx_remove", 3), ("gfx_clear", 1),
    ("query", 10), ("undo", 5), ("redo", 3), ("batch", 8),
];
pub fn gen_op(g: &mut Gen) -> Op {
    let w: Vec<u64> = OPS.iter().map(|x| x.1).collect();
    let op = OPS[g.weighted(&w)].0;
    let (s, s2) = match op {
        "style_create" | "style_edit" | "style_delete" | "edit_style_line" | "add_style_line" | "style_clone" | "apply_style" => (g.pick(STYLES).to_string(), g.pick(STYLES).to_string()),
        "info_set" | "info_delete" | "api_info_set" => (g.pick(KEYS).to_string(), g.pick(VALUES).to_string()),
        "font_add" | "font_remove" | "gfx_add" | "gfx_remove" => (g.pick(FILES).to_string(), String::new()),
        "effect" => (g.pick(&["Karaoke", "Banner;5", "fx", "Über"]).to_string(), String::new()),
        "add_event_line" => (event(g), String::new()),
        "merge" => (g.pick(&[" ", "\\N", "", " / ", ", "]).to_string(), String::new()),
        _ => (g.pick(TEXTS).to_string(), g.pick(STYLES).to_string()),
    };
    let idx = (0..g.below(4)).map(|_| g.below(9) as u32).collect();
    Op { op: op.into(), a: g.u64() as u32, b: g.u64() as u32, c: g.u64() as u32, s, s2, idx }
}

/// What an operation must do: the models it may leave behind, or an error that leaves all as it was.
enum Want {
    Same,
    /// nothing changes, reported as success or as failure
    Quiet,
    Is(Model),
    /// one entry may be inserted anywhere in a list
    AddedStyle(Vec<String>),
    AddedEvent(Ev),
    AddedInfo(String, String),
    AddedFile(bool, String, Option<Vec<String>>),
    Err,
}
fn sel(o: &Op, m: &Model, i: usize) -> bool {
    let _ = m;
    o.idx.is_empty() || o.idx.contains(&(i as u32))
}
fn set_info(m: &Model, k: &str, v: &str) -> Want {
    let mut n = m.clone();
    match n.info.iter_mut().find(|x| x.0 == k) {
        Some(x) => {
            x.1 = v.trim().into();
            Want::Is(n)
        }
        None => Want::AddedInfo(k.into(), v.trim().into()),
    }
}
fn off(o: &Op) -> (i32, i32) {
    let pick = |x: u32| match x % 8 {
        0 => i32::MAX,
        1 => i32::MIN,
        2 => -(x as i32 % 4000),
        _ => x as i32 % 1000,
    };
    match o.c % 4 {
        0 => (pick(o.a), pick(o.b)),
        1 => (pick(o.a), pick(o.a)),
        2 => ((o.a % 600) as i32 - 300, (o.b % 600) as i32 - 300),
        _ => (0, (o.b % 600) as i32 - 300),
    }
}
fn want(o: &Op, m: &Model) -> Want {
    let mut n = m.clone();
    let ne = m.events.len();
    let i = o.a as usize % (ne + 1);
    match o.op.as_str() {
        "delete" => {
            if i >= ne {
                return Want::Err;
            }
            n.events.remove(i);
        }
        "batch_delete" => {
            let mut k = 0;
            n.events.retain(|_| {
                k += 1;
                !o.idx.contains(&(k - 1))
            });
        }
        "delete_query" => {
            let low = o.s.to_lowercase();
            let st = o.s2.to_lowercase();
            n.events.retain(|e| match o.c % 5 {
                0 => e.kind != "Dialogue",
                1 => e.kind != "Comment",
                2 => !e.f[1].to_lowercase().contains(&st),
                3 => !e.f[7].to_lowercase().contains(&low),
                _ => {
                    let (a, b) = (o.a % 600, o.a % 600 + o.b % 400);
                    !(e.start >= a && e.end <= b)
                }
            });
        }
        "toggle" => n.events.iter_mut().enumerate().filter(|(i, _)| sel(o, m, *i)).for_each(|(_, e)| {
            // the other kinds have no counterpart
            e.kind = match e.kind.as_str() {
                "Dialogue" => "Comment".into(),
                "Comment" => "Dialogue".into(),
                k => k.into(),
            }
        }),
        "timing" => {
            let (a, b) = off(o);
            for (i, e) in n.events.iter_mut().enumerate() {
                if sel(o, m, i) {
                    let s = (e.start as i64 + a as i64).max(0).min(i32::MAX as i64) as u32;
                    let t = (e.end as i64 + b as i64).max(0).min(i32::MAX as i64) as u32;
                    e.start = s;
                    e.end = t.max(s + 1);
                }
            }
        }
        "effect" => {
            for (i, e) in n.events.iter_mut().enumerate() {
                if sel(o, m, i) {
                    let old = e.f[6].clone();
                    e.f[6] = match o.c % 4 {
                        0 => o.s.clone(),
                        1 => String::new(),
                        _ if old.is_empty() => o.s.clone(),
                        2 => format!("{old} {}", o.s),
                        _ => format!("{} {old}", o.s),
                    };
                }
            }
        }
        "split" => {
            if i >= ne {
                return Want::Err;
            }
            let t = split_at(o, m);
            let e = n.events[i].clone();
            if t <= e.start || t >= e.end {
                return Want::Err;
            }
            n.events[i].end = t;
            n.events.insert(i + 1, Ev { start: t, ..e });
        }
        "merge" => {
            let j = second(o, i);
            if j >= ne || j <= i {
                return Want::Err;
            }
            let b = n.events.remove(j);
            n.events[i].end = b.end;
            n.events[i].f[7] = format!("{}{}{}", n.events[i].f[7], o.s, b.f[7]).trim().to_string();
        }
        "by_index" | "by_builder" => {
            if i >= ne {
                return Want::Err;
            }
            let e = &mut n.events[i];
            match o.c % 4 {
                0 => e.f[7] = o.s.trim().into(),
                1 => e.f[1] = o.s2.clone(),
                2 => {
                    e.f[0] = (o.b % 9).to_string();
                    e.f[2] = "Ann".into();
                }
                _ => {
                    e.start = o.b % 500;
                    e.end = o.b % 500 + 77;
                    e.f[6] = "fx".into();
                }
            }
        }
        "add_event_line" => return Want::AddedEvent(ev(&o.s).unwrap()),
        "apply_style" => n.events.iter_mut().filter(|e| e.f[1] == o.s).for_each(|e| e.f[1] = o.s2.clone()),
        "style_create" | "add_style_line" => {
            if m.styles.iter().any(|s| s[0] == o.s) {
                return Want::Same;
            }
            return Want::AddedStyle(style(&new_style(o)).unwrap());
        }
        "style_edit" => match n.styles.iter_mut().find(|s| s[0] == o.s) {
            None => return Want::Err,
            Some(s) => {
                let (_, k) = ST_FIELDS[o.a as usize % ST_FIELDS.len()];
                s[k] = o.b.to_string();
                if o.c & 1 == 1 {
                    s[8] = "-1".into();
                }
            }
        },
        "style_delete" => match n.styles.iter().position(|s| s[0] == o.s) {
            None => return Want::Err,
            Some(k) => {
                n.styles.remove(k);
            }
        },
        "style_clone" => {
            if m.styles.iter().any(|s| s[0] == o.s2) {
                return Want::Err;
            }
            match m.styles.iter().find(|s| s[0] == o.s) {
                None => return Want::Err,
                Some(s) => {
                    let mut s = s.clone();
                    s[0] = o.s2.clone();
                    return Want::AddedStyle(s);
                }
            }
        }
        "edit_style_line" => match n.styles.iter_mut().find(|s| s[0] == o.s) {
            None => return Want::AddedStyle(style(&new_style(o)).unwrap()),
            Some(s) => *s = style(&new_style(o)).unwrap(),
        },
        "info_set" => return set_info(m, &o.s, &o.s2),
        "info_delete" => {
            if let Some(k) = n.info.iter().position(|x| x.0 == o.s) {
                n.info.remove(k);
            }
        }
        "api_info_set" => {
            // documented to change a field that exists
            if let Some(x) = n.info.iter_mut().find(|x| x.0 == o.s) {
                x.1 = o.s2.trim().into();
            }
        }
        "font_add" => return Want::AddedFile(true, o.s.clone(), if o.c & 1 == 0 { Some(DATA.iter().map(|x| x.to_string()).collect()) } else { None }),
        "gfx_add" => return Want::AddedFile(false, o.s.clone(), if o.c & 1 == 0 { Some(DATA.iter().map(|x| x.to_string()).collect()) } else { None }),
        "font_remove" | "gfx_remove" => {
            let l = if o.op == "font_remove" { &mut n.fonts } else { &mut n.graphics };
            match l.iter().position(|x| x.0 == o.s) {
                Some(k) => {
                    l.remove(k);
                }
                None => return Want::Quiet,
            }
        }
        "font_clear" => n.fonts.clear(),
        "gfx_clear" => n.graphics.clear(),
        x => panic!("no op {x}"),
    }
    Want::Is(n)
}
/// what is embedded: any length, often with few distinct bytes
fn bytes(o: &Op) -> Vec<u8> {
    let n = if o.a % 3 == 0 { o.b % 160 } else { [1, 2, 3, 4, 26, 27, 28, 45, 46, 48, 59, 72, 90][(o.b % 13) as usize] };
    let mut g = Gen::new(o.a as u64);
    (0..n).map(|_| if o.c & 2 == 0 { g.below(256) as u8 } else { *g.pick(&[0u8, 0, 1, 4, 255, 113]) }).collect()
}
const DATA: &[&str] = &["ABCDEFGH", "IJKL"];
fn new_style(o: &Op) -> String {
    if o.op == "style_create" {
        let mut b = StyleBuilder::default_style().name(&o.s).size(o.b % 90 + 1);
        if o.c & 1 == 1 {
            b = b.bold(true);
        }
        return b.build().unwrap();
    }
    format!("Style: {},Arial,{},&H00FFFFFF,&H000000FF,&H00000000,&H00000000,0,0,0,0,100,100,0,0,1,2,0,2,10,10,10,1", o.s, o.b % 90 + 1)
}
fn split_at(o: &Op, m: &Model) -> u32 {
    match m.events.get(o.a as usize % (m.events.len() + 1)) {
        Some(e) if o.c % 8 != 0 => e.start.saturating_add(o.b % e.end.saturating_sub(e.start).saturating_add(2)).saturating_sub(if o.c % 8 == 1 { 1 } else { 0 }),
        _ => o.b % 1000,
    }
}

fn u<T>(r: Result<T, EditorError>) -> Result<(), EditorError> {
    r.map(|_| ())
}
fn idx(o: &Op) -> Vec<usize> {
    o.idx.iter().map(|x| *x as usize).collect()
}
/// The command object for an operation, when it has one.
fn command(o: &Op, m: &Model) -> Option<Box<dyn EditorCommand>> {
    let i = o.a as usize % (m.events.len() + 1);
    Some(match o.op.as_str() {
        "delete" => Box::new(DeleteEventCommand::new(i)),
        "batch_delete" => Box::new(BatchDeleteEventsCommand::new(idx(o))),
        "toggle" => Box::new(ToggleEventTypeCommand::new(idx(o))),
        "timing" => {
            let (a, b) = off(o);
            Box::new(TimingAdjustCommand::new(idx(o), a, b))
        }
        "effect" => Box::new(match o.c % 4 {
            0 => EventEffectCommand::set_effect(idx(o), o.s.clone()),
            1 => EventEffectCommand::clear_effect(idx(o)),
            2 => EventEffectCommand::append_effect(idx(o), o.s.clone()),
            _ => EventEffectCommand::new(idx(o), o.s.clone(), EffectOperation::Prepend),
        }),
        "split" => Box::new(SplitEventCommand::new(i, fmt(split_at(o, m)))),
        "merge" => Box::new(MergeEventsCommand::new(i, second(o, i)).with_separator(o.s.clone())),
        "apply_style" => Box::new(ApplyStyleCommand::new(o.s.clone(), o.s2.clone())),
        "style_create" => {
            let mut b = StyleBuilder::default_style().size(o.b % 90 + 1);
            if o.c & 1 == 1 {
                b = b.bold(true);
            }
            Box::new(CreateStyleCommand::new(o.s.clone(), b))
        }
        "style_edit" => {
            let mut c = EditStyleCommand::new(o.s.clone()).set_field(ST_FIELDS[o.a as usize % ST_FIELDS.len()].0, o.b.to_string());
            if o.c & 1 == 1 {
                c = c.set_italic(true);
            }
            Box::new(c)
        }
        "style_delete" => Box::new(DeleteStyleCommand::new(o.s.clone())),
        "style_clone" => Box::new(CloneStyleCommand::new(o.s.clone(), o.s2.clone())),
        "info_set" => Box::new(SetScriptInfoCommand::new(o.s.clone(), o.s2.clone())),
        "info_delete" => Box::new(DeleteScriptInfoCommand::new(o.s.clone())),
        "font_add" if o.c & 1 == 0 => Box::new(AddFontCommand::new(o.s.clone(), DATA.iter().map(|x| x.to_string()).collect())),
        "gfx_add" if o.c & 1 == 0 => Box::new(AddGraphicCommand::new(o.s.clone(), DATA.iter().map(|x| x.to_string()).collect())),
        "font_add" => Box::new(AddFontCommand::from_binary(o.s.clone(), &bytes(o))),
        "gfx_add" => Box::new(AddGraphicCommand::from_binary(o.s.clone(), &bytes(o))),
        "font_remove" => Box::new(RemoveFontCommand::new(o.s.clone())),
        "gfx_remove" => Box::new(RemoveGraphicCommand::new(o.s.clone())),
        "font_clear" => Box::new(ClearFontsCommand::new()),
        "gfx_clear" => Box::new(ClearGraphicsCommand::new()),
        _ => return None,
    })
}
pub fn exec(d: &mut EditorDocument, o: &Op, m: &Model) -> Result<(), EditorError> {
    exec_told(d, o, m, &mut None)
}
/// Executes an operation; `said` gets what a command reports about it.
fn exec_told(d: &mut EditorDocument, o: &Op, m: &Model, said: &mut Option<CommandResult>) -> Result<(), EditorError> {
    let i = o.a as usize % (m.events.len() + 1);
    if o.c >> 8 & 1 == 0 {
        if let Some(c) = command(o, m) {
            return match d.execute_command(c.as_ref()) {
                Ok(r) if !r.success => Err(EditorError::CommandFailed { message: "reported failure".into() }),
                Ok(r) => {
                    *said = Some(r);
                    Ok(())
                }
                x => u(x),
            };
        }
    }
    match o.op.as_str() {
        "delete" => u(d.events().delete(i)),
        "batch_delete" => u(d.events().delete_multiple(idx(o))),
        "delete_query" => {
            let q = d.events().delete_query();
            match o.c % 5 {
                0 => u(q.dialogues()),
                1 => u(q.comments()),
                2 => u(q.with_style(&o.s2)),
                3 => u(q.containing(&o.s)),
                _ => u(q.in_time_range(o.a % 600, o.a % 600 + o.b % 400)),
            }
        }
        "toggle" => u(d.events().toggle_type().events(idx(o)).apply()),
        "timing" => {
            let (a, b) = off(o);
            let t = d.events().timing().events(idx(o));
            u(if a == b { t.shift(a) } else if a == 0 { t.shift_end(b) } else if b == 0 { t.shift_start(a) } else { t.adjust(a, b) })
        }
        "effect" => {
            let e = d.events().effects().events(idx(o));
            u(match o.c % 4 {
                0 => e.set(&o.s),
                1 => e.clear(),
                2 => e.append(&o.s),
                _ => e.prepend(&o.s),
            })
        }
        "split" => u(d.events().split(i, &fmt(split_at(o, m)))),
        "merge" => u(d.events().merge(i, second(o, i)).with_separator(&o.s).apply()),
        "by_index" => {
            let o = o.clone();
            u(d.edit_event_by_index(i, move |_| match o.c % 4 {
                0 => vec![("text", o.s)],
                1 => vec![("style", o.s2)],
                2 => vec![("layer", (o.b % 9).to_string()), ("name", "Ann".into())],
                _ => vec![("start", fmt(o.b % 500)), ("end", fmt(o.b % 500 + 77)), ("effect", "fx".into())],
            }))
        }
        "by_builder" => {
            let o = o.clone();
            u(d.edit_event_with_builder(i, move |b: EventBuilder| match o.c % 4 {
                0 => b.text(o.s.clone()),
                1 => b.style(o.s2.clone()),
                2 => b.layer(o.b % 9).speaker("Ann"),
                _ => b.start_time(fmt(o.b % 500)).end_time(fmt(o.b % 500 + 77)).effect("fx"),
            }))
        }
        "add_event_line" => d.add_event_line(&o.s),
        "apply_style" => u(d.styles().apply(&o.s, &o.s2).apply()),
        "style_create" => {
            let mut b = StyleBuilder::default_style().size(o.b % 90 + 1);
            if o.c & 1 == 1 {
                b = b.bold(true);
            }
            u(d.styles().create(&o.s, b))
        }
        "style_edit" => {
            let mut e = d.styles().edit(&o.s).field(ST_FIELDS[o.a as usize % ST_FIELDS.len()].0, &o.b.to_string());
            if o.c & 1 == 1 {
                e = e.italic(true);
            }
            u(e.apply())
        }
        "style_delete" => u(d.styles().delete(&o.s)),
        "style_clone" => u(d.styles().clone(&o.s, &o.s2)),
        "edit_style_line" => d.edit_style_line(&o.s, &new_style(o)),
        "add_style_line" => d.add_style_line(&new_style(o)),
        "info_set" => u(d.info().set(&o.s, &o.s2)),
        "info_delete" => u(d.info().delete(&o.s)),
        "api_info_set" => d.set_script_info_field(&o.s, &o.s2),
        "font_add" if o.c & 1 == 0 => u(d.fonts().add(&o.s, DATA.iter().map(|x| x.to_string()).collect())),
        "font_add" => u(d.fonts().add_binary(&o.s, &bytes(o))),
        "gfx_add" if o.c & 1 == 0 => u(d.graphics().add(&o.s, DATA.iter().map(|x| x.to_string()).collect())),
        "gfx_add" => u(d.graphics().add_binary(&o.s, &bytes(o))),
        "font_remove" => u(d.fonts().remove(&o.s)),
        "gfx_remove" => u(d.graphics().remove(&o.s)),
        "font_clear" => u(d.fonts().clear()),
        "gfx_clear" => u(d.graphics().clear()),
        x => panic!("no op {x}"),
    }
}

/// `got` is `m` with exactly one entry `x` more in the chosen list.
fn plus_one<T: PartialEq + Clone>(old: &[T], got: &[T], x: &T) -> bool {
    got.len() == old.len() + 1 && (0..got.len()).any(|k| got[k] == *x && [&got[..k], &got[k + 1..]].concat() == old)
}
fn headers_ok(m: &Model, got: &Model, h: &str) -> bool {
    m.headers == got.headers || (!m.headers.iter().any(|x| x == h) && plus_one(&m.headers, &got.headers, &h.to_string()))
}
/// Format lines that come with a new section.
fn other_ok(m: &Model, got: &Model) -> bool {
    m.other == got.other || (got.headers.len() > m.headers.len() && got.other.len() == m.other.len() + 1)
}
fn agrees(w: &Want, m: &Model, got: &Model) -> bool {
    let rest = |a: &Model, b: &Model| a.comments == b.comments && other_ok(a, b);
    match w {
        Want::Same | Want::Err | Want::Quiet => got == m,
        Want::Is(n) => got == n,
        Want::AddedEvent(e) => plus_one(&m.events, &got.events, e) && (&m.info, &m.styles, &m.fonts, &m.graphics) == (&got.info, &got.styles, &got.fonts, &got.graphics) && rest(m, got) && headers_ok(m, got, "[Events]"),
        Want::AddedStyle(s) => plus_one(&m.styles, &got.styles, s) && (&m.info, &m.events, &m.fonts, &m.graphics) == (&got.info, &got.events, &got.fonts, &got.graphics) && rest(m, got) && headers_ok(m, got, "[V4+ Styles]"),
        Want::AddedInfo(k, v) => plus_one(&m.info, &got.info, &(k.clone(), v.clone())) && (&m.styles, &m.events, &m.fonts, &m.graphics) == (&got.styles, &got.events, &got.fonts, &got.graphics) && rest(m, got) && m.headers == got.headers,
        Want::AddedFile(font, name, data) => {
            let (a, b, h) = if *font { (&m.fonts, &got.fonts, "[Fonts]") } else { (&m.graphics, &got.graphics, "[Graphics]") };
            let added = got_added(a, b).filter(|x| x.0 == *name && data.as_ref().map_or(!x.1.is_empty(), |d| x.1 == *d));
            let same = if *font { m.graphics == got.graphics } else { m.fonts == got.fonts };
            added.is_some() && same && (&m.styles, &m.events, &m.info) == (&got.styles, &got.events, &got.info) && rest(m, got) && headers_ok(m, got, h)
        }
    }
}
fn got_added<T: PartialEq + Clone>(old: &[T], got: &[T]) -> Option<T> {
    (0..got.len()).find(|k| [&got[..*k], &got[*k + 1..]].concat() == old).map(|k| got[k].clone())
}
/// The model reading of the text and the library's own reading agree.
fn cross(d: &EditorDocument, m: &Model, cx: &'static Cx, ctx: &str) {
    let r = d.parse_script_with(|s| {
        use ass_core::parser::ast::Section;
        let mut events = vec![];
        let mut styles = vec![];
        let mut info = vec![];
        let (mut fonts, mut graphics) = (vec![], vec![]);
        for x in s.sections() {
            match x {
                Section::Events(v) => events.extend(v.iter().map(|e| (e.event_type.as_str().to_string(), cs(e.start), cs(e.end), [e.layer, e.style, e.name, e.margin_l, e.margin_r, e.margin_v, e.effect, e.text].map(String::from).to_vec()))),
                Section::Styles(v) => styles.extend(v.iter().map(|s| (s.name.to_string(), s.fontname.to_string(), s.fontsize.to_string(), s.encoding.to_string()))),
                Section::ScriptInfo(i) => info.extend(i.fields.iter().map(|(a, b)| (a.to_string(), b.to_string()))),
                Section::Fonts(v) => fonts.extend(v.iter().map(|f| (f.filename.to_string(), f.data_lines.iter().map(|x| x.trim().to_string()).collect::<Vec<_>>()))),
                Section::Graphics(v) => graphics.extend(v.iter().map(|f| (f.filename.to_string(), f.data_lines.iter().map(|x| x.trim().to_string()).collect::<Vec<_>>()))),
            }
        }
        (events, styles, info, fonts, graphics)
    });
    match r {
        Err(e) => cx.fail("unreadable-after-edit", &format!("{ctx}: {e}")),
        Ok((events, styles, info, fonts, graphics)) => {
            let we: Vec<_> = m.events.iter().map(|e| (e.kind.clone(), Some(e.start), Some(e.end), e.f.clone())).collect();
            cx.check(events == we, "events-read-wrong", || format!("{ctx}: library reads {events:?}, the text says {we:?}"));
            let ws: Vec<_> = m.styles.iter().filter(|s| s.len() == 23).map(|s| (s[0].clone(), s[1].clone(), s[2].clone(), s[22].clone())).collect();
            cx.check(styles == ws, "styles-read-wrong", || format!("{ctx}: library reads {styles:?}, the text says {ws:?}"));
            cx.check(info == m.info, "info-read-wrong", || format!("{ctx}: library reads {info:?}, the text says {:?}", m.info));
            cx.check(fonts == m.fonts && graphics == m.graphics, "files-read-wrong", || format!("{ctx}: library reads {fonts:?} and {graphics:?}, the text says {:?} and {:?}", m.fonts, m.graphics));
        }
    }
}
/// the event that is merged into event `i`
fn second(o: &Op, i: usize) -> usize {
    (i + [1, 1, 1, 2, 3, 0][o.b as usize % 6]).saturating_sub((o.b % 31 == 30) as usize)
}
fn query(d: &mut EditorDocument, o: &Op, m: &Model, cx: &'static Cx) {
    let e = |x: EditorError| format!("{x}");
    let all: Vec<usize> = (0..m.events.len()).collect();
    let by = |f: &dyn Fn(&Ev) -> bool| -> Vec<usize> { all.iter().copied().filter(|i| f(&m.events[*i])).collect() };
    let low = o.s.to_lowercase();
    let st = o.s2.to_lowercase();
    let (a, b) = (o.a % 600, o.a % 600 + o.b % 400);
    let (got, want): (Result<Vec<usize>, String>, Vec<usize>) = match o.c % 12 {
        0 => (d.events().dialogues().indices().map_err(e), by(&|x| x.kind == "Dialogue")),
        1 => (d.events().comments().indices().map_err(e), by(&|x| x.kind == "Comment")),
        2 => (d.events().with_style(&o.s2).indices().map_err(e), by(&|x| x.f[1].to_lowercase().contains(&st))),
        3 => (d.events().containing(&o.s).indices().map_err(e), by(&|x| x.f[7].to_lowercase().contains(&low))),
        4 => (d.events().containing(&o.s).case_sensitive(true).indices().map_err(e), by(&|x| x.f[7].contains(&o.s))),
        5 => (d.events().in_time_range(a, b).indices().map_err(e), by(&|x| x.start >= a && x.end <= b)),
        6 => {
            let mut w = all.clone();
            w.sort_by_key(|i| m.events[*i].start);
            (d.events().by_time().indices().map_err(e), w)
        }
        7 => {
            let mut w = all.clone();
            w.sort_by_key(|i| (m.events[*i].f[1].clone(), m.events[*i].end));
            (d.events().query().sort(EventSortCriteria::Style).then_by(EventSortCriteria::EndTime).indices().map_err(e), w)
        }
        8 => {
            let mut w = all.clone();
            w.truncate(o.b as usize % 4);
            (d.events().in_order().limit(o.b as usize % 4).indices().map_err(e), w)
        }
        9 => (d.events().query().filter_by_layer(o.b % 3).filter_by_effect("ara").indices().map_err(e), by(&|x| x.f[0] == (o.b % 3).to_string() && x.f[6].to_lowercase().contains("ara"))),
        10 => {
            let i = o.a as usize % (m.events.len() + 1);
            let t = d.events().event(i).text().map_err(e);
            let w = m.events.get(i).map(|x| x.f[7].clone());
            cx.check(t == Ok(w.clone()), "read-wrong", || format!("text of event {i}: {t:?}, not {w:?}"));
            let n = d.events_count().map_err(e);
            (n.map(|n| vec![n]), vec![m.events.len()])
        }
        _ => {
            let k = KEYS[o.a as usize % KEYS.len()];
            let w = m.info.iter().find(|x| x.0 == k).map(|x| x.1.clone());
            let has = d.text().contains("[Script Info]");
            if has {
                let g = d.info().get(k).map_err(e);
                cx.check(g == Ok(w.clone()), "read-wrong", || format!("info {k}: {g:?}, not {w:?}"));
                let all = d.info().all().map_err(e);
                cx.check(all == Ok(m.info.clone()), "read-wrong", || format!("all info: {all:?}, not {:?}", m.info));
            }
            let g = d.get_script_info_field(k).map_err(e);
            cx.check(g == Ok(w.clone()), "read-wrong", || format!("get_script_info_field {k}: {g:?}, not {w:?}"));
            let f = d.fonts().list().map_err(e);
            let wf: Vec<String> = m.fonts.iter().map(|x| x.0.clone()).collect();
            cx.check(f == Ok(wf.clone()), "read-wrong", || format!("fonts: {f:?}, not {wf:?}"));
            let f = d.graphics().list().map_err(e);
            let wf: Vec<String> = m.graphics.iter().map(|x| x.0.clone()).collect();
            cx.check(f == Ok(wf.clone()), "read-wrong", || format!("graphics: {f:?}, not {wf:?}"));
            (Ok(vec![]), vec![])
        }
    };
    cx.check(got.as_ref().ok() == Some(&want), "query-wrong", || format!("query {} {:?}/{:?}: {got:?}, expected {want:?}", o.c % 12, o.s, o.s2));
}

static GAVE: AtomicBool = AtomicBool::new(false);
/// Panics are reported by the caller of `catch` as a violation of their own.
fn guard<R>(cx: &'static Cx, what: &str, f: impl FnOnce() -> R) -> R {
    match cx.catch(f) {
        Ok(r) => r,
        Err(p) => cx.fail("panic", format!("{what} panicked: {p}")),
    }
}
#[derive(Debug)]
struct GiveUp;
impl EditorCommand for GiveUp {
    fn execute(&self, _d: &mut EditorDocument) -> ass_editor::Result<CommandResult> {
        let f = rt::fault(rt::F_CB_ERR, 2);
        GAVE.store(f > 0 || GAVE.load(Ordering::Relaxed), Ordering::Relaxed);
        match f {
            0 => Ok(CommandResult::success()),
            1 => Err(EditorError::CommandFailed { message: "injected".into() }),
            _ => Ok(CommandResult::failure("injected".into())),
        }
    }
    fn description(&self) -> &str {
        "may give up"
    }
}

pub struct Structured;
impl Scenario for Structured {
    type Plan = Plan;
    fn name(&self) -> &'static str {
        "structured-edits"
    }
    fn gen(&self, g: &mut Gen) -> Plan {
        let text = gen_script(g);
        let n = g.range(1, 24);
        let ops = (0..n).map(|_| gen_op(g)).collect();
        Plan { text, ops }
    }
    fn tune(&self, _p: &Plan, g: &mut Gen, cfg: &mut Config) {
        cfg.p_fault[rt::F_CB_ERR as usize] = *g.pick(&[0, 8000, 30000]);
    }
    fn run(&self, plan: &'static Plan, cx: &'static Cx) {
        let mut d = EditorDocument::from_content(&plan.text).unwrap();
        // texts to go back to; None: a step that changed nothing and need not
        // have been recorded
        let mut undo: Vec<Option<String>> = vec![];
        let mut redo: Vec<Option<String>> = vec![];
        let mut maybe_cleared = false;
        let mut m = parse(&plan.text);
        cross(&d, &m, cx, "initial text");
        for (k, o) in plan.ops.iter().enumerate() {
            cx.log(format!("{k}: {} a={} b={} c={} {:?} {:?} {:?}", o.op, o.a, o.b, o.c, o.s, o.s2, o.idx));
            let before = d.text();
            match o.op.as_str() {
                "query" => {
                    query(&mut d, o, &m, cx);
                    cx.check(d.text() == before, "query-changed-text", || "a query changed the text".into());
                    continue;
                }
                "undo" | "redo" => {
                    let r = if o.op == "undo" { d.undo() } else { d.redo() };
                    let (from, to) = if o.op == "undo" { (&mut undo, &mut redo) } else { (&mut redo, &mut undo) };
                    let after = d.text();
                    if r.is_err() {
                        let dropped = o.op == "redo" && maybe_cleared;
                        cx.check(dropped || from.iter().all(|x| x.is_none()), "undo-wrong", || format!("{} refused: {:?}, with a change to take back", o.op, r.map(|_| ())));
                        cx.check(after == before, "undo-wrong", || format!("a refused {} changed the text", o.op));
                        from.clear();
                    } else {
                        if after == before && matches!(from.last(), Some(None)) {
                            to.push(from.pop().unwrap());
                            continue;
                        }
                        while let Some(None) = from.last() {
                            from.pop();
                        }
                        match from.pop() {
                            Some(Some(x)) => {
                                cx.check(after == x, "undo-wrong", || format!("{} left\n{after:?}\nnot\n{x:?}", o.op));
                                to.push(Some(before));
                                m = parse(&x);
                            }
                            _ => cx.fail("undo-wrong", &format!("{} succeeded with nothing to take back", o.op)),
                        }
                        if o.op == "redo" {
                            maybe_cleared = false;
                        }
                    }
                    cross(&d, &m, cx, &o.op);
                    continue;
                }
                "batch" => {
                    // two or three commands and one that may give up, in one batch
                    let mut b = BatchCommand::new("batch".into());
                    let mut n = m.clone();
                    let mut err = false;
                    let subs: Vec<Op> = plan.ops.iter().cycle().skip(k + 1).take(8).filter(|x| command(x, &m).is_some() && !matches!(x.op.as_str(), "batch" | "style_create" | "font_add" | "gfx_add" | "style_clone" | "info_set")).take(3).cloned().collect();
                    for (j, s) in subs.iter().enumerate() {
                        if j == o.a as usize % 3 {
                            b = b.add_command(Box::new(GiveUp));
                        }
                        b = b.add_command(command(s, &n).unwrap());
                        match want(s, &n) {
                            Want::Is(x) => n = x,
                            Want::Same => {}
                            Want::Quiet if n.headers.iter().any(|h| h == if s.op == "font_remove" { "[Fonts]" } else { "[Graphics]" }) => {}
                            _ => {
                                err = true;
                                break;
                            }
                        }
                    }
                    b = b.add_command(Box::new(GiveUp));
                    GAVE.store(false, Ordering::Relaxed);
                    let r = guard(cx, "batch", || d.execute_command(&b));
                    let ok = matches!(&r, Ok(x) if x.success);
                    let got = parse(&d.text());
                    if ok {
                        cx.check(!err && !GAVE.load(Ordering::Relaxed), "failed-batch-reported-success", || format!("{:?}", subs.iter().map(|s| &s.op).collect::<Vec<_>>()));
                        cx.check(got == n, "batch-wrong", || format!("batch {:?} left\n{got:?}\nnot\n{n:?}", subs));
                        m = n;
                        note(&d, before, &mut undo, &mut redo, &mut maybe_cleared);
                    } else {
                        cx.check(err || GAVE.load(Ordering::Relaxed), "batch-failed", || format!("batch of good commands failed: {:?}: {:?}", r.map(|_| ()), subs));
                        cx.check(d.text() == before, "failed-batch-changed-text", || format!("{before:?} became {:?}", d.text()));
                    }
                    continue;
                }
                "resolution" => {
                    let (w, h) = (o.a % 4000, o.b % 3000);
                    let r = guard(cx, "resolution", || u(d.info().resolution(w, h)));
                    let got = parse(&d.text());
                    cx.check(r.is_ok(), "refused", || format!("resolution: {r:?}"));
                    let read = |m: &Model, k: &str| m.info.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect::<Vec<_>>();
                    cx.check(read(&got, "PlayResX") == [w.to_string()] && read(&got, "PlayResY") == [h.to_string()], "info-wrong", || format!("resolution {w}x{h} left {:?}", got.info));
                    let strip = |m: &Model| m.info.iter().filter(|x| !x.0.starts_with("PlayRes")).cloned().collect::<Vec<_>>();
                    let mut n = m.clone();
                    n.info = got.info.clone();
                    cx.check(strip(&got) == strip(&m) && n == got, "changed-more", || format!("resolution changed {m:?} into {got:?}"));
                    m = got;
                    note(&d, before, &mut undo, &mut redo, &mut maybe_cleared);
                    cross(&d, &m, cx, "resolution");
                    continue;
                }
                _ => {}
            }
            let w = want(o, &m);
            if matches!(w, Want::Same) {
                continue;
            }
            let mut said = None;
            let r = guard(cx, &o.op, || exec_told(&mut d, o, &m, &mut said));
            let got = parse(&d.text());
            if let Some(Err(e)) = said.map(|r| super::inline::told(&r, &before, &d.text(), false)) {
                cx.fail(format!("told-wrong:{}", o.op), format!("{} ({:?}, {:?}, {:?}): {e}\n{before:?}\n{:?}", o.op, o.s, o.s2, o.idx, d.text()));
            }
            match &w {
                Want::Err => {
                    cx.check(r.is_err(), "accepted", || format!("{} of something that is not there was accepted: {:?} became {:?}", o.op, before, d.text()));
                    cx.check(d.text() == before, "failed-changed-text", || format!("{}: {before:?} became {:?}", o.op, d.text()));
                }
                _ => {
                    cx.check(r.is_ok() || matches!(w, Want::Quiet), "refused", || format!("{}: {r:?} on {before:?}", o.op));
                    cx.check(agrees(&w, &m, &got), "changed-wrong", || {
                        let n = if let Want::Is(n) = &w { format!("{n:?}") } else { String::new() };
                        format!("{} ({:?}, {:?}, {:?}, a={} b={} c={}):\n{before}\n-----\n{}\nmodel wants {n}\ngot {got:?}", o.op, o.s, o.s2, o.idx, o.a, o.b, o.c, d.text())
                    });
                }
            }
            if r.is_ok() && o.c & 1 == 1 && matches!(o.op.as_str(), "font_add" | "gfx_add") && !bytes(o).is_empty() {
                // read back as it was embedded
                let back = d.parse_script_with(|s| {
                    use ass_core::parser::ast::Section;
                    let mut v: Vec<(String, Option<Vec<u8>>)> = vec![];
                    for x in s.sections() {
                        match x {
                            Section::Fonts(l) if o.op == "font_add" => v.extend(l.iter().map(|f| (f.filename.to_string(), f.decode_data().ok()))),
                            Section::Graphics(l) if o.op == "gfx_add" => v.extend(l.iter().map(|f| (f.filename.to_string(), f.decode_data().ok()))),
                            _ => {}
                        }
                    }
                    v
                });
                let want = (o.s.clone(), Some(bytes(o)));
                cx.check(back.as_ref().is_ok_and(|v| v.contains(&want)), "embedded-data", || format!("{} of {want:?} reads back as {back:?} from {:?}", o.op, d.text()));
                cx.probe("embedded_read_back");
            }
            if d.text() != before {
                cx.nontrivial();
            }
            m = got;
            if r.is_ok() {
                note(&d, before, &mut undo, &mut redo, &mut maybe_cleared);
            }
            cross(&d, &m, cx, &o.op);
        }
    }
}
/// After a successful operation: one step to take back if the text changed.
fn note(d: &EditorDocument, before: String, undo: &mut Vec<Option<String>>, redo: &mut Vec<Option<String>>, maybe_cleared: &mut bool) {
    if d.text() != before {
        undo.push(Some(before));
        redo.clear();
        *maybe_cleared = false;
    } else {
        undo.push(None);
        *maybe_cleared = true;
    }
}
pub fn check() -> Check {
    Check { id: "C14", real: "EditorDocument, all structured commands, fluent API, queries, ass-core parser", stub: "callers (generated)", rule: "at least one operation changed the script", parts: vec![part(Structured, 60_000, 3_000_000)] }
}
