//! Edits inside the text (plain text, selections, override tags, karaoke) against a small
//! reference reading of override blocks: only what was addressed changes, byte for byte.
use super::script;
use crate::engine::{part, Check, Cx, Scenario};
use crate::gen::Gen;
use crate::rt::{self, Config};
use ass_editor::commands::*;
use ass_editor::core::errors::EditorError;
use ass_editor::{EditorDocument, Position, PositionBuilder, Range};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, Ordering};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub op: String,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub s: String,
    pub s2: String,
    pub v: Vec<u32>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub text: String,
    pub ops: Vec<Op>,
}

const NAMES: &[&str] = &[
    "b", "i", "u", "s", "bord", "be", "blur", "shad", "fn", "fs", "fscx", "fscy", "fsp", "frz", "frx", "fry", "fr", "fe", "c", "1c", "2c", "3c", "4c", "alpha", "1a", "2a", "3a", "4a", "an", "a", "k", "kf", "ko", "kt", "q", "r", "pos", "move",
    "org", "fad", "fade", "t", "clip", "iclip", "p", "pbo", "xbord", "yshad",
];
const TAGS: &[&str] = &[
    "\\b1", "\\b0", "\\b700", "\\i1", "\\i0", "\\u1", "\\s1", "\\bord2", "\\be1", "\\blur3.5", "\\shad1", "\\fnArial", "\\fnTimes New Roman", "\\fn微软雅黑", "\\fs20", "\\fs2", "\\fscx120", "\\frz-45", "\\c&H00FF00&", "\\1c&HFF&",
    "\\3c&H0000FF&", "\\alpha&H80&", "\\an8", "\\k20", "\\k200", "\\k2", "\\kf20", "\\ko5", "\\kt100", "\\k20", "\\k10", "\\k30", "\\r", "\\rAlt", "\\pos(100,200)", "\\pos( 1 , 2 )", "\\move(1,2,3,4)", "\\fad(100,200)", "\\t(0,500,\\fscx120\\b1)",
    "\\t(\\frz90)", "\\clip(0,0,10,10)", "\\iclip(m 0 0 l 10 10)", "\\p1", "\\pos()", "\\q2", "\\i", "\\c",
];
const VISIBLE: &[&str] = &["Hello", " world", "naïve", " café ", "日本語", "😀", "a  b", "one two  three", "\\N", "\\h", "x", ", y", "aeiou", " ", "   ", "ka", "ra", "Ω", "}", "'s", "é"];

fn block(g: &mut Gen) -> String {
    let mut s = "{".to_string();
    if g.chance(1, 8) {
        s += *g.pick(&["note", "ü", " ", "* "]);
    }
    for _ in 0..g.range(0, 4) {
        s += *g.pick(TAGS);
    }
    s + "}"
}
fn rich(g: &mut Gen) -> String {
    let mut s = String::new();
    for _ in 0..g.range(0, 7) {
        match g.below(7) {
            0 | 1 | 2 => s += &block(g),
            6 if g.chance(1, 6) => s += *g.pick(&["{", "{\\b1", "{\\k20 x", "{unfinished"]),
            _ => s += *g.pick(VISIBLE),
        }
    }
    s
}
fn gen_text(g: &mut Gen) -> String {
    let nl = if g.chance(1, 4) { "\r\n" } else { "\n" };
    let mut l: Vec<String> = vec![];
    if g.bool() {
        l.extend(["[Script Info]", "Title: inline", "", "[Events]", script::EV_FORMAT].map(String::from));
        for i in 0..g.range(1, 4) {
            l.push(format!("Dialogue: 0,0:00:0{i}.00,0:00:0{}.50,Default,,0,0,0,,{}", i + 1, rich(g)));
        }
    } else {
        for _ in 0..g.range(1, 5) {
            let ind = " ".repeat(*g.pick(&[0, 0, 1, 2, 4, 7]));
            l.push(format!("{ind}{}", rich(g)));
        }
        if g.chance(1, 6) {
            l.push(String::new());
        }
    }
    let mut t = l.join(nl);
    if g.bool() {
        t += nl;
    }
    t
}

const OPS: &[(&str, u64)] = &[
    ("insert", 3), ("delete", 3), ("replace", 3), ("tag_insert", 5), ("remove_all", 5), ("remove_pattern", 8), ("replace_tag", 8), ("wrap", 6), ("parse", 5), ("kar_gen", 7), ("kar_split", 5), ("kar_adjust", 9), ("kar_apply", 6),
    ("sel_replace", 2), ("sel_delete", 2), ("sel_wrap", 3), ("indent", 4), ("unindent", 4), ("at_insert", 2), ("at_line_break", 1), ("at_delete", 3), ("at_backspace", 3), ("to_line_end", 4), ("positions", 5), ("line_end", 3), ("batch", 6), ("undo", 4), ("redo", 2),
];
fn gen_op(g: &mut Gen) -> Op {
    let w: Vec<u64> = OPS.iter().map(|x| x.1).collect();
    let op = OPS[g.weighted(&w)].0;
    let pat = &["\\b", "b", "\\c", "\\k", "\\fs", "\\pos", "\\t", "\\i", "\\r", "\\fn", "\\1c", "\\zz", "\\bord", "\\kf"][..];
    let full = &["\\b1", "\\b", "\\i1", "\\k20", "\\k2", "\\fs2", "\\fs20", "\\c&H", "\\pos", "\\kf20", "\\an8", "\\zz"][..];
    let (s, s2) = match op {
        "tag_insert" => (g.pick(&["\\b1", " \\i1 ", "\\pos(1,2)", "b1", "", "{\\b1}", "\\fnÉ", "\\k20\\b1"]).to_string(), String::new()),
        "remove_pattern" => (g.pick(pat).to_string(), String::new()),
        "replace_tag" => (g.pick(full).to_string(), g.pick(&["\\b0", "\\i0", "", "\\b1\\i1", "\\k5", "\\fnÜ"]).to_string()),
        "wrap" => (g.pick(&["\\b1", "\\i1", "\\u1", "\\s1", "\\c&HFF&", "\\blur5", "\\bord3", "\\fs30", "\\iclip(0,0,1,1)", "\\shad2", "\\be1"]).to_string(), g.pick(&["", "", "\\r", "\\b0\\i0", "\\é"]).to_string()),
        "sel_wrap" => (g.pick(&["{\\b1}", "<", ""]).to_string(), g.pick(&["{\\b0}", ">", ""]).to_string()),
        _ => (g.pick(&["", "x", "é", "日本", "{\\b1}", "two words", "\n", "  ", "\\N", "{\\k5}a"]).to_string(), String::new()),
    };
    let v = (0..g.below(4)).map(|_| g.below(120) as u32).collect();
    Op { op: op.into(), a: g.u64() as u32, b: g.u64() as u32, c: g.u64() as u32, s, s2, v }
}

/// A stretch of text, or one finished override block (its content).
#[derive(Clone, Debug, PartialEq)]
enum Seg {
    Text(String),
    Block(String),
}
/// Reads blocks the way every player does; `None`: nested braces, on which there is no agreement.
fn segs(t: &str) -> Option<Vec<Seg>> {
    let mut v: Vec<Seg> = vec![];
    let mut text = String::new();
    let mut rest = t;
    while let Some(p) = rest.find('{') {
        text += &rest[..p];
        match rest[p + 1..].find(['{', '}']) {
            None => {
                text += &rest[p..];
                rest = "";
                break;
            }
            Some(q) if rest.as_bytes()[p + 1 + q] == b'{' => return None,
            Some(q) => {
                if !text.is_empty() {
                    v.push(Seg::Text(std::mem::take(&mut text)));
                }
                v.push(Seg::Block(rest[p + 1..p + 1 + q].to_string()));
                rest = &rest[p + 2 + q..];
            }
        }
    }
    text += rest;
    if !text.is_empty() {
        v.push(Seg::Text(text));
    }
    Some(v)
}
fn join(v: &[Seg]) -> String {
    v.iter()
        .map(|s| match s {
            Seg::Text(t) => t.clone(),
            Seg::Block(b) => format!("{{{b}}}"),
        })
        .collect()
}
fn visible(v: &[Seg]) -> String {
    v.iter()
        .map(|s| match s {
            Seg::Text(t) => t.as_str(),
            Seg::Block(_) => "",
        })
        .collect()
}
/// A block's tags as (offset of the backslash, name, arguments); `None` if it holds something that is no known tag.
fn tags(b: &str) -> Option<Vec<(usize, String, String)>> {
    let mut v = vec![];
    let mut i = b.find('\\').unwrap_or(b.len());
    while i < b.len() {
        let rest = &b[i + 1..];
        let name = NAMES.iter().filter(|n| rest.starts_with(**n)).max_by_key(|n| n.len())?;
        let args = &rest[name.len()..];
        if !matches!(*name, "fn" | "r") && args.starts_with(|c: char| c.is_ascii_alphabetic()) {
            return None;
        }
        let n = if *name == "t" && args.starts_with('(') {
            let mut depth = 0;
            args.char_indices()
                .find(|(_, c)| {
                    depth += (*c == '(') as i32 - (*c == ')') as i32;
                    depth == 0
                })
                .map(|x| x.0 + 1)?
        } else {
            args.find('\\').unwrap_or(args.len())
        };
        // anything after the closing bracket of \t up to the next tag
        if n < args.len() && !args[n..].starts_with('\\') {
            return None;
        }
        v.push((i, name.to_string(), args[..n].to_string()));
        i += 1 + name.len() + n;
    }
    Some(v)
}
fn note(b: &str) -> &str {
    &b[..b.find('\\').unwrap_or(b.len())]
}

/// What the text in the range may become.
enum Want {
    Skip,
    Err,
    Is(String),
    /// any of these
    OneOf(Vec<String>),
    /// must satisfy
    Such(Box<dyn Fn(&str) -> Result<(), String>>),
}
fn kind(o: &Op) -> (KaraokeType, &'static str) {
    match o.c >> 8 & 3 {
        0 => (KaraokeType::Standard, "k"),
        1 => (KaraokeType::Fill, "kf"),
        2 => (KaraokeType::Outline, "ko"),
        _ => (KaraokeType::Transition, "kt"),
    }
}
fn dur(o: &Op) -> u32 {
    o.b % 150
}
fn want(o: &Op, sel: &str, c: u32) -> Want {
    let sg = segs(sel);
    match o.op.as_str() {
        "insert" | "tag_insert" | "replace" | "sel_replace" | "delete" | "sel_delete" | "wrap" | "sel_wrap" => {}
        _ if sg.is_none() => return Want::Skip,
        _ => {}
    }
    match o.op.as_str() {
        "insert" | "replace" | "sel_replace" => Want::Is(o.s.clone()),
        "delete" | "sel_delete" => Want::Is(String::new()),
        "sel_wrap" => Want::Is(format!("{}{sel}{}", o.s, o.s2)),
        "tag_insert" => {
            let t = o.s.trim();
            match t {
                "{\\b1}" => Want::Is(t.into()),
                _ if !t.starts_with('\\') => Want::Err,
                _ if c & 2 == 0 => Want::Is(format!("{{{t}}}")),
                _ => Want::Is(t.into()),
            }
        }
        "wrap" => {
            let close = if !o.s2.is_empty() {
                o.s2.clone()
            } else {
                match o.s.as_str() {
                    "\\b1" => "\\b0",
                    "\\i1" => "\\i0",
                    "\\u1" => "\\u0",
                    "\\s1" => "\\s0",
                    "\\c&HFF&" => "\\c",
                    _ => "\\r",
                }
                .into()
            };
            Want::Is(format!("{{{}}}{sel}{{{close}}}", o.s))
        }
        "remove_all" => {
            let keep = c & 6 == 6;
            let v: Vec<Seg> = sg.unwrap().into_iter().filter(|s| keep || matches!(s, Seg::Text(_))).map(|s| if let Seg::Block(_) = s { Seg::Block(String::new()) } else { s }).collect();
            Want::Is(join(&v))
        }
        "remove_pattern" => {
            let name = o.s.trim_start_matches('\\').to_string();
            let keep = c & 6 == 6;
            let mut out = vec![];
            for s in sg.unwrap() {
                if let Seg::Block(b) = s {
                    let Some(t) = tags(&b) else { return Want::Skip };
                    if t.iter().any(|x| x.1.starts_with(&name) && x.1 != name) {
                        // is a longer name meant, too? not said
                        return Want::Skip;
                    }
                    let mut r = note(&b).to_string();
                    for (_, n, a) in t {
                        if n != name {
                            r += &format!("\\{n}{a}");
                        }
                    }
                    if !r.is_empty() || keep {
                        out.push(Seg::Block(r));
                    }
                } else {
                    out.push(s);
                }
            }
            Want::Is(join(&out))
        }
        "replace_tag" => {
            let all = c & 2 == 2;
            let mut done = 0;
            let mut out = vec![];
            let fname = tags(&o.s).and_then(|v| v.first().map(|x| x.1.clone()));
            for s in sg.unwrap() {
                if let Seg::Block(b) = s {
                    let Some(t) = tags(&b) else { return Want::Skip };
                    let mut r = note(&b).to_string();
                    for (_, n, a) in t {
                        let full = format!("\\{n}{a}");
                        if full.starts_with(&o.s) && (all || done == 0) {
                            if Some(&n) != fname.as_ref() {
                                return Want::Skip;
                            }
                            r += &o.s2;
                            r += &full[o.s.len()..];
                            done += 1;
                        } else {
                            r += &full;
                        }
                    }
                    out.push(Seg::Block(r));
                } else {
                    out.push(s);
                }
            }
            Want::Is(join(&out))
        }
        "kar_adjust" => {
            let mut outs = vec![String::new()];
            let mut k = 0;
            for s in sg.unwrap() {
                let Seg::Block(b) = s else {
                    let Seg::Text(t) = s else { unreachable!() };
                    outs.iter_mut().for_each(|x| *x += &t);
                    continue;
                };
                let Some(t) = tags(&b) else { return Want::Skip };
                outs.iter_mut().for_each(|x| *x += &format!("{{{}", note(&b)));
                for (_, n, a) in t {
                    let mut alts = vec![a.clone()];
                    if n.starts_with('k') {
                        let Ok(d) = a.parse::<u32>() else { return Want::Skip };
                        if d.to_string() != a {
                            return Want::Skip;
                        }
                        alts = match c % 4 {
                            0 => {
                                let f = factor(o);
                                let x = (d as f32 * f) as u32;
                                // rounding is not said
                                let mut v = vec![x.max(1), ((d as f32 * f).round() as u32).max(1)];
                                v.dedup();
                                v.into_iter().map(|x| x.to_string()).collect()
                            }
                            1 => vec![(d as i64 + offset(o) as i64).max(1).to_string()],
                            2 => vec![dur(o).to_string()],
                            _ => {
                                k += 1;
                                vec![o.v.get(k - 1).copied().unwrap_or(d).to_string()]
                            }
                        };
                    }
                    if outs.len() > 64 {
                        return Want::Skip;
                    }
                    outs = outs.iter().flat_map(|x| alts.iter().map(move |a| (x, a))).map(|(x, a)| format!("{x}\\{n}{a}")).collect();
                }
                outs.iter_mut().for_each(|x| x.push('}'));
            }
            Want::OneOf(outs)
        }
        "kar_gen" => {
            if sel.contains(['{', '}']) {
                return Want::Err;
            }
            let tag = format!("\\{}{}", kind(o).1, dur(o));
            if c & 2 == 2 {
                return Want::Is(format!("{{{tag}}}{sel}"));
            }
            let sel = sel.to_string();
            Want::Such(Box::new(move |got| {
                let v = segs(got).ok_or("nested blocks")?;
                if visible(&v) != sel {
                    return Err(format!("the text {sel:?} became {:?}", visible(&v)));
                }
                if let Some(b) = v.iter().find(|s| matches!(s, Seg::Block(b) if *b != tag)) {
                    return Err(format!("{b:?} is not {tag}"));
                }
                if !matches!(v.first(), Some(Seg::Block(_))) {
                    return Err("does not begin with a tag".into());
                }
                // every word but the first begins with, or comes after whitespace that begins with, a tag
                let n = v.iter().filter(|s| matches!(s, Seg::Block(_))).count();
                let words = sel.split_whitespace().count();
                if n < words || v.iter().any(|s| matches!(s, Seg::Text(t) if t.split_whitespace().count() > 1)) {
                    return Err(format!("{n} tags for {words} words"));
                }
                Ok(())
            }))
        }
        "kar_split" => {
            // positions count bytes from the start of the range; only outside blocks
            if sg.as_ref().unwrap().iter().any(|s| matches!(s, Seg::Block(_))) {
                let (d, sel) = (if c & 2 == 2 { dur(o) } else { 50 }, sel.to_string());
                return Want::Such(Box::new(move |got| {
                    let (v, w) = (segs(got).ok_or("nested blocks")?, segs(&sel).unwrap());
                    if visible(&v) != visible(&w) {
                        return Err(format!("the text {:?} became {:?}", visible(&w), visible(&v)));
                    }
                    let mine = Seg::Block(format!("\\k{d}"));
                    let blocks = |v: &[Seg]| v.iter().filter(|s| matches!(s, Seg::Block(_)) && **s != mine).cloned().collect::<Vec<_>>();
                    if blocks(&v) != blocks(&w) {
                        return Err(format!("blocks {:?} became {:?}", blocks(&w), blocks(&v)));
                    }
                    Ok(())
                }));
            }
            let d = if c & 2 == 2 { dur(o) } else { 50 };
            let mut r = String::new();
            let mut last = 0;
            for p in o.v.iter().map(|x| *x as usize).filter(|p| *p < sel.len()).chain([sel.len()]) {
                let inside = p < sel.len() && sel.is_char_boundary(p) && sel[..p].rfind(['{', '}']).is_some_and(|b| sel.as_bytes()[b] == b'{');
                if p > last && p <= sel.len() && sel.is_char_boundary(p) && !inside {
                    r += &format!("{{\\k{d}}}{}", &sel[last..p]);
                    last = p;
                }
            }
            Want::Is(r)
        }
        "kar_apply" => {
            let words: Vec<String> = visible(&sg.unwrap()).split_whitespace().map(String::from).collect();
            let tag = kind(o).1;
            let f = |d: &dyn Fn(usize) -> u32| words.iter().enumerate().map(|(i, w)| format!("{{\\{tag}{}}}{w}", d(i))).collect::<Vec<_>>().join(" ");
            match c % 4 {
                0 => Want::Is(f(&|_| dur(o))),
                1 => {
                    // 60 / bpm * beats * 100 hundredths
                    let exact = 6000.0 * 0.5 / bpm(o) as f64;
                    Want::OneOf(vec![f(&|_| exact as u32), f(&|_| exact.round() as u32), f(&|_| (exact as u32).saturating_sub(1))])
                }
                2 if o.v.is_empty() => Want::Such(Box::new(|_| Ok(()))),
                2 => Want::Is(f(&|i| o.v[i % o.v.len()])),
                _ => Want::Is(sel.into()),
            }
        }
        _ => Want::Skip,
    }
}
fn factor(o: &Op) -> f32 {
    [0.5, 1.2, 2.0, 10.0, 1.0, 0.01, 0.0][o.a as usize % 7]
}
fn offset(o: &Op) -> i32 {
    [10, -10, 5, -300, 100, 1, -1, 0][o.a as usize % 8]
}
fn bpm(o: &Op) -> u32 {
    o.b % 240 + 1
}

/// The command for an operation on a range, and whether it works on an empty range at its start.
fn command(o: &Op, r: Range, c: u32) -> Option<Box<dyn EditorCommand>> {
    let at = r.start;
    Some(match o.op.as_str() {
        "insert" => Box::new(InsertTextCommand::new(at, o.s.clone())),
        "delete" => Box::new(DeleteTextCommand::new(r)),
        "replace" => Box::new(ReplaceTextCommand::new(r, o.s.clone())),
        "tag_insert" => {
            let k = InsertTagCommand::new(at, o.s.clone());
            Box::new(if c & 2 == 2 { k.no_auto_wrap() } else { k })
        }
        "remove_all" | "remove_pattern" => {
            let mut k = RemoveTagCommand::new(r);
            if o.op == "remove_pattern" {
                k = k.pattern(o.s.clone());
            }
            Box::new(if c & 6 == 6 { k.keep_empty_overrides() } else { k })
        }
        "replace_tag" => {
            let k = ReplaceTagCommand::new(r, o.s.clone(), o.s2.clone());
            Box::new(if c & 2 == 2 { k.all() } else { k })
        }
        "wrap" => {
            let k = WrapTagCommand::new(r, o.s.clone());
            Box::new(if o.s2.is_empty() { k } else { k.closing_tag(o.s2.clone()) })
        }
        "kar_gen" => {
            let k = GenerateKaraokeCommand::new(r, dur(o)).karaoke_type(kind(o).0);
            Box::new(if c & 2 == 2 { k.manual_syllables() } else { k })
        }
        "kar_split" => {
            let k = SplitKaraokeCommand::new(r, o.v.iter().map(|x| *x as usize).collect());
            Box::new(if c & 2 == 2 { k.duration(dur(o)) } else { k })
        }
        "kar_adjust" => Box::new(match c % 4 {
            0 => AdjustKaraokeCommand::scale(r, factor(o)),
            1 => AdjustKaraokeCommand::offset(r, offset(o)),
            2 => AdjustKaraokeCommand::set_all(r, dur(o)),
            _ => AdjustKaraokeCommand::custom(r, o.v.clone()),
        }),
        "kar_apply" => Box::new(match c % 4 {
            0 => ApplyKaraokeCommand::equal(r, dur(o), kind(o).0),
            1 => ApplyKaraokeCommand::beat(r, bpm(o), 0.5, kind(o).0),
            2 => ApplyKaraokeCommand::pattern(r, o.v.clone(), kind(o).0),
            _ => ApplyKaraokeCommand::import_from(r, 0),
        }),
        _ => return None,
    })
}
fn u<T>(r: Result<T, EditorError>) -> Result<(), EditorError> {
    r.map(|_| ())
}
/// The same through the fluent interface, when it has a way to say it.
fn fluent(d: &mut EditorDocument, o: &Op, r: Range, c: u32) -> Option<Result<(), EditorError>> {
    let at = r.start;
    Some(match o.op.as_str() {
        "insert" => u(d.insert_at(at, &o.s)),
        "delete" => u(d.command().range(r).delete()),
        "replace" => u(d.replace_range(r, &o.s)),
        "tag_insert" => u(if c & 2 == 2 { d.tags().at(at).insert_raw(&o.s) } else { d.tags().at(at).insert(&o.s) }),
        "remove_all" if c & 6 != 6 => u(d.tags().in_range(r).remove_all()),
        "remove_pattern" if c & 6 != 6 => u(d.tags().in_range(r).remove_pattern(&o.s)),
        "replace_tag" => u(if c & 2 == 2 { d.tags().in_range(r).replace_all(&o.s, &o.s2) } else { d.tags().in_range(r).replace(&o.s, &o.s2) }),
        "wrap" => u(if o.s2.is_empty() { d.tags().in_range(r).wrap(&o.s) } else { d.tags().in_range(r).wrap_with(&o.s, &o.s2) }),
        "kar_gen" => {
            let k = d.karaoke().in_range(r).generate(dur(o)).karaoke_type(kind(o).0);
            u(if c & 2 == 2 { k.manual_syllables().execute() } else { k.execute() })
        }
        "kar_split" => {
            let k = d.karaoke().in_range(r).split(o.v.iter().map(|x| *x as usize).collect());
            u(if c & 2 == 2 { k.duration(dur(o)).execute() } else { k.execute() })
        }
        "kar_adjust" => {
            let k = d.karaoke().in_range(r).adjust();
            u(match c % 4 {
                0 => k.scale(factor(o)),
                1 => k.offset(offset(o)),
                2 => k.set_all(dur(o)),
                _ => k.custom(o.v.clone()),
            })
        }
        "kar_apply" => {
            let k = d.karaoke().in_range(r).apply();
            u(match c % 4 {
                0 => k.equal(dur(o), kind(o).0),
                1 => k.beat(bpm(o), 0.5, kind(o).0),
                2 => k.pattern(o.v.clone(), kind(o).0),
                _ => k.import_from(0),
            })
        }
        "sel_replace" => u(d.select(r).replace_with(&o.s)),
        "sel_delete" => u(d.select(r).delete()),
        "sel_wrap" => u(d.select(r).wrap_with_tag(&o.s, &o.s2)),
        _ => return None,
    })
}

/// A place between characters, never inside a line break.
fn place(t: &str, p: usize) -> usize {
    let mut p = script::floor(t, p.min(t.len()));
    if p > 0 && p < t.len() && t.as_bytes()[p - 1] == b'\r' && t.as_bytes()[p] == b'\n' {
        p -= 1;
    }
    p
}
/// Mostly within one line, often the text of an event or of the whole line.
fn range(t: &str, o: &Op) -> (usize, usize) {
    let a = place(t, o.a as usize % (t.len() + 1));
    let (ls, le) = line(t, a);
    match o.c >> 16 & 7 {
        0 => (0, t.len()),
        1 | 2 => (ls + t[ls..le].match_indices(',').nth(8).map_or(0, |x| x.0 + 1), le),
        3 => (ls, le),
        4 => (a, place(t, a + o.b as usize % 60).max(a)),
        5 => (a, a),
        _ => (a, place(t, a + o.b as usize % 60).clamp(a, le.max(a))),
    }
}
/// The line around a place, without its break.
fn line(t: &str, p: usize) -> (usize, usize) {
    let s = t[..p].rfind('\n').map_or(0, |x| x + 1);
    let e = t[p..].find('\n').map_or(t.len(), |x| p + x);
    (s, if e > s && t.as_bytes()[e - 1] == b'\r' && e < t.len() { e - 1 } else { e })
}
/// Lone carriage returns are line breaks for some and not for others.
fn lone_cr(t: &str) -> bool {
    t.replace("\r\n", "").contains('\r')
}

static GAVE: AtomicBool = AtomicBool::new(false);
#[derive(Debug)]
struct GiveUp;
impl EditorCommand for GiveUp {
    fn execute(&self, _d: &mut EditorDocument) -> ass_editor::Result<CommandResult> {
        let f = rt::fault(rt::F_CB_ERR, 2);
        GAVE.store(f > 0 || GAVE.load(Ordering::Relaxed), Ordering::Relaxed);
        match f {
            0 => Ok(CommandResult::success()),
            1 => Err(EditorError::CommandFailed { message: "injected".into() }),
            _ => Ok(CommandResult::failure("injected".into())),
        }
    }
    fn description(&self) -> &str {
        "may give up"
    }
}
fn guard<R>(cx: &'static Cx, what: &str, f: impl FnOnce() -> R) -> R {
    match cx.catch(f) {
        Ok(r) => r,
        Err(p) => cx.fail("panic", format!("{what} panicked: {p}")),
    }
}
/// Does the new text fit what was wanted of the range?
fn judge(o: &Op, w: &Want, before: &str, (a, e): (usize, usize), ok: bool, after: &str) -> Result<(), (&'static str, String)> {
    let show = || format!("{} ({:?}, {:?}, {:?}, c={}) on {:?} of\n{before:?}\nleft\n{after:?}", o.op, o.s, o.s2, o.v, o.c & 15, &before[a..e]);
    if !ok {
        if before != after {
            return Err(("failed-changed-text", show()));
        }
        return match w {
            Want::Err | Want::Skip => Ok(()),
            Want::Such(_) if o.op == "kar_apply" => Ok(()),
            _ => Err(("refused", show())),
        };
    }
    if after.len() < a + before.len() - e || after[..a] != before[..a] || after[after.len() - (before.len() - e)..] != before[e..] {
        return Err(("changed-outside", show()));
    }
    let got = &after[a..after.len() - (before.len() - e)];
    match w {
        Want::Skip => Ok(()),
        Want::Err => Err(("accepted", show())),
        Want::Is(x) if got == x => Ok(()),
        Want::Is(x) => Err(("changed-wrong", format!("{}\nnot\n{x:?}", show()))),
        Want::OneOf(v) if v.iter().any(|x| got == x) => Ok(()),
        Want::OneOf(v) => Err(("changed-wrong", format!("{}\nnot\n{:?}", show(), v[0]))),
        Want::Such(f) => f(got).map_err(|m| ("changed-wrong", format!("{}: {m}", show()))),
    }
}
pub fn told(r: &CommandResult, before: &str, after: &str, cursor_at_end: bool) -> Result<(), String> {
    if !r.content_changed {
        return if before == after { Ok(()) } else { Err("reports no change".into()) };
    }
    let (Some(m), Some(c)) = (r.modified_range, r.new_cursor) else { return Ok(()) };
    let (s, e, c) = (m.start.offset, m.end.offset, c.offset);
    let tail = after.len().checked_sub(e).ok_or("range past the end")?;
    if s > e || !after.is_char_boundary(s) || !after.is_char_boundary(e) || !after.is_char_boundary(c) || c > after.len() {
        return Err(format!("range {s}..{e}, cursor {c} are no places in the text"));
    }
    if s > before.len() || tail > before.len() || s + tail > before.len() + (e - s) || before.as_bytes()[..s] != after.as_bytes()[..s] || before.as_bytes()[before.len() - tail..] != after.as_bytes()[e..] {
        return Err(format!("text outside {s}..{e} changed"));
    }
    if cursor_at_end && c != e {
        return Err(format!("cursor {c} is not at the end of the change {s}..{e}"));
    }
    Ok(())
}

pub struct Inline;
impl Scenario for Inline {
    type Plan = Plan;
    fn name(&self) -> &'static str {
        "inline-edits"
    }
    fn gen(&self, g: &mut Gen) -> Plan {
        let text = gen_text(g);
        let n = g.range(1, 20);
        let ops = (0..n).map(|_| gen_op(g)).collect();
        Plan { text, ops }
    }
    fn tune(&self, _p: &Plan, g: &mut Gen, cfg: &mut Config) {
        cfg.p_fault[rt::F_CB_ERR as usize] = *g.pick(&[0, 8000, 30000]);
    }
    fn run(&self, plan: &'static Plan, cx: &'static Cx) {
        let mut d = EditorDocument::from_content(&plan.text).unwrap();
        let mut ever: Vec<String> = vec![d.text()];
        for (k, o) in plan.ops.iter().enumerate() {
            cx.log(format!("{k}: {} a={} b={} c={} {:?} {:?} {:?}", o.op, o.a, o.b, o.c, o.s, o.s2, o.v));
            let before = d.text();
            if before.len() > 20_000 {
                break;
            }
            let (a, e) = match o.op.as_str() {
                "insert" | "tag_insert" => {
                    let a = range(&before, o).0;
                    (a, a)
                }
                _ => range(&before, o),
            };
            let r = Range::new(Position::new(a), Position::new(e));
            let sel = &before[a..e];
            let c = o.c & 0xff;
            let fail = |x: (&'static str, String)| cx.fail(&format!("{}:{}", x.0, o.op), x.1);
            match o.op.as_str() {
                // indenting line by line is taken back line by line
                "undo" | "redo" if plan.ops.iter().any(|x| x.op.ends_with("indent")) => {
                    let _ = guard(cx, &o.op, || if o.op == "undo" { d.undo() } else { d.redo() });
                    continue;
                }
                "undo" | "redo" => {
                    let _ = guard(cx, &o.op, || if o.op == "undo" { d.undo() } else { d.redo() });
                    let t = d.text();
                    cx.check(ever.contains(&t), "undo-wrong", || format!("{} left a text that never was: {t:?}", o.op));
                    continue;
                }
                "batch" => {
                    let mut b = BatchCommand::new("batch".into()).add_command(Box::new(GiveUp));
                    let sub = plan.ops.iter().cycle().skip(k + 1).take(plan.ops.len()).find(|x| command(x, r, 0).is_some());
                    let Some(sub) = sub else { continue };
                    let r = if matches!(sub.op.as_str(), "insert" | "tag_insert") { Range::new(r.start, r.start) } else { r };
                    let e = r.end.offset;
                    b = b.add_command(command(sub, r, c).unwrap()).add_command(Box::new(GiveUp));
                    GAVE.store(false, Ordering::Relaxed);
                    let res = guard(cx, "batch", || d.execute_command(&b));
                    let gave = GAVE.load(Ordering::Relaxed);
                    let ok = matches!(&res, Ok(x) if x.success);
                    cx.check(!(ok && gave), "failed-batch-reported-success", || "a step gave up".into());
                    let w = if gave { Want::Err } else { want(sub, &before[a..e], c) };
                    if let Err(x) = judge(sub, &w, &before, (a, e), ok, &d.text()) {
                        cx.fail(&format!("batch-{}:{}", x.0, sub.op), x.1)
                    }
                }
                "parse" => {
                    let got = guard(cx, "parse", || d.tags().in_range(r).parse());
                    let Some(sg) = segs(sel) else { continue };
                    let mut p = a;
                    let mut w = vec![];
                    for s in &sg {
                        match s {
                            Seg::Text(t) => p += t.len(),
                            Seg::Block(b) => {
                                let Some(t) = tags(b) else {
                                    w.clear();
                                    p = usize::MAX;
                                    break;
                                };
                                for (at, n, x) in t {
                                    let inner = x.strip_prefix('(').and_then(|x| x.strip_suffix(')'));
                                    w.push(match inner {
                                        Some(i) => (format!("\\{n}"), p + 1 + at, if i.is_empty() { vec![] } else { i.split(',').map(|x| x.trim().to_string()).collect() }),
                                        None => (format!("\\{n}{x}"), p + 1 + at, vec![]),
                                    });
                                }
                                p += b.len() + 2;
                            }
                        }
                    }
                    // what an unfinished block holds is not said
                    if p == usize::MAX || sg.iter().any(|s| matches!(s, Seg::Text(t) if t.contains('{'))) {
                        continue;
                    }
                    match got {
                        Err(x) => fail(("refused", format!("{x} on {sel:?}"))),
                        Ok(v) => {
                            let g: Vec<_> = v.iter().map(|x| (x.tag.clone(), x.position.map_or(0, |p| p.offset), x.parameters.clone())).collect();
                            cx.check(g == w, "tags-wrong", || format!("tags of {sel:?} at {a}: {g:?}, not {w:?}"));
                        }
                    }
                    cx.check(d.text() == before, "read-changed-text", || "parsing tags changed the text".into());
                    continue;
                }
                "indent" | "unindent" if lone_cr(&before) => continue,
                "indent" | "unindent" => {
                    let n = o.b as usize % 9;
                    let (s, _) = line(&before, a);
                    let mut w = before[..s].to_string();
                    // lines from the one with the start to the one with the end
                    let mut p = s;
                    for l in before[s..].split_inclusive('\n') {
                        if p > e {
                            w += l;
                        } else if o.op == "indent" {
                            w += &" ".repeat(n);
                            w += l;
                        } else {
                            w += &l[l.bytes().take(n).take_while(|x| *x == b' ').count()..];
                        }
                        p += l.len();
                    }
                    if p <= e && o.op == "indent" && (before.ends_with('\n') || before.is_empty()) {
                        w += &" ".repeat(n);
                    }
                    let res = guard(cx, &o.op, || u(if o.op == "indent" { d.select(r).indent(n) } else { d.select(r).unindent(n) }));
                    cx.check(res.is_ok() && d.text() == w, &format!("changed-wrong:{}", o.op), || format!("{} {n} of {a}..{e}: {res:?}\n{before:?}\nleft\n{:?}\nnot\n{w:?}", o.op, d.text()));
                }
                "at_insert" | "at_line_break" => {
                    let t = if o.op == "at_insert" { o.s.as_str() } else { "\n" };
                    let res = guard(cx, &o.op, || u(if o.op == "at_insert" { d.at_pos(r.start).insert_text(t) } else { d.at_pos(r.start).insert_line() }));
                    let w = format!("{}{t}{}", &before[..a], &before[a..]);
                    cx.check(res.is_ok() && d.text() == w, &format!("changed-wrong:{}", o.op), || format!("{} {t:?} at {a}: {res:?}\n{before:?}\nleft\n{:?}", o.op, d.text()));
                }
                "at_delete" | "at_backspace" => {
                    let n = o.b as usize % 5;
                    let fwd = o.op == "at_delete";
                    let res = guard(cx, &o.op, || u(if fwd { d.at_pos(r.start).delete(n) } else { d.at_pos(r.start).backspace(n) }));
                    // n characters, or all there are
                    let (s, x) = if fwd { (a, a + before[a..].chars().take(n).map(char::len_utf8).sum::<usize>()) } else { (a - before[..a].chars().rev().take(n).map(char::len_utf8).sum::<usize>(), a) };
                    let w = format!("{}{}", &before[..s], &before[x..]);
                    let enough = if fwd { before[a..].chars().count() >= n } else { before[..a].chars().count() >= n };
                    let t = d.text();
                    cx.check(if res.is_ok() { t == w } else { t == before && !enough }, &format!("changed-wrong:{}", o.op), || format!("{} {n} at {a}: {res:?}\n{before:?}\nleft\n{t:?}\nnot\n{w:?}", o.op));
                }
                "to_line_end" if lone_cr(&before) => continue,
                "to_line_end" => {
                    let res = guard(cx, &o.op, || u(d.at_pos(r.start).replace_to_line_end(&o.s)));
                    let (_, le) = line(&before, a);
                    let w = format!("{}{}{}", &before[..a], o.s, &before[le..]);
                    cx.check(res.is_ok() && d.text() == w, &format!("changed-wrong:{}", o.op), || format!("replace to line end from {a}: {res:?}\n{before:?}\nleft\n{:?}\nnot\n{w:?}", d.text()));
                }
                "line_end" | "positions" if lone_cr(&before) => continue,
                "line_end" => {
                    let n = before.matches('\n').count() + 1;
                    let l = o.b as usize % (n + 2) + 1;
                    let got = guard(cx, "line end", || PositionBuilder::new().at_line_end(l).build(d.rope()));
                    let start = guard(cx, "line start", || PositionBuilder::new().at_line_start(l).build(d.rope()));
                    if l > n {
                        cx.check(got.is_err() && start.is_err() && d.at_line(l).is_err(), "position-wrong", || format!("line {l} of {n}: {start:?}..{got:?}"));
                    } else {
                        let s = if l == 1 { 0 } else { before.match_indices('\n').nth(l - 2).unwrap().0 + 1 };
                        let w = (s, line(&before, s).1);
                        let at = d.at_line(l).map(|x| x.position().offset).unwrap_or(usize::MAX);
                        let got = (start.as_ref().map_or(usize::MAX, |x| x.offset), got.as_ref().map_or(usize::MAX, |x| x.offset));
                        cx.check(got == w && at == s, "position-wrong", || format!("line {l} of {before:?} is {w:?}: {got:?}, at_line {at}"));
                    }
                }
                "positions" => {
                    let (s, le) = line(&before, a);
                    let l = before[..a].matches('\n').count() + 1;
                    let col = before[s..a].chars().count() + 1;
                    let p = Position::new(a);
                    let g1 = guard(cx, "positions", || d.position_to_line_col(p)).ok();
                    let g2 = guard(cx, "positions", || d.position_to_line_column(p)).ok().map(|x| (x.line, x.column));
                    let g3 = guard(cx, "positions", || d.at_pos(p).to_line_column()).ok();
                    let back = guard(cx, "positions", || d.line_column_to_position(l, col)).ok().map(|x| x.offset);
                    cx.check([g1, g2, g3].iter().all(|x| *x == Some((l, col))), "position-wrong", || format!("place {a} of {before:?} is {l}:{col}: {g1:?} {g2:?} {g3:?}"));
                    cx.check(back == Some(a), "position-wrong", || format!("{l}:{col} of {before:?} is {a}: {back:?}"));
                    let far = before[s..le].chars().count() + 4 + o.b as usize % 9;
                    let got = guard(cx, "positions", || d.line_column_to_position(l, far));
                    cx.check(got.is_err(), "position-wrong", || format!("{l}:{far} of {before:?} does not exist: {got:?}"));
                    let got = guard(cx, "text", || (d.text_range(r).ok(), d.select(r).text()));
                    cx.check(got == (Some(sel.to_string()), sel.to_string()), "position-wrong", || format!("text {a}..{e} is {sel:?}: {got:?}"));
                    let past = before.len() + 1 + o.b as usize % 3;
                    let got = guard(cx, "positions", || (d.position_to_line_col(Position::new(past)).is_err(), PositionBuilder::new().offset(past).build(d.rope()).is_err()));
                    cx.check(got == (true, true), "position-wrong", || format!("place {past} of {} bytes was accepted", before.len()));
                }
                _ => {
                    let w = want(o, sel, c);
                    let cmd = if c & 8 == 0 { command(o, r, c) } else { None };
                    let res = match cmd {
                        Some(k) => {
                            let res = guard(cx, &o.op, || d.execute_command(&*k));
                            if let Ok(x) = &res {
                                if x.success {
                                    if let Err(m) = told(x, &before, &d.text(), true) {
                                        fail(("result-wrong", format!("{m}: {:?} on {a}..{e} of\n{before:?}\nleft\n{:?}", x, d.text())))
                                    }
                                }
                            }
                            match res {
                                Ok(x) if !x.success => Err(format!("{:?}", x.message)),
                                Ok(_) => Ok(()),
                                Err(x) => Err(x.to_string()),
                            }
                        }
                        None => match guard(cx, &o.op, || fluent(&mut d, o, r, c)) {
                            Some(x) => x.map_err(|x| x.to_string()),
                            None => continue,
                        },
                    };
                    if let Err(x) = judge(o, &w, &before, (a, e), res.is_ok(), &d.text()) {
                        fail((x.0, format!("{res:?}: {}", x.1)))
                    }
                }
            }
            let t = d.text();
            if t != before {
                cx.nontrivial();
                // single steps of a change made of several may be taken back one by one
                ever.push(t);
            }
        }
    }
}
pub fn check() -> Check {
    Check { id: "C22", real: "EditorDocument, text, tag and karaoke commands, their fluent interfaces, selections, positions, ass-core tag parser", stub: "callers (generated)", rule: "at least one operation changed the text", parts: vec![part(Inline, 120_000, 6_000_000)] }
}
