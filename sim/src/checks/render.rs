//! Rendering: what is drawn for a script at a time depends on the script, the time and the output
//! size alone. Clients on several threads drive renderers through long histories (scripts replaced
//! in memory, contexts changed, incremental and bitmap output, fonts that fail to read); every frame
//! is then drawn again from nothing, in a thread that never drew before, from a script that keeps only
//! the lines shown at that time, moved to another time.
use crate::engine::{part, Check, Cx, Scenario, Shared};
use crate::gen::Gen;
use crate::rt::{self, fs, Config};
use ass_core::parser::Script;
use ass_renderer::backends::coverage::{composite_bitmap, RenderBitmap};
use ass_renderer::{BackendType, Frame, RenderContext, Renderer};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Ev {
    pub comment: bool,
    pub layer: u32,
    pub start: u32,
    pub end: u32,
    pub style: String,
    pub margins: [u32; 3],
    pub text: String,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scr {
    pub info: Vec<String>,
    pub styles: Vec<String>,
    pub events: Vec<Ev>,
}
fn ts(t: u32) -> String {
    format!("{}:{:02}:{:02}.{:02}", t / 360_000, t / 6000 % 60, t / 100 % 60, t % 100)
}
impl Scr {
    fn write(&self, keep: impl Fn(&Ev) -> bool, shift: u32) -> String {
        let mut s = String::from("[Script Info]\n");
        for l in &self.info {
            s.push_str(l);
            s.push('\n');
        }
        s.push_str("\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n");
        for l in &self.styles {
            s.push_str(l);
            s.push('\n');
        }
        s.push_str("\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n");
        for e in self.events.iter().filter(|e| keep(e)) {
            s.push_str(&format!(
                "{}: {},{},{},{},,{},{},{},,{}\n",
                if e.comment { "Comment" } else { "Dialogue" },
                e.layer,
                ts(e.start + shift),
                ts(e.end + shift),
                e.style,
                e.margins[0],
                e.margins[1],
                e.margins[2],
                e.text
            ));
        }
        s
    }
    pub fn text(&self) -> String {
        self.write(|_| true, 0)
    }
    pub fn shown(&self, t: u32) -> Vec<&Ev> {
        self.events.iter().filter(|e| shown(e, t)).collect()
    }
    /// The lines shown at `t` and nothing else, `shift` later.
    pub fn reduced(&self, t: u32, shift: u32) -> String {
        self.write(|e| shown(e, t), shift)
    }
}
fn shown(e: &Ev, t: u32) -> bool {
    !e.comment && e.start <= t && t < e.end
}

pub fn animated(e: &Ev) -> bool {
    ["\\t(", "\\move", "\\fad", "\\k", "\\K"].iter().any(|k| e.text.contains(k))
}

const WORDS: &[&str] = &["Hi", "AVA", "fjord", "xyz", "Wg", "10%", "a b", "jump", "Mm", "Tj", "o", "iiii", "(no)", "Hi yo"];
const COLORS: &[&str] = &["FFFFFF", "0000FF", "00FF00", "FF8000", "000000", "8040C0"];

fn tag(g: &mut Gen, w: u32, h: u32) -> String {
    let x = g.below(w as u64 + 1);
    let y = g.below(h as u64 + 1);
    let c = *g.pick(COLORS);
    let n = g.range(1, 3);
    let sz = h as u64 * g.range(10, 45) / 100 + 1;
    match g.below(60) {
        0..=3 => format!("\\pos({x},{y})"),
        4 => {
            let (x2, y2) = (g.below(w as u64 + 1), g.below(h as u64 + 1));
            if g.bool() { format!("\\move({x},{y},{x2},{y2})") } else { format!("\\move({x},{y},{x2},{y2},{},{})", g.below(400), 400 + g.below(400)) }
        }
        5..=6 => format!("\\fad({},{})", g.below(600), g.below(600)),
        7 => format!("\\fade(255,{},{},0,200,400,800)", g.below(256), g.below(256)),
        8 => format!("\\t(\\fs{sz})"),
        9 => format!("\\t(0,{},\\1c&H{c}&\\frz{})", 100 + g.below(900), g.below(180)),
        10 => format!("\\t(\\bord{n}\\blur{})", g.below(3)),
        11 => format!("\\k{}", g.below(80)),
        12 => format!("\\kf{}", g.below(80)),
        13 => format!("\\K{}", g.below(80)),
        14 => format!("\\ko{}", g.below(80)),
        15 => format!("\\b{}", g.below(2)),
        16 => format!("\\i{}", g.below(2)),
        17 => format!("\\u{}", g.below(2)),
        18 => format!("\\s{}", g.below(2)),
        19..=20 => format!("\\fs{sz}"),
        21 => format!("\\fscx{}", 50 + 25 * g.below(5)),
        22 => format!("\\fscy{}", 50 + 25 * g.below(5)),
        23 => format!("\\frz{}", 15 * g.below(24)),
        24 => format!("\\frx{}", 15 * g.below(6)),
        25 => format!("\\fry{}", 15 * g.below(6)),
        26 => format!("\\fax0.{}", g.below(6)),
        27..=28 => format!("\\blur{n}"),
        29 => format!("\\be{n}"),
        30 => format!("\\bord{n}"),
        31 => format!("\\shad{n}"),
        32 => format!("\\1c&H{c}&"),
        33 => format!("\\alpha&H{:02X}&", g.below(256)),
        34 => {
            let (a, b) = (g.below(w as u64) / 2, g.below(h as u64) / 2);
            format!("\\{}clip({a},{b},{},{})", if g.bool() { "i" } else { "" }, a + 4 + g.below(w as u64 / 2), b + 4 + g.below(h as u64 / 2))
        }
        35..=36 => format!("\\an{}", g.range(1, 9)),
        37 => (if g.bool() { "\\r" } else { "\\rAlt" }).to_string(),
        38 => format!("\\fn{}", g.pick(&["Go", "Go Mono", "Nope"])),
        39 => format!("\\fsp{}\\q{}", g.below(4), g.below(4)),
        40 => format!("\\2c&H{c}&"),
        41..=42 => format!("\\3c&H{c}&"),
        43 => format!("\\4c&H{c}&"),
        44..=45 => format!("\\{}a&H{:02X}&", g.range(1, 4), 32 * g.below(8)),
        46 => format!("\\{}bord{n}", g.pick(&["x", "y"])),
        47 => format!("\\{}shad{}", g.pick(&["x", "y"]), n as i64 - 2),
        48 => format!("\\org({x},{y})\\frz{}", 10 * g.range(1, 9)),
        49 => format!("\\fay0.{}", g.below(6)),
        50 => format!("\\blur0.{}", g.range(4, 9)),
        51 => format!("\\bord{}.{}", g.below(3), g.below(10)),
        52 => format!("\\shad{}.{}", g.below(3), g.below(10)),
        53 => format!("\\fs{sz}.{}", g.below(10)),
        54 => format!("\\fscx{}", g.range(90, 110)),
        55 => format!("\\fsp{}.{}", g.below(2), g.below(10)),
        56 => {
            let (a, b) = (g.below(w as u64) / 2, g.below(h as u64) / 2);
            let (c, d) = (a + 6 + g.below(w as u64 / 2), b + 6 + g.below(h as u64 / 2));
            format!("\\{}clip(m {a} {b} l {c} {b} {c} {d} {a} {})", if g.bool() { "i" } else { "" }, d - g.below(5))
        }
        57 => format!("\\t({},{},{},\\{}c&H{c}&\\{}a&H{:02X}&)", 10 * g.below(50), 500 + 10 * g.below(80), 1 + g.below(3), g.range(1, 4), g.range(1, 4), g.below(256)),
        58 => format!("\\t({},{},\\fscx{}\\bord{}\\shad{})", g.below(300), 300 + g.below(900), 50 + g.below(150), g.below(4), g.below(4)),
        _ => format!("\\kt{}\\k{}", g.below(60), g.below(60)),
    }
}
/// Change one number, or one hexadecimal digit, a little.
fn nudge(g: &mut Gen, s: &str) -> String {
    let b = s.as_bytes();
    let at: Vec<usize> = (0..b.len()).filter(|&i| b[i].is_ascii_digit() || (b[i].is_ascii_uppercase() && b[i].is_ascii_hexdigit() && i > 0 && (b[i - 1] == b'H' || b[i - 1].is_ascii_hexdigit()))).collect();
    if at.is_empty() {
        return s.to_string();
    }
    let i = *g.pick(&at);
    let mut v = b.to_vec();
    let hex = s[..i].rfind("&H").is_some_and(|p| s[p + 2..i].bytes().all(|c| c.is_ascii_hexdigit()));
    v[i] = if hex { b"0123456789ABCDEF"[g.idx(16)] } else { (v[i] - b'0' + 1 + g.below(9) as u8) % 10 + b'0' };
    if !hex && v[i] == b'0' && v.get(i + 1).is_none_or(|c| !c.is_ascii_digit()) && (i == 0 || !v[i - 1].is_ascii_digit()) && g.bool() {
        v[i] = b'1';
    }
    if !hex && g.chance(1, 5) && v.get(i + 1).is_none_or(|c| !c.is_ascii_digit() && *c != b'.') {
        // half a unit more, where that is a number
        v.splice(i + 1..i + 1, *b".5");
    }
    String::from_utf8(v).unwrap()
}
fn text(g: &mut Gen, w: u32, h: u32) -> String {
    if g.chance(1, 7) {
        let s = (h / 4).max(2) as u64;
        let t = if g.chance(1, 2) { tag(g, w, h) } else { String::new() };
        let k = g.range(1, s);
        return format!("{{\\p1\\an7\\pos({},{}){t}}}m 0 0 l {s} 0 {s} {s} {k} {s}{}", g.below(w as u64), g.below(h as u64), if g.bool() { format!(" b {s} 0 {k} 0 0 {s}") } else { String::new() });
    }
    let mut s = String::new();
    for i in 0..g.range(1, 3) {
        let n = g.weighted(&[3, 5, 3, 1]);
        if n > 0 {
            s.push('{');
            for _ in 0..n {
                s.push_str(&tag(g, w, h));
            }
            s.push('}');
        }
        if i > 0 && g.chance(1, 4) {
            s.push_str("\\N");
        }
        s.push_str(*g.pick(WORDS));
    }
    s
}
fn script(g: &mut Gen) -> Scr {
    let (w, h) = *g.pick(&[(96u32, 54u32), (96, 54), (192, 108), (64, 64), (384, 216), (1920, 1080)]);
    let mut info = vec!["ScriptType: v4.00+".to_string()];
    if w != 1920 || g.bool() {
        info.push(format!("PlayResX: {w}"));
        info.push(format!("PlayResY: {h}"));
    }
    if g.chance(1, 6) {
        info.push(format!("LayoutResX: {}", w * 2));
        info.push(format!("LayoutResY: {}", h * 2));
    }
    if g.chance(1, 3) {
        info.push(format!("ScaledBorderAndShadow: {}", g.pick(&["no", "yes"])));
    }
    if g.chance(1, 3) {
        info.push(format!("WrapStyle: {}", g.below(4)));
    }
    let fs = |g: &mut Gen| h as u64 * g.range(15, 45) / 100;
    let names: &[&str] = match g.below(6) {
        0 => &["Alt", "Sub"],
        1 => &["Default"],
        2 => &["Sub", "Alt", "Top"],
        _ => &["Default", "Alt"],
    };
    let styles = names
        .iter()
        .map(|n| {
            format!(
                "Style: {n},{},{},&H{}{},&H{}{},&H{}{},&H{}{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},1",
                g.pick(&["Go", "Go", "Go Mono", "Arial"]),
                fs(g),
                g.pick(&["00", "00", "00", "40", "C0"]),
                g.pick(COLORS),
                g.pick(&["00", "00", "80"]),
                g.pick(COLORS),
                g.pick(&["00", "00", "00", "60", "FF"]),
                g.pick(COLORS),
                g.pick(&["80", "80", "00", "30"]),
                g.pick(COLORS),
                -(g.below(2) as i64),
                -(g.chance(1, 4) as i64),
                -(g.chance(1, 8) as i64),
                -(g.chance(1, 8) as i64),
                if g.chance(1, 6) { 80 + 10 * g.below(5) } else { 100 },
                if g.chance(1, 6) { 80 + 10 * g.below(5) } else { 100 },
                g.below(2),
                if g.chance(1, 6) { 30 } else { 0 },
                if g.chance(1, 6) { 3 } else { 1 },
                g.below(3),
                g.below(3),
                g.range(1, 9),
                g.below(6),
                g.below(6),
                g.below(6)
            )
        })
        .collect();
    let events = (0..g.range(1, 6))
        .map(|_| {
            let start = 50 * g.below(8) as u32 + if g.chance(1, 4) { g.below(50) as u32 } else { 0 };
            Ev {
                comment: g.chance(1, 10),
                layer: g.below(3) as u32,
                start,
                end: start + 50 * g.range(1, 6) as u32 - if g.chance(1, 6) { g.below(50) as u32 } else { 0 },
                style: g.pick(&["Default", "Default", "Alt", "Sub", "None"]).to_string(),
                margins: [0, if g.chance(1, 8) { 5 } else { 0 }, if g.chance(1, 6) { h / 6 } else { 0 }],
                text: text(g, w, h),
            }
        })
        .collect();
    Scr { info, styles, events }
}
pub fn any_script(g: &mut Gen) -> Scr {
    script(g)
}
/// A script that differs in one place, usually without changing any length.
fn variant(g: &mut Gen, s: &Scr) -> Scr {
    let mut v = s.clone();
    let i = g.idx(v.events.len());
    match g.below(16) {
        9..=12 => v.events[i].text = nudge(g, &v.events[i].text),
        13..=14 => {
            let k = g.idx(v.styles.len());
            let (head, rest) = v.styles[k].split_once(',').map(|(a, b)| (a.to_string(), b.to_string())).unwrap();
            v.styles[k] = format!("{head},{}", nudge(g, &rest));
        }
        15 => v.events[i].margins = [g.below(8) as u32, g.below(8) as u32, g.below(8) as u32],
        0 => {
            v.events[i].start += 50;
            v.events[i].end += 50;
        }
        1 => v.events[i].end += 50 * (1 + g.below(3) as u32),
        2 => v.events[i].layer = (v.events[i].layer + 1) % 3,
        3 => v.events[i].comment = !v.events[i].comment,
        4 => {
            let k = g.idx(v.styles.len());
            let c = (*g.pick(COLORS)).to_string();
            let mut f: Vec<String> = v.styles[k].split(',').map(String::from).collect();
            match g.below(4) {
                0 => f[3] = format!("&H00{c}"),
                1 => f[18] = (1 + (f[18].parse::<u32>().unwrap_or(1)) % 9).to_string(),
                2 => f[2] = (f[2].parse::<u32>().unwrap_or(10) + 1).to_string(),
                _ => f[16] = ((f[16].parse::<u32>().unwrap_or(0) + 1) % 3).to_string(),
            }
            v.styles[k] = f.join(",");
        }
        5 => {
            for l in &mut v.info {
                if let Some(n) = l.strip_prefix("PlayResX: ") {
                    *l = format!("PlayResX: {}", n.parse::<u32>().unwrap_or(96) + 2);
                }
            }
        }
        6 => {
            v.info.retain(|l| !l.starts_with("WrapStyle") && !l.starts_with("Scaled") && !l.starts_with("Layout"));
        }
        7 => v.events[i].style = g.pick(&["Default", "Alt", "Sub"]).to_string(),
        _ => {
            // another word of the same length
            let t = &v.events[i].text;
            v.events[i].text = if t.contains("Hi") { t.replace("Hi", "Wg") } else if t.contains("xyz") { t.replace("xyz", "AVA") } else { t.replace("o", "e").replace("m 0 0 l", "m 1 0 l").replace("jump", "jamp") };
        }
    }
    v
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub op: String,
    pub r: u8,
    pub slot: u8,
    pub a: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub scripts: Vec<Scr>,
    pub clients: Vec<Vec<Op>>,
    pub shift: u32,
}
const DIMS: &[(u32, u32)] = &[(96, 54), (96, 54), (64, 64), (54, 96), (128, 72)];

struct Slot {
    script: Option<Script<'static>>,
    src: *mut str,
    idx: usize,
}
impl Slot {
    fn new(s: &Scr, idx: usize) -> Slot {
        let src = Box::into_raw(s.text().into_boxed_str());
        // SAFETY: `script` is dropped before `src` is freed (see Drop)
        let script = Script::parse(unsafe { &*src }).ok();
        Slot { script, src, idx }
    }
}
impl Drop for Slot {
    fn drop(&mut self) {
        self.script = None;
        drop(unsafe { Box::from_raw(self.src) });
    }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Kind {
    Frame,
    Bitmaps,
}
struct Rec {
    script: usize,
    t: u32,
    dims: (u32, u32),
    kind: Kind,
    how: &'static str,
    data: Result<Vec<u8>, String>,
    /// font reads failed meanwhile
    faulted: bool,
    at: u64,
}
type Recs = Shared<Vec<Rec>>;

fn renderer(w: u32, h: u32) -> Renderer {
    rt::quiet(|| Renderer::new(BackendType::Software, RenderContext::with_font_database(w, h, Default::default())).expect("renderer"))
}
fn flatten(b: &[RenderBitmap], w: u32, h: u32) -> Vec<u8> {
    let mut v = vec![0u8; (w * h * 4) as usize];
    for x in b {
        composite_bitmap(&mut v, w, h, x);
    }
    v
}
pub fn diff(a: &[u8], b: &[u8], w: u32) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} bytes against {}", a.len(), b.len()));
    }
    let n = a.iter().zip(b).filter(|(x, y)| x != y).count();
    if n == 0 {
        return None;
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap();
    let m = a.iter().zip(b).map(|(x, y)| x.abs_diff(*y)).max().unwrap();
    let lit = |v: &[u8]| v.chunks(4).filter(|p| p[3] != 0).count();
    let px = i / 4;
    Some(format!("{n} bytes differ (by up to {m}), first at ({},{}): {:?} against {:?}; {} pixels drawn against {}", px as u32 % w, px as u32 / w, &a[px * 4..px * 4 + 4], &b[px * 4..px * 4 + 4], lit(a), lit(b)))
}

struct Held {
    frame: Frame,
    copy: Vec<u8>,
    t: u32,
}
fn client(id: usize, ops: &'static [Op], plan: &'static Plan, recs: &'static Recs, cx: &'static Cx) {
    let mut rs: Vec<Option<(Renderer, (u32, u32))>> = vec![None, None];
    let mut slots: Vec<Option<Slot>> = vec![None, None];
    // the last frame each renderer drew for each slot's script
    let mut prev: BTreeMap<(usize, usize), Frame> = BTreeMap::new();
    let mut held: Vec<Held> = vec![];
    for o in ops {
        rt::point();
        let r = o.r as usize % 2;
        let k = o.slot as usize % 2;
        let f0 = rt::io_failures();
        match o.op.as_str() {
            "load" => {
                let i = o.a as usize % plan.scripts.len();
                slots[k] = None;
                prev.retain(|(_, s), _| *s != k);
                slots[k] = Some(Slot::new(&plan.scripts[i], i));
                cx.log(format!("c{id} slot{k} = script {i}"));
                continue;
            }
            "new" => {
                let d = DIMS[o.a as usize % DIMS.len()];
                prev.retain(|(x, _), _| *x != r);
                rs[r] = None;
                rs[r] = Some((renderer(d.0, d.1), d));
                continue;
            }
            _ => {}
        }
        if rs[r].is_none() {
            rs[r] = Some((renderer(96, 54), (96, 54)));
        }
        let (ren, dims) = rs[r].as_mut().unwrap();
        match o.op.as_str() {
            "context" => {
                let d = DIMS[o.a as usize % DIMS.len()];
                rt::quiet(|| ren.set_context(RenderContext::with_font_database(d.0, d.1, Default::default())));
                *dims = d;
                cx.log(format!("c{id} r{r} is now {}x{}", d.0, d.1));
                continue;
            }
            "scribble" => {
                // a caller draws on a frame it was given
                if let Some(h) = held.last() {
                    let mut f = h.frame.clone();
                    for b in f.data_mut() {
                        *b ^= 0x5a;
                    }
                }
                continue;
            }
            _ => {}
        }
        let Some(slot) = &slots[k] else { continue };
        let Some(s) = &slot.script else { continue };
        let t = o.a;
        let dims = *dims;
        let (w, h) = dims;
        cx.doing(format!("{} script {} at {t}", o.op, slot.idx));
        let push = |kind, how, data: Result<Vec<u8>, String>, at| {
            let faulted = rt::io_failures() != f0;
            cx.log(format!("c{id} r{r} {how} script {} at {t} {w}x{h} -> {}", slot.idx, match &data { Ok(d) => format!("{:x}", crate::gen::fnv(d)), Err(e) => e.clone() }));
            recs.with(|v| v.push(Rec { script: slot.idx, t, dims, kind, how, data, faulted, at }));
        };
        match o.op.as_str() {
            "bitmaps" => {
                let b = ren.render_frame_bitmaps(s, t);
                let d = b.map(|b| flatten(&b, w, h)).map_err(|e| e.to_string());
                push(Kind::Bitmaps, "bitmaps", d, cx.stamp());
            }
            _ => {
                let p = prev.get(&(r, k)).cloned();
                let (how, res) = match (o.op.as_str(), p) {
                    ("incremental", Some(p)) => ("incremental", ren.render_frame_incremental(s, t, &p)),
                    _ => ("frame", ren.render_frame(s, t)),
                };
                if let Ok(f) = &res {
                    cx.check(f.timestamp() == t && (f.width(), f.height()) == dims, "frame-header", || format!("{how} for {t} at {w}x{h} is labelled {} {}x{}", f.timestamp(), f.width(), f.height()));
                    prev.insert((r, k), f.clone());
                    held.push(Held { frame: f.clone(), copy: f.data().to_vec(), t });
                }
                push(Kind::Frame, how, res.map(|f| f.data().to_vec()).map_err(|e| e.to_string()), cx.stamp());
            }
        }
        cx.doing("");
    }
    for h in &held {
        cx.check(h.frame.data() == &h.copy[..] && h.frame.timestamp() == h.t, "frame-changed", || format!("c{id}: the frame returned for {} changed afterwards", h.t));
    }
}

pub struct Rendering;
pub fn fonts_dir() -> String {
    format!("{}/fonts", env!("CARGO_MANIFEST_DIR"))
}
pub fn prepare_fonts() {
    let d = fonts_dir();
    std::env::set_var("HOME", &d);
    std::env::set_var("FONTCONFIG_FILE", format!("{d}/fonts.conf"));
    let _ = renderer(8, 8); // fills the process-wide font list
}
/// Puts the fonts on the simulated disk.
pub fn mount_fonts() {
    let d = format!("{}/.fonts", fonts_dir());
    rt::quiet(|| {
        for e in std::fs::read_dir(&d).expect("fonts") {
            let p = e.expect("font").path();
            let b = std::fs::read(&p).expect("font");
            fs::put(p.to_str().unwrap(), &b);
        }
    });
    fs::alias(&d);
}
pub fn reference(plan_script: &Scr, t: u32, shift: u32, dims: (u32, u32), kind_bitmaps: bool) -> Result<Vec<u8>, String> {
    let (w, h) = dims;
    let src = plan_script.reduced(t, shift);
    let s = Script::parse(&src).map_err(|e| e.to_string())?;
    let mut r = renderer(w, h);
    if kind_bitmaps {
        r.render_frame_bitmaps(&s, t + shift).map(|b| flatten(&b, w, h)).map_err(|e| e.to_string())
    } else {
        r.render_frame(&s, t + shift).map(|f| f.data().to_vec()).map_err(|e| e.to_string())
    }
}
fn times(s: &Scr) -> Vec<u32> {
    let mut v = vec![];
    for e in &s.events {
        v.extend([e.start, (e.start + e.end) / 2, e.end.saturating_sub(1), e.end, e.start + 10, e.start.saturating_sub(1)]);
    }
    v
}
impl Scenario for Rendering {
    type Plan = Plan;
    fn name(&self) -> &'static str {
        "rendering"
    }
    fn prepare(&self) {
        prepare_fonts()
    }
    fn gen(&self, g: &mut Gen) -> Plan {
        let mut scripts = vec![script(g)];
        for _ in 0..g.range(0, 3) {
            let s = if g.chance(2, 3) {
                let b = g.pick(&scripts).clone();
                variant(g, &b)
            } else {
                script(g)
            };
            scripts.push(s);
        }
        let nc = 1 + g.weighted(&[6, 3, 1]);
        let clients = (0..nc)
            .map(|_| {
                let mut ops = vec![Op { op: "load".into(), r: 0, slot: 0, a: g.idx(scripts.len()) as u32 }];
                let mut cur = [ops[0].a as usize, 0];
                if g.bool() {
                    ops.push(Op { op: "new".into(), r: 0, slot: 0, a: g.below(5) as u32 });
                }
                let many = g.chance(1, 3);
                for _ in 0..g.range(3, if nc > 1 { 7 } else { 12 }) {
                    let r = if many { g.below(2) as u8 } else { 0 };
                    let slot = if many { g.below(2) as u8 } else { 0 };
                    let k = g.weighted(&[10, 5, 4, 6, 3, 1, 1]);
                    let op = ["frame", "bitmaps", "incremental", "load", "context", "scribble", "new"][k];
                    let a = match k {
                        3 => {
                            let i = g.idx(scripts.len());
                            cur[slot as usize] = i;
                            i as u32
                        }
                        4 | 6 => g.below(5) as u32,
                        _ => *g.pick(&times(&scripts[cur[slot as usize]])),
                    };
                    ops.push(Op { op: op.into(), r, slot, a });
                }
                ops
            })
            .collect();
        Plan { scripts, clients, shift: *g.pick(&[0, 100, 5_999, 360_000]) }
    }
    fn tune(&self, _p: &Plan, g: &mut Gen, cfg: &mut Config) {
        cfg.max_steps = 30_000_000;
        cfg.p_switch[rt::P_ALLOC] = *g.pick(&[0, 4, 32, 128]);
        if g.chance(1, 2) {
            for k in [rt::F_OPEN, rt::F_READ_ERR] {
                cfg.p_fault[k] = *g.pick(&[0, 0, 2000, 10000, 30000]);
            }
            for k in [rt::F_READ_SHORT, rt::F_READ_EINTR] {
                cfg.p_fault[k] = *g.pick(&[0, 8000, 20000]);
            }
        }
    }
    fn run(&self, plan: &'static Plan, cx: &'static Cx) {
        mount_fonts();
        let recs: &'static Recs = Shared::new(vec![]);
        for (c, ops) in plan.clients.iter().enumerate() {
            cx.spawn(&format!("client{c}"), move || client(c, ops, plan, recs, cx));
        }
        cx.wait();
        rt::calm();
        // what each picture is, drawn from nothing
        type Key = (usize, u32, (u32, u32), Kind);
        let refs: &'static Shared<BTreeMap<Key, Result<Vec<u8>, String>>> = Shared::new(BTreeMap::new());
        let keys: Vec<Key> = recs.with(|v| {
            let mut k: Vec<Key> = v.iter().map(|r| (r.script, r.t, r.dims, r.kind)).collect();
            k.sort();
            k.dedup();
            k
        });
        for k in keys {
            let (i, t, dims, kind) = k;
            if plan.scripts[i].shown(t).is_empty() {
                refs.with(|m| m.insert(k, Ok(vec![0; (dims.0 * dims.1 * 4) as usize])));
                continue;
            }
            cx.spawn("reference", move || {
                let r = reference(&plan.scripts[i], t, plan.shift, dims, kind == Kind::Bitmaps);
                refs.with(|m| m.insert(k, r));
            });
            cx.wait();
        }
        let all = recs.with(std::mem::take);
        let refs = refs.with(std::mem::take);
        let mut drawn = std::collections::BTreeSet::new();
        for r in &all {
            let want = &refs[&(r.script, r.t, r.dims, r.kind)];
            let what = || format!("#{} {} of script {} at {} ({}x{})", r.at, r.how, r.script, r.t, r.dims.0, r.dims.1);
            match (&r.data, want) {
                (Ok(a), Ok(b)) => {
                    if let Some(d) = diff(a, b, r.dims.0) {
                        cx.fail(format!("{}-depends-on-history", r.how), format!("{} is not what a new renderer draws: {d}\n{}", what(), plan.scripts[r.script].reduced(r.t, 0)));
                    }
                    if a.iter().any(|x| *x != 0) {
                        drawn.insert(crate::gen::fnv(a));
                    }
                }
                (Err(_), _) if r.faulted => cx.probe("font-unreadable"),
                (Err(a), Err(b)) if a == b => cx.probe("refused"),
                (a, b) => cx.fail(format!("{}-result", r.how), format!("{}: {:?} against {:?} from a new renderer", what(), a.as_ref().map(|v| v.len()), b.as_ref().map(|v| v.len()))),
            }
        }
        // the bitmap list and the composited frame are the same picture
        for ((i, t, d, k), a) in &refs {
            if *k == Kind::Frame {
                if let (Ok(a), Some(Ok(b))) = (a, refs.get(&(*i, *t, *d, Kind::Bitmaps))) {
                    let m = a.iter().zip(b).map(|(x, y)| x.abs_diff(*y)).max().unwrap_or(0);
                    cx.probe(if m == 0 { "bitmaps-equal" } else { "bitmaps-close" });
                    // layers are blended in another order, which rounds differently; blurred
                    // ones hold more colour than alpha, and saturate: only their alpha compares
                    let soft = plan.scripts[*i].shown(*t).iter().any(|e| e.text.contains("\\b"));
                    let m = a.iter().zip(b).skip(if soft { 3 } else { 0 }).step_by(if soft { 4 } else { 1 }).map(|(x, y)| x.abs_diff(*y)).max().unwrap_or(0);
                    if m > 8 {
                        cx.fail("bitmaps-not-the-frame", format!("script {i} at {t} ({}x{}): {}\n{}", d.0, d.1, diff(a, b, d.0).unwrap_or_default(), plan.scripts[*i].reduced(*t, 0)));
                    }
                }
            }
        }
        if drawn.len() >= 2 {
            cx.nontrivial();
        }
    }
}
pub fn check() -> Check {
    Check {
        id: "C15",
        real: "Renderer, software pipeline and backend, event selector, all caches, font lookup and shaping, ass-core parser (compiled from the tree)",
        stub: "callers (generated), font files' disk (simulated, failing), GPU backend not run",
        rule: "at least two different non-empty pictures were drawn",
        parts: vec![part(Rendering, 30_000, 2_000_000)],
    }
}
