//! Damaged files: subtitle files on a disk that flips bits, loses, repeats and mixes up blocks and
//! tears writes, and text mangled on its way (wrong encodings, numbers that overflow, tags cut
//! short). Whatever is read back is then parsed, analysed, edited and drawn: all of it is an answer
//! or an error, given in bounded time and memory, and damage to one line stays there.
use super::{history, render, script, storage, structured};
use crate::engine::{part, Check, Cx, Scenario, Shared};
use crate::gen::Gen;
use crate::rt::{self, fs, Config};
use ass_core::analysis::events as an;
use ass_core::analysis::linting::{lint_script, LintConfig};
use ass_core::analysis::{ScriptAnalysis, StyleAnalyzer};
use ass_core::parser::ast::Section;
use ass_core::parser::incremental::TextChange;
use ass_core::parser::script::LineContent;
use ass_core::parser::streaming::StreamingParser;
use ass_core::parser::Script;
use ass_core::plugin::{self, ExtensionRegistry};
use ass_core::utils as cu;
use ass_core::AssTokenizer;
use ass_editor::extensions::builtin::{AutoCompleteExtension, SyntaxHighlightExtension};
use ass_editor::utils::search::{create_search, SearchOptions, SearchScope};
use ass_editor::utils::validator::{LazyValidator, ValidatorConfig};
use ass_editor::{EditorDocument, Position, Range};
use ass_renderer::{BackendType, DebugPlayer, RenderContext, Renderer};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hit {
    pub kind: String,
    pub a: u64,
    pub b: u64,
    pub s: String,
}
const NUMS: &[&str] = &[
    "", "-1", "0", "-0", "1", "1e9", "1e38", "1e400", "-1e38", "nan", "inf", "-inf", "4294967295", "4294967296", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999999", "0.0000001", "1e-40", "65535", "65536", "1000000",
    "100000", "20000", "8192", "0x10", "１２", "1.5.2", "é", "255", "256", "300", "18446744073709551615", "-9223372036854775808", "9", "10", "100", "5.5", "+3", "1e6", "35791394", "596523", "11930464", "71582789",
];
const TIMES: &[&str] = &[
    "0:00:00.00", "9999999:99:99.99", "0:00:00.999999999999", "-1:00:00.00", ":::", "0:0", "1:60:60.100", "11930:27:52.96", "11930:27:52.95", "5965:13:56.47", "5965:13:56.48", "596523:14:07.99", "0:00:00", "0:00:00.5", "0:00:01.é0", "é:00:01.00", "0:00:é1.00", "0:00:0１.00", "", " ", "0:00:01,00", "4294967295:00:00.00",
    "0:00:00.0\u{301}",
];
const TOKENS: &[&str] = &[
    "{\\t(", "{\\t(0,0,", "{\\t(\\fs", "{\\t(0,100,0,\\fs40)}", "{\\t(\\t(\\t(\\fs9)))}", "{\\t(1e9,-1e9,\\frz1e38)}", "{\\clip(1,2", "{\\clip(m", "{\\clip(1,m 0 0 l 1e9 0)}", "{\\iclip(-1e9,-1e9,1e9,1e9)}", "{\\p1}", "{\\p0}", "{\\p99}", "{\\p-1}", "{\\pbo1e9}", "{\\k999999999}", "{\\k-5}",
    "{\\kf4294967295}", "{\\ko1}{\\kt0}", "{\\fs1000000}", "{\\fs-20}", "{\\fs0}", "{\\fs+20}", "{\\fscx1000000}", "{\\fscy-100}", "{\\fscx0}", "{\\blur1000}", "{\\blur-1}", "{\\be1000000}", "{\\be999}", "{\\bord1000}", "{\\bord-1}", "{\\xbord1e6}", "{\\shad-1e9}", "{\\shad100000}", "{\\yshad1e6}",
    "{\\frz1e38}", "{\\frx90}", "{\\frx89.999\\fry90}", "{\\fax1e9}", "{\\fay-1e9}", "{\\fsp1e9}", "{\\fsp-1000}", "{\\fn@Go}", "{\\fn}", "{\\r}", "{\\rNone}", "{\\an0}", "{\\an10}", "{\\a12}", "{\\c&H", "{\\c&HFFFFFFFFFF&}", "{\\c&H-1&}", "{\\1c&Hé&}", "{\\alpha&HZZ&}", "{\\1a&HFFF&}", "{\\move(1,2)}",
    "{\\move(1,2,3,4,5,4)}", "{\\move(0,0,1e30,1e30,0,1)}", "{\\pos(1e30,-1e30)}", "{\\pos(nan,inf)}", "{\\pos()}", "{\\org(1e30,0)}", "{\\fad(-1,-1)}", "{\\fad(4294967295,4294967295)}", "{\\fade(1,2,3,4,5,6,7)}", "{\\fade(999,999,999,9,8,7,6)}", "{\\q9}", "{\\fe999}", "{\\b99999}", "{\\", "{\\}", "{}", "{{", "}}",
    "{é}", "{\\é}", "{\\fné\\b1}", "{\\pé}", "m 0 0 b 1e30 0 0 1e30 5 5", "m 0 0 l 100000 100000", "m", "m 1", "s 1 2 3 4 5 6 p 7 8 c", "b 1 2 3", "n 1 1 m 2 2", "m 0 0 l 1 é", "m -1e9 -1e9 l 1e9 1e9 0 5", "\u{0}", "\u{feff}", "\u{202e}", "\u{200d}", "é", "😀", "日本", "\u{301}", "\u{300}\u{301}", "İ", "ß", "ﬁ",
    "}", "{", "\\", "\\N", "\\n", "\\h", "(", ")", ",", ":", ";", "!", "[", "]", "[Events]\n", "[Events", "[]", "[\n", "\n[V4+ Styles]\n", "[V4 Styles]\n", "[Fonts]\nfontname:", "\nfilename:", "[Graphics]\nfilename: a\n", "!:", "\r", "\n", "\t", "Dialogue:", "Dialogue: \n", "\nFormat:", "Format: ,\n", "Format: Text, Start\n",
    "Format: Name\n", "Style:", "Style: ,\n", "Style: *Default", "-->", "00:00:01,000 --> 00:00:00,000", "WEBVTT", "NOTE", "<b>", "</", "<", "<c.é>", "&H", "&", "ScriptType: v9", "WrapStyle: 7", "PlayResX: 0", "PlayResY: -1", "PlayResX: 1", "PlayResY: 1000000", "LayoutResX: 1", "Timer: 0", "\u{85}", "\u{2028}", "\u{a0}", "\u{1}",
    "`````", "a\n`\n", "~~~~", " !\n", "\"#$%&\n", "\u{7f}", "=====", "Banner;0;", "Scroll up;0;0;0;0", "Karaoke",
];
fn hit(g: &mut Gen) -> Hit {
    let k = g.weighted(&[6, 2, 3, 3, 2, 2, 14, 12, 4, 3, 2, 2, 3, 2, 4]);
    let kind = ["flip", "zero", "truncate", "lose", "repeat", "swap", "number", "put", "time", "field", "line-lose", "line-repeat", "line-swap", "amplify", "mojibake"][k];
    let s = match kind {
        "number" => g.pick(NUMS).to_string(),
        "put" => {
            if g.chance(1, 4) {
                format!("{}{}", g.pick(TOKENS), g.pick(TOKENS))
            } else {
                g.pick(TOKENS).to_string()
            }
        }
        "time" => g.pick(TIMES).to_string(),
        "field" => match g.below(3) {
            0 => g.pick(NUMS).to_string(),
            1 => g.pick(TOKENS).to_string(),
            _ => g.pick(&["", "Default", "é", " ", "&H00FF", "&HFFFFFFFFF", "Go", "*"]).to_string(),
        },
        "amplify" => g.pick(&["{\\t(", "{", "(", "\\", "é", "{\\b1}", "a ", "\\N", "[Events]\n", "{\\fs20}x", "m 0 0 l 9 9 ", "Dialogue: ", ",", "\n", "\t", "😀", "\u{301}", "{\\k1}a", "}", "0", "!"]).to_string(),
        _ => String::new(),
    };
    Hit { kind: kind.into(), a: g.u64() >> 12, b: g.u64() >> 12, s }
}
pub fn hits(g: &mut Gen) -> Vec<Hit> {
    let n = [1, 1, 2, 3, 6][g.weighted(&[5, 4, 3, 2, 1])];
    (0..n).map(|_| hit(g)).collect()
}
/// Spans of bytes satisfying `f`, in order.
fn tokens(b: &[u8], f: impl Fn(u8) -> bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if f(b[i]) {
            let s = i;
            while i < b.len() && f(b[i]) {
                i += 1;
            }
            v.push((s, i));
        } else {
            i += 1;
        }
    }
    v
}
fn splice(b: &mut Vec<u8>, (s, e): (usize, usize), new: &[u8]) {
    b.splice(s..e, new.iter().copied());
}
fn at(n: usize, a: u64) -> usize {
    if n == 0 { 0 } else { a as usize % n }
}
pub fn apply(b: &mut Vec<u8>, h: &Hit) {
    let n = b.len();
    if n == 0 && h.kind != "put" {
        return;
    }
    let (p, q) = (at(n, h.a), at(n, h.b));
    let (lo, hi) = (p.min(q), p.max(q));
    // blocks are small, as the files are
    let len = 1 + (h.b >> 8) as usize % 48;
    let nth = |v: &[(usize, usize)]| v.get(at(v.len(), h.a)).copied();
    let lines = || {
        let mut v = vec![];
        let mut s = 0;
        for (i, x) in b.iter().enumerate() {
            if *x == b'\n' {
                v.push((s, i + 1));
                s = i + 1;
            }
        }
        if s < n {
            v.push((s, n));
        }
        v
    };
    match h.kind.as_str() {
        "flip" => b[p] ^= 1 << (h.b % 8),
        "zero" => b[p..(p + len).min(n)].fill(0),
        "truncate" => b.truncate(p),
        "lose" => splice(b, (p, (p + len).min(n)), &[]),
        "repeat" => {
            let c = b[p..(p + len).min(n)].to_vec();
            splice(b, (q, q), &c);
        }
        "swap" => {
            let c = b[hi..(hi + len).min(n)].to_vec();
            let d = b[lo..(lo + len).min(n)].to_vec();
            let m = c.len().min(d.len()).min(hi - lo);
            b[lo..lo + m].copy_from_slice(&c[..m]);
            b[hi..hi + m].copy_from_slice(&d[..m]);
        }
        "number" => {
            if let Some(t) = nth(&tokens(b, |x| x.is_ascii_digit() || x == b'.')) {
                splice(b, t, h.s.as_bytes());
            }
        }
        "time" => {
            let v: Vec<_> = tokens(b, |x| x.is_ascii_digit() || x == b'.' || x == b':').into_iter().filter(|(s, e)| b[*s..*e].contains(&b':') && e - s > 5).collect();
            if let Some(t) = nth(&v) {
                splice(b, t, h.s.as_bytes());
            }
        }
        "field" => {
            if let Some(t) = nth(&tokens(b, |x| x != b',' && x != b'\n')) {
                splice(b, t, h.s.as_bytes());
            }
        }
        "put" => splice(b, (p, p), h.s.as_bytes()),
        "amplify" => {
            let k = 1 + h.b as usize % [40, 400, 3000][(h.b >> 16) as usize % 3];
            splice(b, (p, p), h.s.repeat(k).as_bytes());
        }
        "line-lose" => {
            let l = lines();
            splice(b, nth(&l).unwrap(), &[]);
        }
        "line-repeat" => {
            let l = lines();
            let (s, e) = nth(&l).unwrap();
            let c = b[s..e].to_vec();
            let d = l[at(l.len(), h.b)].0;
            splice(b, (d, d), &c);
        }
        "line-swap" => {
            let mut l: Vec<Vec<u8>> = lines().iter().map(|(s, e)| b[*s..*e].to_vec()).collect();
            let (i, j) = (at(l.len(), h.a), at(l.len(), h.b));
            l.swap(i, j);
            *b = l.concat();
        }
        "mojibake" => {
            let e = (p + len).min(n);
            let c: String = b[p..e].iter().map(|x| *x as char).collect();
            splice(b, (p, e), c.as_bytes());
        }
        _ => {}
    }
}
fn valid(text: &str, mut p: usize) -> usize {
    p = p.min(text.len());
    while !text.is_char_boundary(p) {
        p -= 1;
    }
    p
}

// ------------------------------------------------------------------ the files
fn file(g: &mut Gen) -> (String, Vec<u8>) {
    match g.below(12) {
        0 => ("srt".into(), storage::sample(g, false).into_bytes()),
        1 => ("vtt".into(), storage::sample(g, true).into_bytes()),
        2 => ("ass".into(), script::any_text(g).into_bytes()),
        3 | 4 => ("ass".into(), structured::gen_script(g).into_bytes()),
        5 => {
            let mut s = structured::gen_script(g);
            s += "\n[Aegisub Project Garbage]\nLast Style Storage: Default\nVideo File: a.mkv\nActive Line: 3\n\n[Aegisub Extradata]\nData: 0,a,u!x\n";
            ("ass".into(), s.into_bytes())
        }
        6 | 7 => ("ass".into(), script::script(g).into_bytes()),
        _ => ("ass".into(), render::any_script(g).text().into_bytes()),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    pub op: String,
    pub a: u64,
    pub b: u64,
    pub s: String,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub kind: String,
    pub file: Vec<u8>,
    pub hits: Vec<Hit>,
    pub steps: Vec<Step>,
}
/// The file as the disk gives it back.
fn read_back(plan: &Plan, cx: &Cx) -> Vec<u8> {
    rt::quiet(|| {
        let mut b = plan.file.clone();
        for h in &plan.hits {
            apply(&mut b, h);
            cx.probe(&format!("damage:{}", h.kind));
        }
        b.truncate(400_000);
        b
    })
}
fn nasty(g: &mut Gen) -> String {
    match g.below(5) {
        0 => g.pick(NUMS).to_string(),
        1 => g.pick(TIMES).to_string(),
        2 => script::frag(g),
        3 => script::event_line(g),
        _ => g.pick(TOKENS).to_string(),
    }
}

// ------------------------------------------------------------------ reading
const READS: &[&str] = &["contain", "contain", "import", "analyse", "lint", "serialise", "tokenise", "media", "stream", "reparse", "partial", "lines", "batch", "registry", "spans", "text", "utf8", "formats"];

pub struct Reading;
impl Scenario for Reading {
    type Plan = Plan;
    fn name(&self) -> &'static str {
        "reading"
    }
    fn gen(&self, g: &mut Gen) -> Plan {
        let (kind, file) = file(g);
        let hits = hits(g);
        let n = g.range(1, 5);
        let steps = (0..n).map(|_| Step { op: g.pick(READS).to_string(), a: g.u64() >> 12, b: g.u64() >> 12, s: nasty(g) }).collect();
        Plan { kind, file, hits, steps }
    }
    fn tune(&self, _p: &Plan, g: &mut Gen, cfg: &mut Config) {
        if g.chance(1, 4) {
            for k in [rt::F_READ_SHORT, rt::F_READ_EINTR, rt::F_READ_ERR] {
                cfg.p_fault[k] = *g.pick(&[0, 4000, 20000]);
            }
        }
        cfg.p_switch[rt::P_ALLOC] = 0;
        cfg.max_steps = 100_000_000;
    }
    fn run(&self, plan: &'static Plan, cx: &'static Cx) {
        let b = read_back(plan, cx);
        rt::quiet(|| fs::put(&format!("/simfs/in.{}", plan.kind), &b));
        cx.spawn("reader", move || reader(plan, cx));
        cx.wait();
    }
}
fn reader(plan: &'static Plan, cx: &'static Cx) {
    let path = format!("/simfs/in.{}", plan.kind);
    for s in plan.steps.iter() {
        rt::point();
        cx.doing(format!("{} {} {}", s.op, s.a, s.b));
        let Ok(b) = std::fs::read(&path) else {
            cx.probe("unreadable");
            continue;
        };
        let (text, _) = cu::recover_utf8(&b);
        let r = read_step(&s.op, s, &b, &text, &path, cx);
        cx.log(format!("{}: {r}", s.op));
        cx.nontrivial();
    }
}
/// Every span the parser reports lies in the source, and holds what it is said to hold.
fn spans(text: &str, s: &Script, cx: &Cx) {
    let inside = |x: &str| {
        let (b, e) = (text.as_ptr() as usize, text.as_ptr() as usize + text.len());
        x.is_empty() || (x.as_ptr() as usize >= b && x.as_ptr() as usize + x.len() <= e)
    };
    let starts: Vec<usize> = std::iter::once(0).chain(text.match_indices('\n').map(|(i, _)| i + 1)).collect();
    let lines: Vec<&str> = text.split('\n').collect();
    let placed = |what: &str, sp: &ass_core::parser::ast::Span| {
        let l = starts.partition_point(|&x| x <= sp.start);
        cx.check(sp.line as usize == l && sp.column as usize == sp.start - starts[l - 1] + 1, "span-line", || format!("{what} at byte {} is said to be in line {} column {}, is in line {l} column {}", sp.start, sp.line, sp.column, sp.start - starts[l - 1] + 1));
    };
    for sec in s.sections() {
        if let Section::ScriptInfo(i) = sec {
            if i.span.start < text.len() {
                placed("script info", &i.span);
            }
        }
        if let Some(sp) = sec.span() {
            cx.check(sp.start <= sp.end && sp.end <= text.len() && text.is_char_boundary(sp.start) && text.is_char_boundary(sp.end), "span-outside", || format!("{:?} spans {sp:?} of {} bytes", sec.section_type(), text.len()));
        }
        match sec {
            Section::Events(v) => {
                for e in v {
                    let f = [e.layer, e.start, e.end, e.style, e.name, e.margin_l, e.margin_r, e.margin_v, e.effect, e.text];
                    cx.check(e.span.start <= e.span.end && e.span.end <= text.len() && text.get(e.span.start..e.span.end).is_some(), "span-outside", || format!("event spans {:?} of {} bytes", e.span, text.len()));
                    let t = &text[e.span.start..e.span.end];
                    placed("an event", &e.span);
                    cx.check(t.contains(e.text), "span-wrong", || format!("event {f:?} is said to be at {t:?}"));
                }
            }
            Section::Styles(v) => {
                for e in v {
                    cx.check(e.span.start <= e.span.end && text.get(e.span.start..e.span.end).is_some_and(|t| t.contains(e.name)), "span-wrong", || format!("style {:?} is said to be at {:?}", e.name, e.span));
                    placed("a style", &e.span);
                }
            }
            Section::ScriptInfo(i) => {
                for (k, v) in &i.fields {
                    cx.check(inside(k) && inside(v), "span-outside", || format!("field {k:?} is not in the source"));
                }
            }
            Section::Fonts(v) => v.iter().for_each(|f| placed("a font", &f.span)),
            Section::Graphics(v) => v.iter().for_each(|f| placed("a picture", &f.span)),
        }
    }
    let n = text.lines().count() + 1;
    for i in s.issues() {
        cx.check(i.line <= n, "issue-line", || format!("issue at line {} of {n}: {}", i.line, i.message));
        let l = lines.get(i.line.wrapping_sub(1)).copied().unwrap_or("");
        if i.message.starts_with("Invalid script info line") {
            cx.check(!l.contains(':') && !l.trim().is_empty(), "issue-place", || format!("line {} {l:?}: {}", i.line, i.message));
        }
        if i.message.contains("Unknown section") {
            cx.check(l.contains('['), "issue-place", || format!("line {} {l:?}: {}", i.line, i.message));
        }
        if i.message.contains("Expected section header") {
            cx.check(!l.trim().is_empty() && !l.trim_start().starts_with('['), "issue-place", || format!("line {} {l:?}: {}", i.line, i.message));
        }
    }
}
/// What the lines of a script say, by line number.
fn lines_say(text: &str, s: &Script) -> Vec<(usize, String)> {
    let starts: Vec<usize> = std::iter::once(0).chain(text.match_indices('\n').map(|(i, _)| i + 1)).collect();
    let line = |at: usize| starts.partition_point(|&x| x <= at) - 1;
    let mut v = vec![];
    for (n, sec) in s.sections().iter().enumerate() {
        match sec {
            Section::Events(es) => {
                for e in es {
                    v.push((line(e.span.start), format!("{n} {:?} {:?}", e.event_type, [e.layer, e.start, e.end, e.style, e.name, e.margin_l, e.margin_r, e.margin_v, e.effect, e.text])));
                }
            }
            Section::Styles(es) => {
                for e in es {
                    v.push((line(e.span.start), format!("{n} {:?}", [e.name, e.fontname, e.fontsize, e.primary_colour, e.bold, e.scale_x, e.outline, e.shadow, e.alignment, e.encoding])));
                }
            }
            Section::ScriptInfo(i) => v.push((usize::MAX, format!("{n} {:?}", i.fields))),
            Section::Fonts(f) => v.extend(f.iter().map(|f| (usize::MAX, format!("{n} {:?} {:?}", f.filename, f.data_lines)))),
            Section::Graphics(f) => v.extend(f.iter().map(|f| (usize::MAX, format!("{n} {:?} {:?}", f.filename, f.data_lines)))),
        }
    }
    v
}
/// Garbling one event or style line loses that line at most.
fn contain(text: &str, st: &Step, cx: &Cx) -> String {
    let Ok(s) = Script::parse(text) else { return "refused".into() };
    let was = lines_say(text, &s);
    let named: Vec<usize> = was.iter().filter(|x| x.0 != usize::MAX).map(|x| x.0).collect();
    let mut junk: String = st.s.chars().filter(|c| !matches!(c, '\n' | '\r')).collect();
    let head = junk.trim_start().to_lowercase();
    if head.starts_with('[') || head.starts_with("format") {
        junk.insert(0, ';');
    }
    if named.is_empty() {
        return "no lines".into();
    }
    let k = named[at(named.len(), st.a)];
    let full: Vec<&str> = text.split_inclusive('\n').collect();
    let old = full[k].trim_end_matches(['\n', '\r']);
    let p = valid(old, at(old.len() + 1, st.b));
    let line = match st.b % 4 {
        0 => junk,
        1 => old[..p].to_string(),
        2 => format!("{}{junk}", &old[..p]),
        _ => format!("{}{junk}{}", &old[..p], &old[p..]),
    };
    if line.trim_start().starts_with('[') {
        return "a section".into();
    }
    let end = &full[k][old.len()..];
    let new: String = full[..k].iter().copied().chain([line.as_str(), end]).chain(full[k + 1..].iter().copied()).collect();
    let Ok(z) = Script::parse(&new) else {
        cx.fail("damage-spreads", format!("with line {k} {old:?} as {line:?} nothing can be read"));
        return String::new();
    };
    let a: Vec<_> = was.iter().filter(|x| x.0 != k).collect();
    let now = lines_say(&new, &z);
    let b: Vec<_> = now.iter().filter(|x| x.0 != k).collect();
    cx.check(a == b, "damage-spreads", || {
        let i = (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i)).unwrap();
        format!("with line {k} {old:?} as {line:?}, {:?} is read as {:?}", a.get(i), b.get(i))
    });
    format!("line {k} of {}", full.len())
}
fn registry() -> ExtensionRegistry {
    let mut r = ExtensionRegistry::new();
    let all = [
        plugin::create_alignment_handlers(),
        plugin::create_special_handlers(),
        plugin::create_clipping_handlers(),
        plugin::create_font_handlers(),
        plugin::create_transform_handlers(),
        plugin::create_misc_handlers(),
        plugin::create_position_handlers(),
        plugin::create_animation_handlers(),
        plugin::create_karaoke_handlers(),
        plugin::create_formatting_handlers(),
        plugin::create_advanced_handlers(),
        plugin::create_color_handlers(),
    ];
    for h in all.into_iter().flatten() {
        let _ = r.register_tag_handler(h);
    }
    for p in plugin::sections::create_aegisub_processors() {
        let _ = r.register_section_processor(p);
    }
    r
}
fn each_text(text: &str, mut f: impl FnMut(&str)) {
    let Ok(s) = Script::parse(text) else { return };
    for sec in s.sections() {
        if let Section::Events(v) = sec {
            for e in v.iter().take(40) {
                f(e.text);
            }
        }
    }
}
fn read_step(op: &str, st: &Step, b: &[u8], text: &str, path: &str, cx: &Cx) -> String {
    let ok = |x: bool| if x { "ok" } else { "refused" }.to_string();
    match op {
        "contain" => contain(text, st, cx),
        "import" => {
            let d = EditorDocument::from_file(path);
            let e = ass_editor::utils::formats::import_from_file(path);
            format!("{} {}", d.map_or("refused".into(), |d| d.len_lines().to_string()), e.map_or("refused".into(), |d| d.len_lines().to_string()))
        }
        "formats" => {
            use ass_editor::utils::formats::{ConversionOptions, FormatConverter, SubtitleFormat};
            let f = [SubtitleFormat::ASS, SubtitleFormat::SRT, SubtitleFormat::WebVTT, SubtitleFormat::SSA, SubtitleFormat::PlainText][st.a as usize % 5];
            let doc = if st.b & 1 == 0 { FormatConverter::import(text, Some(f)) } else { FormatConverter::import(text, None) };
            let mut out = ok(doc.is_ok());
            if let Ok(t) = doc {
                if let Ok(d) = EditorDocument::from_content(&t) {
                    for f in [SubtitleFormat::ASS, SubtitleFormat::SRT, SubtitleFormat::WebVTT, SubtitleFormat::SSA, SubtitleFormat::PlainText] {
                        let r = FormatConverter::export(&d, f, &ConversionOptions { strip_formatting: st.b & 2 == 2, ..Default::default() });
                        out += &format!(" {}", r.map_or(0, |s| s.len()));
                    }
                }
            }
            for k in 0..3 {
                let i = storage::importer(k);
                if let Ok((d, _)) = i.import_from_reader(&mut &b[..], &Default::default()) {
                    for j in 0..3 {
                        let mut o = vec![];
                        let _ = storage::exporter(j).export_to_writer(&d, &mut o, &Default::default());
                    }
                }
            }
            out
        }
        "spans" | "analyse" | "lint" | "serialise" | "media" => {
            let Ok(s) = Script::parse(text) else { return "refused".into() };
            match op {
                "spans" => {
                    spans(text, &s, cx);
                    let _ = s.validate_spans();
                    let sp = ass_core::Spans::new(text);
                    for sec in s.sections().iter() {
                        if let Section::Events(v) = sec {
                            for e in v.iter().take(20) {
                                let at = (e.text.as_ptr() as usize).wrapping_sub(text.as_ptr() as usize).min(text.len());
                                let line = text.as_bytes()[..at].iter().filter(|b| **b == b'\n').count() + 1;
                                let _ = sp.span_column(e.text);
                                cx.check(e.text.is_empty() || sp.span_offset(e.text) == Some(at) && sp.span_line(e.text) == Some(line), "span-lookup", || format!("{:?} at {at} in line {line}: {:?} {:?}", e.text, sp.span_offset(e.text), sp.span_line(e.text)));
                            }
                        }
                    }
                    for t in s.section_boundaries() {
                        let _ = s.section_at_offset(t.1.start);
                    }
                    format!("{} sections {} issues", s.sections().len(), s.issues().len())
                }
                "analyse" => {
                    let a = ScriptAnalysis::analyze(&s);
                    let mut n = 0;
                    if let Ok(a) = &a {
                        let _ = (a.performance_summary(), a.has_critical_issues());
                        n = a.dialogue_info().len();
                        for x in a.resolved_styles() {
                            let mut y = x.clone();
                            y.apply_resolution_scaling(st.a as f32 / 7.0, 0.5);
                        }
                        let mut d = a.dialogue_info().to_vec();
                        an::sort_events_by_time(&mut d);
                        let _ = (an::calculate_total_duration(&d), an::calculate_average_duration(&d), an::find_overlapping_dialogue_events(&d).len(), an::find_events_in_range(&d, 0, st.a as u32).len());
                    }
                    let z = StyleAnalyzer::new(&s);
                    let _ = (z.validate_styles().len(), z.conflicts().len());
                    for sec in s.sections() {
                        if let Section::Events(v) = sec {
                            let _ = an::find_overlapping_events(v);
                            for e in v {
                                let _ = (e.start_time_cs(), e.end_time_cs(), e.duration_cs());
                            }
                        }
                    }
                    format!("{} {n}", ok(a.is_ok()))
                }
                "lint" => {
                    let r = lint_script(&s, &LintConfig::default());
                    let q = lint_script(&s, &LintConfig::default().with_strict_compliance(true).with_max_issues(1 + st.a as usize % 5));
                    format!("{:?} {:?}", r.map(|v| v.len()).ok(), q.map(|v| v.len()).ok())
                }
                "serialise" => {
                    let o = s.to_ass_string();
                    let t = Script::parse(&o).map(|x| x.to_ass_string()).ok();
                    format!("{} {}", o.len(), t.map_or(0, |x| x.len()))
                }
                _ => {
                    let mut n = 0;
                    for sec in s.sections() {
                        match sec {
                            Section::Fonts(v) => v.iter().for_each(|f| n += f.decode_data().map_or(0, |d| d.len())),
                            Section::Graphics(v) => v.iter().for_each(|f| n += f.decode_data().map_or(0, |d| d.len())),
                            Section::ScriptInfo(i) => {
                                let _ = (i.play_resolution(), i.layout_resolution(), i.wrap_style(), i.title(), i.to_ass_string());
                            }
                            _ => {}
                        }
                    }
                    let l: Vec<&str> = text.lines().collect();
                    n += cu::decode_uu_data(l.iter().copied()).map_or(0, |d| d.len());
                    n.to_string()
                }
            }
        }
        "tokenise" => {
            let mut t = AssTokenizer::new(text);
            let mut n = 0usize;
            let mut bytes = 0usize;
            loop {
                match t.next_token() {
                    Ok(Some(k)) => {
                        n += 1;
                        bytes += k.span.len();
                    }
                    Ok(None) => break,
                    Err(_) => {
                        bytes = 0;
                        break;
                    }
                }
                cx.check(n <= 8 * text.len() + 64, "tokens-without-end", || format!("{n} tokens of {} bytes", text.len()));
            }
            cx.check(bytes <= text.len(), "tokens-overlap", || format!("tokens cover {bytes} of {} bytes", text.len()));
            let _ = AssTokenizer::new(text).tokenize_all();
            format!("{n}")
        }
        "stream" => {
            let mut p = StreamingParser::new();
            let mut n = 0;
            let k = 1 + st.a as usize % 64;
            for c in b.chunks(k.max(b.len() / 200)) {
                n += p.feed_chunk(c).map_or(1_000_000, |v| v.len());
            }
            let taken = n < 1_000_000;
            let end = p.finish().is_ok();
            // however the bytes arrive, text is taken and anything else is not
            let legible = std::str::from_utf8(b).is_ok();
            cx.check((taken && end) == legible, "pieces-differ", || format!("in pieces of {k} bytes {}, at once {}", ok(taken && end), ok(legible)));
            format!("{n} {}", ok(end))
        }
        "reparse" | "partial" => {
            let Ok(s) = Script::parse(text) else { return "refused".into() };
            let p = valid(text, at(text.len() + 1, st.a));
            let e = valid(text, p + st.b as usize % 60);
            let e = e.max(p);
            if op == "partial" {
                return ok(s.parse_partial(p..e, &st.s).is_ok());
            }
            let new = format!("{}{}{}", &text[..p], st.s, &text[e..]);
            let c = TextChange { range: p..e, new_text: st.s.clone(), line_range: ass_core::parser::incremental::calculate_line_range(text, p..e) };
            let _ = s.affected_sections(&c);
            let new: &'static str = Box::leak(new.into_boxed_str());
            let old: &'static str = Box::leak(text.to_string().into_boxed_str());
            let s = Script::parse(old).unwrap();
            let r = s.parse_incremental(new, &c);
            if let (Ok(a), Ok(z)) = (&r, Script::parse(new)) {
                let _ = (ass_core::parser::calculate_delta(&s, a), a.diff(&z).len(), a.to_ass_string());
            }
            ok(r.is_ok())
        }
        "lines" | "batch" => {
            let text: &'static str = Box::leak(text.to_string().into_boxed_str());
            let line: &'static str = Box::leak(st.s.clone().into_boxed_str());
            let Ok(mut s) = Script::parse(text) else { return "refused".into() };
            s.enable_change_tracking();
            let p = at(text.len() + 8, st.a);
            if op == "lines" {
                let r = s.update_line_at_offset(p, line, st.b as u32 % 50);
                let a = s.parse_line_auto(line, 3).is_ok();
                let mut n = 0;
                for l in text.lines().take(40) {
                    n += s.parse_line_auto(l, 1).is_ok() as usize;
                    if let Ok((_, LineContent::Event(e))) = s.parse_line_auto(l, 1) {
                        n += s.add_event(*e);
                    }
                    if let Ok((_, LineContent::Style(e))) = s.parse_line_auto(l, 1) {
                        n += s.add_style(*e);
                    }
                }
                let k = s.sections().len();
                let rm = s.remove_section(st.b as usize % (k + 1)).is_ok();
                return format!("{} {a} {n} {rm} {} {}", ok(r.is_ok()), s.change_count(), s.to_ass_string().len());
            }
            let ops = text
                .match_indices('\n')
                .take(30)
                .map(|(i, _)| ass_core::parser::script::UpdateOperation { offset: i + 1, new_line: line, line_number: 1 })
                .collect();
            let r = s.batch_update_lines(ops);
            format!("{} {} {}", r.updated.len(), r.failed.len(), s.to_ass_string().len())
        }
        "registry" => {
            let reg = registry();
            let r = Script::builder().with_registry(&reg).parse(text);
            let a = r.as_ref().ok().map(|s| ScriptAnalysis::analyze_with_registry(s, Some(&reg), Default::default()).is_ok());
            let mut n = 0;
            each_text(text, |t| {
                n += an::TextAnalysis::analyze_with_registry(t, Some(&reg)).map_or(0, |x| x.override_tags().len());
                for part in t.split('\\').skip(1).take(50) {
                    let k = part.find(|c: char| !c.is_ascii_alphanumeric()).unwrap_or(part.len());
                    for j in 1..=k.min(6) {
                        let _ = reg.process_tag(&part[..j], &part[j..]);
                    }
                }
            });
            for h in reg.tag_handler_names() {
                let _ = reg.process_tag(h, &st.s);
            }
            let l: Vec<&str> = text.lines().collect();
            for x in reg.section_processor_names() {
                let _ = reg.process_section(x, &st.s, &l);
            }
            format!("{} {a:?} {n}", ok(r.is_ok()))
        }
        "text" => {
            let mut n = 0;
            each_text(text, |t| {
                if let Ok(a) = an::TextAnalysis::analyze(t) {
                    n += a.override_tags().len() + a.diagnostics().len() + a.plain_text().len();
                    let _ = an::calculate_animation_score(a.override_tags());
                }
                let w = an::wrap_opportunities(t);
                n += w.len();
                for o in an::soft_wrap_offsets(t) {
                    cx.check(t.is_char_boundary(o), "wrap-inside-char", || format!("{o} in {t:?}"));
                }
                let l = an::TextWithLineBreaks::from_text(t, false);
                let _ = (l.get_break_type_at(st.a as usize % 9), l.is_nbsp_at(3), an::TextWithLineBreaks::from_text(t, true));
            });
            for x in [st.s.as_str(), text.lines().next().unwrap_or("")] {
                let _ = (cu::parse_ass_time(x), cu::parse_bgr_color(x), cu::validate_ass_name(x), cu::parse_numeric::<i32>(x), cu::parse_numeric::<f32>(x), ass_core::ScriptVersion::from_header(x));
                let _ = (ass_core::tokenizer::simd::parse_hex_u32(x), ass_core::tokenizer::simd::scan_delimiters(x));
            }
            let t = cu::format_ass_time(st.a as u32);
            cx.check(cu::parse_ass_time(&t).ok() == Some(st.a as u32) || (st.a as u32) / 360_000 > 9_999, "time-roundtrip", || format!("{} -> {t}", st.a as u32));
            n.to_string()
        }
        _ => {
            let e = cu::detect_encoding(b);
            let _ = cu::validate_utf8(b).is_ok();
            let v = cu::utf8::is_valid_ass_text(text);
            let n = cu::normalize_line_endings(text);
            let (t, _) = cu::strip_bom(text);
            let (u, cut) = cu::utf8::truncate_at_char_boundary(text, at(text.len() + 2, st.a));
            cx.check(text.starts_with(u) && (cut || u.len() == text.len()), "truncate", || format!("{} of {}", u.len(), text.len()));
            let _ = (cu::utf8::remove_control_chars(text), cu::utf8::normalize_whitespace(text, true), cu::utf8::trim_lines(text), cu::utf8::is_likely_ass_content(text));
            format!("{} {v} {} {}", e.encoding, n.len(), t.len())
        }
    }
}

// ------------------------------------------------------------------ editing
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Text(history::Op),
    Part(structured::Op),
    Look(Step),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EditPlan {
    pub kind: String,
    pub file: Vec<u8>,
    pub hits: Vec<Hit>,
    pub steps: Vec<Edit>,
}
const LOOKS: &[&str] = &["search", "index", "replace", "complete", "highlight", "validate", "query", "positions", "tags", "info", "delta", "ext"];

pub struct Editing;
impl Scenario for Editing {
    type Plan = EditPlan;
    fn name(&self) -> &'static str {
        "editing"
    }
    fn gen(&self, g: &mut Gen) -> EditPlan {
        let (kind, file) = file(g);
        let hits = hits(g);
        let n = g.range(1, 8);
        let steps = (0..n)
            .map(|_| match g.below(5) {
                0 | 1 => {
                    let mut o = history::gen_op(g, history::Oracle::Atomic);
                    if g.chance(1, 3) {
                        o.s = nasty(g);
                    }
                    if g.chance(1, 6) {
                        o.s2 = nasty(g);
                    }
                    if g.chance(1, 12) {
                        o.b = g.u64() as u32;
                    }
                    Edit::Text(o)
                }
                2 | 3 => {
                    let mut o = structured::gen_op(g);
                    if g.chance(1, 3) {
                        o.s = nasty(g);
                    }
                    if g.chance(1, 6) {
                        o.s2 = nasty(g);
                    }
                    Edit::Part(o)
                }
                _ => Edit::Look(Step { op: g.pick(LOOKS).to_string(), a: g.u64() >> 12, b: g.u64() >> 12, s: nasty(g) }),
            })
            .collect();
        EditPlan { kind, file, hits, steps }
    }
    fn tune(&self, _p: &EditPlan, _g: &mut Gen, cfg: &mut Config) {
        cfg.p_switch[rt::P_ALLOC] = 0;
    }
    fn run(&self, plan: &'static EditPlan, cx: &'static Cx) {
        let p = Plan { kind: plan.kind.clone(), file: plan.file.clone(), hits: plan.hits.clone(), steps: vec![] };
        let b = read_back(&p, cx);
        rt::quiet(|| fs::put(&format!("/simfs/in.{}", plan.kind), &b));
        cx.spawn("editor", move || editor(plan, cx));
        cx.wait();
    }
}
fn editor(plan: &'static EditPlan, cx: &'static Cx) {
    let path = format!("/simfs/in.{}", plan.kind);
    cx.doing("open");
    let d = if plan.kind == "ass" { EditorDocument::from_file(&path) } else { ass_editor::utils::formats::import_from_file(&path) };
    let mut d = match d {
        Ok(d) => d,
        Err(e) => {
            cx.log(format!("not opened: {e}"));
            // what is legible of it
            let b = std::fs::read(&path).unwrap_or_default();
            match EditorDocument::from_content(&String::from_utf8_lossy(&b)) {
                Ok(d) => d,
                Err(_) => return,
            }
        }
    };
    for s in &plan.steps {
        rt::point();
        let before = rt::quiet(|| d.text());
        match s {
            Edit::Text(o) => {
                cx.doing(format!("{} {o:?}", o.op));
                let r = history::apply(&mut d, o);
                cx.log(format!("{}: {}", o.op, r.outcome()));
                if r.refused() {
                    cx.check(d.text() == before, "refused-but-changed", || format!("{o:?} was refused, and left {:?} of {before:?}", d.text()));
                }
            }
            Edit::Part(o) => {
                if matches!(o.op.as_str(), "query" | "undo" | "redo" | "batch" | "resolution") {
                    continue;
                }
                cx.doing(format!("{} {o:?}", o.op));
                let m = rt::quiet(|| structured::parse(&before));
                let r = structured::exec(&mut d, o, &m);
                cx.log(format!("{}: {}", o.op, if r.is_ok() { "ok" } else { "refused" }));
                if r.is_err() {
                    cx.check(d.text() == before, "refused-but-changed", || format!("{o:?} was refused, and left {:?} of {before:?}", d.text()));
                }
            }
            Edit::Look(o) => {
                cx.doing(format!("{} {o:?}", o.op));
                let r = look(&mut d, o, &before, cx);
                cx.log(format!("{}: {r}", o.op));
            }
        }
        cx.doing("read back");
        let after = d.text();
        if after != before {
            cx.nontrivial();
        }
        cx.check(after.len() == d.len_bytes(), "length", || format!("{} bytes, said to be {}", after.len(), d.len_bytes()));
    }
    cx.doing("undo everything");
    for _ in 0..60 {
        if d.undo().is_err() {
            break;
        }
    }
}
fn look(d: &mut EditorDocument, o: &Step, text: &str, cx: &Cx) -> String {
    let p = Position::new(valid(text, at(text.len() + 1, o.a)));
    let raw = Position::new(at(text.len() + 10, o.a));
    match o.op.as_str() {
        "search" | "index" | "replace" => {
            let mut s = if o.b & 1 == 0 { create_search() } else { ass_editor::utils::indexing::create_search_index() };
            if s.build_index(d).is_err() {
                return "no index".into();
            }
            let pat = match o.b >> 1 & 3 {
                0 => o.s.clone(),
                1 => text.get(p.offset..valid(text, p.offset + 5)).unwrap_or("").to_string(),
                2 => "o".into(),
                _ => "é".into(),
            };
            let opt = SearchOptions {
                case_sensitive: o.b & 8 == 8,
                whole_words: o.b & 16 == 16,
                use_regex: o.b & 96 == 96,
                max_results: [0, 1, 3, 100][(o.b >> 8) as usize & 3],
                scope: match o.b >> 10 & 7 {
                    0 => SearchScope::Lines { start: o.a as usize % 9, end: o.a as usize % 23 },
                    1 => SearchScope::Sections(vec!["Events".into(), "é".into()]),
                    2 => SearchScope::Range(Range::new(Position::new(at(text.len() + 5, o.a >> 3)), raw)),
                    _ => SearchScope::All,
                },
            };
            let r = s.search(&pat, &opt).map(|v| {
                for x in &v {
                    cx.check(x.start.offset <= x.end.offset && x.end.offset <= text.len() && text.is_char_boundary(x.start.offset) && text.is_char_boundary(x.end.offset), "match-outside", || format!("{pat:?} found at {:?}..{:?} of {} bytes", x.start, x.end, text.len()));
                }
                v.len()
            });
            if o.op == "index" {
                let _ = d.insert(p, &o.s);
                let _ = s.update_index(d, &[Range::new(p, Position::new(p.offset + o.s.len()))]);
                let _ = s.search(&pat, &opt);
                let _ = s.stats();
            } else if o.op == "replace" {
                let _ = s.find_replace(d, &pat, &o.s, &opt);
            }
            format!("{:?}", r.ok())
        }
        "complete" => {
            let mut a = AutoCompleteExtension::new();
            let r = a.get_completions(d, p).map(|v| v.len());
            let q = a.get_completions(d, raw).map(|v| v.len());
            format!("{:?} {:?}", r.ok(), q.ok())
        }
        "highlight" => {
            let mut h = SyntaxHighlightExtension::new();
            match h.tokenize_document(d) {
                Ok(v) => {
                    for t in &v {
                        cx.check(t.range.start.offset <= t.range.end.offset && t.range.end.offset <= text.len(), "token-outside", || format!("{:?} of {} bytes", t.range, text.len()));
                    }
                    v.len().to_string()
                }
                Err(_) => "refused".into(),
            }
        }
        "validate" => {
            let mut v = LazyValidator::with_config(ValidatorConfig { max_issues: 1 + o.a as usize % 200, ..Default::default() });
            let n = text.lines().count() + 1;
            let r = v.force_validate(d).map(|r| {
                for i in &r.issues {
                    cx.check(i.line.is_none_or(|l| l <= n), "issue-line", || format!("issue at line {:?} of {n}: {}", i.line, i.message));
                }
                r.issues.len()
            });
            let _ = d.validate_comprehensive();
            format!("{:?} {}", r.ok(), d.validate().is_ok())
        }
        "query" => {
            use ass_editor::core::fluent::EventSortCriteria as C;
            let c = [C::StartTime, C::EndTime, C::Duration, C::Style, C::Speaker, C::Layer, C::Index, C::Text];
            let mut q = d.events().query().sort(c[o.a as usize % c.len()].clone()).then_by(c[(o.a >> 4) as usize % c.len()].clone());
            if o.b & 1 == 1 {
                q = q.filter_by_time_range(o.a as u32 % 1000, (o.a >> 8) as u32);
            }
            if o.b & 2 == 2 {
                q = q.filter_by_text(&o.s).with_regex(o.b & 4 == 4).case_sensitive(o.b & 8 == 8);
            }
            if o.b & 16 == 16 {
                q = q.descending().limit(o.a as usize % 4);
            }
            let n = q.execute().map(|v| v.len()).ok();
            let i = o.a as usize % 7;
            let e = (d.events().event(i).timing().is_ok(), d.events().event(i).margins().is_ok(), d.events_count().ok(), d.styles_count().ok(), d.find_event_text(&o.s).map(|v| v.len()).ok());
            format!("{n:?} {e:?}")
        }
        "positions" => {
            let a = d.position_to_line_column(p).is_ok();
            let b = d.position_to_line_column(raw).is_ok();
            let c = d.text_range(Range::new(Position::new(at(text.len() + 3, o.b)), raw)).is_ok();
            let e = ass_editor::PositionBuilder::new().line(1 + o.a as usize % 30).column(1 + o.b as usize % 40).build(d.rope()).is_ok();
            let t = ass_editor::PositionBuilder::new().offset(raw.offset).build(d.rope()).is_ok();
            format!("{a} {b} {c} {e} {t}")
        }
        "tags" => {
            let r = d.tags().in_range(Range::new(Position::new(0), raw)).parse().map(|v| v.len());
            let q = d.tags().at(p).insert(&o.s).is_ok();
            let k = d.karaoke().in_range(Range::new(Position::new(valid(text, at(text.len() + 1, o.b))), p)).generate(o.b as u32).execute().is_ok();
            format!("{:?} {q} {k}", r.ok())
        }
        "info" => {
            let r = (d.info().all().map(|v| v.len()).ok(), d.info().get_resolution().is_ok(), d.info().get_wrap_style().is_ok(), d.script_info_fields().map(|v| v.len()).ok(), d.fonts().list().map(|v| v.len()).ok(), d.graphics().count().ok());
            format!("{r:?}")
        }
        "ext" => {
            let r = d.initialize_registry().is_ok();
            let n = d.parse_with_extensions(|s| s.sections().len()).ok();
            format!("{r} {n:?}")
        }
        _ => {
            let q = Position::new(valid(text, at(text.len() + 1, o.b)));
            match d.edit_incremental(Range::new(p.min(q), p.max(q)), &o.s) {
                Ok(x) => format!("{}", d.apply_script_delta(x).is_ok()),
                Err(_) => "refused".into(),
            }
        }
    }
}

// ------------------------------------------------------------------ drawing
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DrawPlan {
    pub script: render::Scr,
    pub hits: Vec<Hit>,
    pub times: Vec<u32>,
    pub dims: (u32, u32),
    pub player: bool,
    /// the line that is garbled, and what it reads then
    pub spoil: (u64, String),
}
pub struct Drawing;
impl Scenario for Drawing {
    type Plan = DrawPlan;
    fn name(&self) -> &'static str {
        "drawing"
    }
    fn prepare(&self) {
        render::prepare_fonts()
    }
    fn gen(&self, g: &mut Gen) -> DrawPlan {
        let script = render::any_script(g);
        let mut times: Vec<u32> = (0..g.range(1, 5))
            .map(|_| {
                let e = g.pick(&script.events);
                e.start + g.below((e.end - e.start + 1) as u64) as u32
            })
            .collect();
        if g.chance(1, 6) {
            times.push(*g.pick(&[0, 1, u32::MAX, u32::MAX / 10, u32::MAX / 10 + 1, 400_000_000, i32::MAX as u32, i32::MAX as u32 + 1]));
        }
        let text: String = (0..g.range(1, 3)).map(|_| nasty(g)).collect();
        DrawPlan { spoil: (g.u64() >> 12, text.replace(['\n', '\r'], " ")), hits: hits(g), script, times, dims: *g.pick(&[(96, 54), (96, 54), (64, 64), (1, 1), (3, 200), (320, 180)]), player: g.chance(1, 4) }
    }
    fn tune(&self, _p: &DrawPlan, _g: &mut Gen, cfg: &mut Config) {
        cfg.p_switch[rt::P_ALLOC] = 0;
        cfg.max_steps = 100_000_000;
    }
    fn run(&self, plan: &'static DrawPlan, cx: &'static Cx) {
        render::mount_fonts();
        let p = Plan { kind: "ass".into(), file: plan.script.text().into_bytes(), hits: plan.hits.clone(), steps: vec![] };
        let b = read_back(&p, cx);
        rt::quiet(|| fs::put("/simfs/in.ass", &b));
        let want: &'static Shared<Vec<Option<Vec<u8>>>> = Box::leak(Box::new(Shared::new(vec![])));
        if !plan.player {
            cx.spawn("reference", move || {
                let (w, h) = plan.dims;
                let text = plan.script.text();
                let s = Script::parse(&text).unwrap();
                let mut r = rt::quiet(|| Renderer::new(BackendType::Software, RenderContext::with_font_database(w, h, Default::default())).expect("renderer"));
                for &t in &plan.times {
                    cx.doing(format!("reference {t}"));
                    let f = r.render_frame(&s, t).ok().map(|f| f.data().to_vec());
                    want.with(|v| v.push(f));
                }
            });
            cx.wait();
        }
        cx.spawn("viewer", move || viewer(plan, cx, want));
        cx.wait();
    }
}
fn viewer(plan: &'static DrawPlan, cx: &'static Cx, want: &'static Shared<Vec<Option<Vec<u8>>>>) {
    cx.doing("open");
    let b = std::fs::read("/simfs/in.ass").unwrap_or_default();
    let (text, _) = cu::recover_utf8(&b);
    let (w, h) = plan.dims;
    if plan.player {
        let mut p = rt::quiet(|| DebugPlayer::new(BackendType::Software, w, h).expect("player"));
        cx.doing("load");
        if p.load_script(&text).is_err() {
            cx.log("not loaded");
            return;
        }
        p.play();
        for t in &plan.times {
            cx.doing(format!("play {t}"));
            p.seek(t.saturating_mul(10));
            rt::advance(40_000_000);
            let r = p.update(std::time::Duration::from_millis(40));
            cx.log(format!("{t}: {}", r.map_or("refused".into(), |f| f.map_or(0, |f| crate::gen::fnv(f.frame.data())).to_string())));
            cx.nontrivial();
        }
        return;
    }
    let Ok(s) = Script::parse(&text) else { return };
    let mut r = rt::quiet(|| Renderer::new(BackendType::Software, RenderContext::with_font_database(w, h, Default::default())).expect("renderer"));
    let mut prev = None;
    for t in &plan.times {
        rt::point();
        cx.doing(format!("frame {t}"));
        let f = r.render_frame(&s, *t);
        cx.log(format!("{t}: {}", f.as_ref().map_or("refused".into(), |f| crate::gen::fnv(f.data()).to_string())));
        if let Ok(f) = &f {
            cx.check(f.data().len() == (w * h * 4) as usize && f.timestamp() == *t, "frame-header", || format!("{} bytes at {w}x{h} for {t}, labelled {}", f.data().len(), f.timestamp()));
            cx.nontrivial();
        }
        cx.doing(format!("bitmaps {t}"));
        let _ = r.render_frame_bitmaps(&s, *t).map(|b| b.len());
        if let Some(p) = &prev {
            cx.doing(format!("incremental {t}"));
            let _ = r.render_frame_incremental(&s, *t, p);
        }
        if let Ok(f) = f {
            prev = Some(f);
        }
    }
    // What it drew leaves no trace, and neither does a line that is not shown
    let mut bad = plan.script.clone();
    let k = at(bad.events.len(), plan.spoil.0);
    bad.events[k].text = plan.spoil.1.clone();
    let (good, bad) = (plan.script.text(), bad.text());
    let (Ok(sg), Ok(sb)) = (Script::parse(&good), Script::parse(&bad)) else {
        cx.fail("damage-spreads", format!("a line reading {:?} makes the script unreadable", plan.spoil.1));
        return;
    };
    for (i, &t) in plan.times.iter().enumerate() {
        cx.doing(format!("compare {t}"));
        let Some(z) = want.with(|v| v[i].clone()) else { continue };
        let a = r.render_frame(&sg, t);
        cx.check(a.as_ref().is_ok_and(|a| *a.data() == z[..]), "leaves-trace", || format!("at {t} the renderer that drew the damaged script draws the other one differently: {}", a.as_ref().map_or_else(|e| e.to_string(), |a| render::diff(a.data(), &z, w).unwrap_or_default())));
        let e = &plan.script.events[k];
        if t < e.start || t >= e.end {
            let b = r.render_frame(&sb, t);
            cx.check(b.as_ref().is_ok_and(|b| *b.data() == z[..]), "damage-spreads", || format!("at {t} a line not shown, reading {:?}, changes the picture: {}", plan.spoil.1, b.as_ref().map_or_else(|e| e.to_string(), |b| render::diff(b.data(), &z, w).unwrap_or_default())));
        }
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C17", real: "parser, analysis, linting, tokenizer, registry, streaming and incremental parsing, importers and exporters (compiled from the tree)", stub: "disk (simulated, damaged), callers (generated)", rule: "at least one file was read", parts: vec![part(Reading, 60_000, 4_000_000)] },
        Check { id: "C18", real: "EditorDocument, all commands, queries, search, completion, highlighting, validation, ass-core (compiled from the tree)", stub: "disk (simulated, damaged), callers (generated)", rule: "at least one operation changed the text", parts: vec![part(Editing, 60_000, 4_000_000)] },
        Check { id: "C19", real: "Renderer, software pipeline and backend, player, ass-core parser (compiled from the tree)", stub: "disk (simulated, damaged), callers (generated), GPU backend not run", rule: "at least one picture was drawn", parts: vec![part(Drawing, 40_000, 2_000_000)] },
    ]
}
