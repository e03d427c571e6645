//! Reparsing after edits: `parse_incremental`, `parse_partial`, `calculate_delta` and the editor's
//! `IncrementalParser` over long histories of edits, some of which the parser is not told of or is
//! told wrongly, against parsing the whole text anew (C12).
use crate::checks::script;
use crate::engine::{part, Check, Cx, Scenario};
use crate::gen::Gen;
use ass_core::parser::incremental::{calculate_line_number, calculate_line_range, TextChange};
use ass_core::parser::script::ScriptDeltaOwned;
use ass_core::parser::{calculate_delta, Script, Section};
use ass_editor::core::IncrementalParser;
use ass_editor::{Position, Range};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    /// how to choose the range: see `place`
    pub how: u8,
    pub a: u64,
    pub b: u64,
    pub text: String,
    /// the editor's parser: 0 told, 1 not told of the edit, 2 also asked for a range that is not
    /// in the text, 3 its cache dropped first, 4 primed first, 5 full reparse
    pub told: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub text: String,
    pub threshold: u32,
    pub steps: Vec<Step>,
}

const LINES: &[&str] = &[
    "[Events]", "[V4+ Styles]", "[V4 Styles]", "[V4++ Styles]", "[Script Info]", "[Fonts]", "[Graphics]", "[Unknown]", " [Events] ", "[events]", "[Events", "[Events] x", "Events]",
    "Format: Layer, Start, End, Style, Text", "Format: Name, Fontname", "Format: Start, End, Text, Style", "Format:", "ScriptType: v4.00", "ScriptType: v4.00++", "ScriptType: v4.00+", "Title: other", "no colon",
    "Style: B,Arial,20", "Style: *Default,B", "Style: Q", "Dialogue: 0,0:00:01.00,0:00:02.00,Default,,0,0,0,,new", "Comment: 1,2", "Dialogue: short", "; [Events]", "# [Fonts]", "!: x", "", "  ", "fontname: b.ttf", "filename: q.png",
    "!!!!!!!!", "[0]", "{\\pos(1,2)}", "\u{2003}[Events]", "\u{85}[Fonts]", "\u{feff}",
];
fn gen_step(g: &mut Gen) -> Step {
    let how = g.below(12) as u8;
    let text = match g.below(10) {
        0 => String::new(),
        1 | 2 => format!("{}\n", g.pick(LINES)),
        3 => format!("\n{}", g.pick(LINES)),
        4 => format!("{}\n{}\n", g.pick(LINES), g.pick(LINES)),
        5 => g.pick(LINES).to_string(),
        6 => format!("{}\n", script::event_line(g)),
        7 => {
            let n = g.pick(&["Default", "Alt", "N"]).to_string();
            format!("{}\n", script::style_line(g, &n))
        }
        8 => g.pick(&["\n", "\n\n", " ", "x", ",", ":", "[", "]", "\r\n", "é"]).to_string(),
        _ => script::frag(g),
    };
    Step { how, a: g.u64() >> 8, b: g.u64() >> 8, text, told: *g.pick(&[0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5]) }
}
/// The part of the text that a step replaces.
fn place(t: &str, st: &Step) -> std::ops::Range<usize> {
    let at = |x: u64, n: usize| (x % n.max(1) as u64) as usize;
    let lines: Vec<(usize, usize)> = t.split_inclusive('\n').scan(0, |s, l| { let a = *s; *s += l.len(); Some((a, *s)) }).collect();
    let line = |x: u64| lines.get(at(x, lines.len())).copied().unwrap_or((0, t.len()));
    let pos = |x: u64| script::floor(t, at(x, t.len() + 1));
    let r = match st.how {
        // inside one line
        0..=3 => {
            let (s, e) = line(st.a);
            let body = e - s - t[s..e].ends_with('\n') as usize;
            let p = s + at(st.b, body + 1);
            p..(p + at(st.b >> 20, 8)).min(s + body)
        }
        // between lines
        4 | 5 => line(st.a).0..line(st.a).0,
        // one or more lines
        6 => line(st.a).0..line(st.a).1,
        7 => line(st.a).0..line(st.a.wrapping_add(st.b % 4)).1,
        // around a line break
        8 => line(st.a).1.saturating_sub(1)..line(st.a).1,
        // a header
        9 => {
            let h: Vec<_> = lines.iter().filter(|(s, e)| t[*s..*e].starts_with('[')).collect();
            h.get(at(st.a, h.len())).map_or(0..0, |(s, e)| *s..if st.b % 2 == 0 { *e } else { s + 1 })
        }
        // at the end
        10 => t.len()..t.len(),
        _ => pos(st.a)..pos(st.a + st.b % 60),
    };
    let s = script::floor(t, r.start);
    s..script::floor(t, r.end.max(s)).max(s)
}
/// A section as text without the spans: what it says, not where.
fn says(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("span: Span {") {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        rest = &rest[rest.find('}').map_or(rest.len(), |k| k + 1)..];
    }
    out + rest
}
fn all(s: &Script) -> Vec<String> {
    s.sections().iter().map(|x| format!("{x:?}")).collect()
}
/// What a delta must be: sections of one type are matched in their order.
fn difference(old: &Script, new: &Script) -> (Vec<String>, Vec<(usize, String)>, Vec<usize>) {
    let nth = |v: &[Section], i: usize| v[..i].iter().filter(|x| x.section_type() == v[i].section_type()).count();
    let find = |v: &[Section], t: &Section, n: usize| v.iter().position(|x| x.section_type() == t.section_type()).and_then(|_| v.iter().enumerate().filter(|(_, x)| x.section_type() == t.section_type()).nth(n).map(|x| x.0));
    let (o, n) = (old.sections(), new.sections());
    let say = |s: &Section| says(&format!("{s:?}"));
    let mut d = (vec![], vec![], vec![]);
    for i in 0..o.len() {
        match find(n, &o[i], nth(o, i)) {
            None => d.2.push(i),
            Some(k) if say(&o[i]) != say(&n[k]) => d.1.push((i, say(&n[k]))),
            _ => {}
        }
    }
    for k in 0..n.len() {
        if find(o, &n[k], nth(n, k)).is_none() {
            d.0.push(say(&n[k]));
        }
    }
    d
}
fn plain(d: &ScriptDeltaOwned) -> (Vec<String>, Vec<(usize, String)>, Vec<usize>) {
    (d.added.iter().map(|x| says(x)).collect(), d.modified.iter().map(|(i, x)| (*i, says(x))).collect(), d.removed.clone())
}
fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

pub struct Reparse;
impl Scenario for Reparse {
    type Plan = Plan;
    fn name(&self) -> &'static str {
        "reparse"
    }
    fn gen(&self, g: &mut Gen) -> Plan {
        let mut text = match g.below(8) {
            0 => script::any_text(g),
            1 => format!("{}\n{}", script::script(g), script::script(g)),
            _ => script::script(g),
        };
        if g.chance(1, 12) {
            text.insert(0, '\u{feff}');
        }
        let n = if g.chance(1, 8) { g.range(20, 60) } else { g.range(1, 14) };
        Plan { text, threshold: *g.pick(&[10_000, 10_000, 50, 200, 0, 1]), steps: (0..n).map(|_| gen_step(g)).collect() }
    }
    fn run(&self, plan: &'static Plan, cx: &'static Cx) {
        let mut text: &'static str = leak(plan.text.clone());
        let mut kept = Script::parse(text).unwrap();
        let mut parser = IncrementalParser::new();
        parser.set_reparse_threshold(plan.threshold as usize);
        // what the editor's parser holds: nothing, or a text
        let mut held: Option<&'static str> = None;
        for (i, st) in plan.steps.iter().enumerate() {
            let r = place(text, st);
            let new = leak(format!("{}{}{}", &text[..r.start], st.text, &text[r.end..]));
            let change = TextChange { range: r.clone(), new_text: st.text.clone(), line_range: calculate_line_range(text, r.clone()) };
            let log = format!("step {i}: {r:?} {:?} -> {:?}", &text[r.clone()], st.text);
            cx.doing(&log);
            cx.log(log);
            cx.check(calculate_line_number(text, r.start) as usize == text[..r.start].matches('\n').count() + 1, "line-number", || format!("of {}", r.start));

            let old = Script::parse(text).unwrap();
            let whole = Script::parse(new).unwrap();
            let next = match kept.parse_incremental(new, &change) {
                Ok(s) => s,
                Err(e) => cx.fail("refused", format!("step {i}: {e}")),
            };
            let (a, b) = (all(&next), all(&whole));
            cx.check(a == b, "sections-differ", || {
                let k = (0..a.len().max(b.len())).find(|k| a.get(*k) != b.get(*k)).unwrap();
                format!("after {r:?} -> {:?} section {k} is {:?}, parsed anew {:?}", st.text, a.get(k), b.get(k))
            });
            cx.check(next.version() == whole.version(), "version-differs", || format!("{:?}, parsed anew {:?}", next.version(), whole.version()));
            cx.check(next.styles_format() == whole.styles_format() && next.events_format() == whole.events_format(), "format-differs", || format!("{:?} {:?}, parsed anew {:?} {:?}", next.styles_format(), next.events_format(), whole.styles_format(), whole.events_format()));
            let (a, b) = (format!("{:?}", next.issues()), format!("{:?}", whole.issues()));
            cx.check(a == b, "issues-differ", || format!("{a}, parsed anew {b}"));

            let want = difference(&old, &whole);
            let d = calculate_delta(&old, &whole);
            let got = (
                d.added.iter().map(|x| says(&format!("{x:?}"))).collect::<Vec<_>>(),
                d.modified.iter().map(|(i, x)| (*i, says(&format!("{x:?}")))).collect::<Vec<_>>(),
                d.removed.clone(),
            );
            cx.check(got == want, "delta-differs", || format!("delta {got:?}, want {want:?}"));
            match kept.parse_partial(r.clone(), &st.text) {
                Ok(d) => {
                    let got = plain(&d);
                    cx.check(got == want, "partial-differs", || format!("partial delta {got:?}, want {want:?}"));
                    let (a, b) = (format!("{:?}", d.new_issues), format!("{:?}", whole.issues()));
                    cx.check(a == b, "partial-issues", || format!("{a}, parsed anew {b}"));
                }
                Err(e) => cx.fail("partial-refused", format!("{e}")),
            }
            if !(want.0.is_empty() && want.1.is_empty() && want.2.is_empty()) {
                cx.nontrivial();
            }

            // the editor's parser
            let span = Range::new(Position::new(r.start), Position::new(r.end));
            if let Some(kind) = [None, Some("notice_lost"), Some("wrong_range"), Some("cache_dropped"), Some("cache_replaced")].get(st.told as usize).copied().flatten() {
                cx.probe(&format!("fault:{kind}"));
            }
            match st.told {
                2 => {
                    let bad = match st.b % 3 {
                        0 => Some((text.len() + 1, text.len() + 1)),
                        1 => Some((0, text.len() + 1 + st.a as usize % 5)),
                        _ => (1..text.len()).find(|k| !text.is_char_boundary(*k)).map(|k| (k, k)),
                    };
                    if let Some((s, e)) = bad {
                        let x = Range { start: Position::new(s), end: Position::new(e) };
                        let ok = parser.apply_change(text, x, &st.text).is_ok();
                        cx.check(!ok, "bad-range-taken", || format!("{s}..{e} of {} bytes", text.len()));
                        rest(cx, &parser, held, i);
                    }
                }
                3 => {
                    parser.clear_cache();
                    held = None;
                    cx.check(!parser.has_cached_script() && parser.pending_changes().is_empty(), "cache-kept", String::new);
                }
                4 => {
                    parser.initialize_cache(text);
                    held = Some(text);
                }
                _ => {}
            }
            let out = match st.told {
                1 => None,
                5 => Some((parser.full_reparse(new), held)),
                _ => Some((parser.apply_change(text, span, &st.text), held)),
            };
            if let Some((out, had)) = out {
                match out {
                    Err(e) => cx.fail("editor-refused", format!("step {i}: {e}")),
                    Ok(d) => {
                        let got = plain(&d);
                        let want = match had {
                            None => (whole.sections().iter().map(|s| says(&format!("{s:?}"))).collect(), vec![], vec![]),
                            Some(h) if st.told == 5 => difference(&Script::parse(h).unwrap(), &whole),
                            Some(_) => want,
                        };
                        cx.check(got == want, "editor-delta", || format!("step {i}: {got:?}, want {want:?}"));
                        let (a, b) = (format!("{:?}", d.new_issues), format!("{:?}", whole.issues()));
                        cx.check(a == b, "editor-issues", || format!("{a}, parsed anew {b}"));
                    }
                }
                held = Some(new);
                rest(cx, &parser, held, i);
            }
            text = new;
            kept = next;
        }
    }
}
/// What the editor's parser holds is the text it was last given.
fn rest(cx: &Cx, p: &IncrementalParser, held: Option<&str>, i: usize) {
    cx.check(p.has_cached_script() == held.is_some(), "cache-state", || format!("step {i}: {}", p.has_cached_script()));
    if let Some(t) = held {
        let z = Script::parse(t).unwrap();
        let said = p.with_cached_script(|s| Ok((all(s), format!("{:?}", s.issues())))).ok();
        cx.check(said == Some((all(&z), format!("{:?}", z.issues()))), "cache-differs", || format!("step {i}: holds {said:?}, the text is {t:?}"));
    }
}

pub fn check() -> Check {
    Check { id: "C12", real: "ass-core parser (whole, incremental, partial, deltas), ass-editor IncrementalParser (compiled from the tree)", stub: "editing client (generated), clock (simulated)", rule: "at least one edit changes a section", parts: vec![part(Reparse, 40_000, 2_000_000)] }
}
