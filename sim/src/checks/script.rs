//! Generators of ASS scripts and text fragments shared by the editor and parser scenarios.
use crate::gen::Gen;

pub const WORDS: &[&str] = &[
    "Hello", "world", "naïve café", "日本語", "😀 ok", "a", "ab, c", "{\\b1}bold{\\b0}", "{\\k20}ka{\\k30}ra", "\\N", "\\h", "{\\pos(10,20)}x", "ünï", "Ω", "  ", "x:y",
    "{\\fad(100,200)\\c&H00FF00&}", "[x]", ";", "!", "{\\an8}", "{\\k10}{\\kf20}o", "end", "{\\t(0,500,\\fscx120)}",
];
pub const FRAG: &[&str] = &[
    "", "x", "é", "日", "😀", "\n", "\n\n", "\r\n", "abc", "[Events]\n", "[V4+ Styles]\n", "Dialogue: 0,0:00:01.00,0:00:02.00,Default,,0,0,0,,new\n", "Title: t", "{\\b1}", "{", "}", ",", "Comment: ",
    "; c\n", "Format: ", "[Script Info]\nTitle: z\n", "Style: A,Arial,20\n", "  ", "\t", "0:00:03.00", "[Fonts]\nfontname: a.ttf\n", "!:unknown", "\u{feff}",
];
pub fn words(g: &mut Gen, n: usize) -> String {
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(*g.pick(WORDS));
    }
    s
}
pub fn frag(g: &mut Gen) -> String {
    match g.below(12) {
        0 => {
            let n = g.range(3, 30) as usize;
            words(g, n)
        }
        1 => format!("{}{}", g.pick(FRAG), g.pick(FRAG)),
        2 => format!("{}{}{}", g.pick(FRAG), g.pick(WORDS), g.pick(FRAG)),
        _ => g.pick(FRAG).to_string(),
    }
}
pub fn time(g: &mut Gen) -> String {
    let t = if g.chance(1, 8) { g.below(4_000_000) } else { g.below(2000) };
    format!("{}:{:02}:{:02}.{:02}", t / 360000, t / 6000 % 60, t / 100 % 60, t % 100)
}
pub fn event_line(g: &mut Gen) -> String {
    let k = if g.chance(1, 4) { "Comment" } else { "Dialogue" };
    let (a, b) = if g.chance(5, 6) {
        let s = g.below(1000);
        let d = g.range(1, 600);
        let f = |t: u64| format!("{}:{:02}:{:02}.{:02}", t / 360000, t / 6000 % 60, t / 100 % 60, t % 100);
        (f(s), f(s + d))
    } else {
        (time(g), time(g))
    };
    let n = g.range(0, 5) as usize;
    let name = *g.pick(&["", "", "Bob", "Zoë"]);
    let effect = *g.pick(&["", "", "", "Karaoke", "Banner;10"]);
    format!("{k}: {},{a},{b},{},{name},{},0,{},{effect},{}", g.below(3), g.pick(&["Default", "Alt", "Missing", "Défaut"]), g.below(2) * 10, g.below(3), words(g, n))
}
pub const EV_FORMAT: &str = "Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text";
pub const ST_FORMAT: &str = "Format: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding";
pub fn style_line(g: &mut Gen, name: &str) -> String {
    format!(
        "Style: {name},{},{},&H00FFFFFF,&H000000FF,&H00{:02X}0000,&H80000000,{},0,0,0,100,100,{},0,1,{},{},{},10,10,{},1",
        g.pick(&["Arial", "DejaVu Sans", "Noto Sans CJK"]), g.range(10, 40), g.below(256), if g.bool() { "-1" } else { "0" }, g.below(3), g.below(4), g.below(3), g.range(1, 9), g.below(30)
    )
}
/// A mostly well-formed script.
pub fn script(g: &mut Gen) -> String {
    let mut s = String::new();
    let nl = "\n";
    if g.chance(9, 10) {
        s += "[Script Info]\n";
        for _ in 0..g.below(5) {
            s += *g.pick(&["Title: My Show", "ScriptType: v4.00+", "PlayResX: 640", "PlayResY: 480", "WrapStyle: 0", "; a comment", "ScaledBorderAndShadow: yes", "Subtitle: x"]);
            s += nl;
        }
        if g.chance(4, 5) {
            s += nl;
        }
    }
    if g.chance(8, 10) {
        s += "[V4+ Styles]\n";
        s += ST_FORMAT;
        s += nl;
        s += &style_line(g, "Default");
        s += nl;
        for n in ["Alt", "Défaut"] {
            if g.bool() {
                s += &style_line(g, n);
                s += nl;
            }
        }
        if g.chance(4, 5) {
            s += nl;
        }
    }
    let media = g.chance(1, 5);
    if media && g.bool() {
        s += "[Fonts]\nfontname: a.ttf\n!!!!!!!!\n\n";
    }
    if g.chance(19, 20) {
        s += "[Events]\n";
        s += EV_FORMAT;
        s += nl;
        for _ in 0..g.below(7) {
            s += &event_line(g);
            s += nl;
        }
    }
    if media && g.bool() {
        s += "\n[Graphics]\nfilename: p.png\n0000\n";
    }
    if g.chance(1, 6) {
        while s.ends_with('\n') {
            s.pop();
        }
    }
    if g.chance(1, 10) {
        s = s.replace('\n', "\r\n");
    }
    s
}
/// Anything from nothing to mangled scripts.
pub fn any_text(g: &mut Gen) -> String {
    match g.below(10) {
        0 => String::new(),
        1 => {
            let n = g.range(1, 12);
            (0..n).map(|_| frag(g)).collect()
        }
        2 | 3 => {
            let mut s = script(g);
            for _ in 0..g.range(1, 4) {
                let p = floor(&s, g.idx(s.len() + 1));
                if g.bool() {
                    s.insert_str(p, &frag(g));
                } else {
                    let e = floor(&s, (p + g.idx(40)).min(s.len()));
                    s.replace_range(p..e.max(p), "");
                }
            }
            s
        }
        _ => script(g),
    }
}
pub fn floor(s: &str, mut p: usize) -> usize {
    p = p.min(s.len());
    while !s.is_char_boundary(p) {
        p -= 1;
    }
    p
}
