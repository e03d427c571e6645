//! Documents on a disk that fails: loading, saving, importing and exporting through the simulated
//! file system and through readers and writers that chop, interrupt and fail; crash and restart.
use crate::checks::script;
use crate::engine::{part, Check, Cx, Scenario, Shared};
use crate::gen::Gen;
use crate::rt::{self, fs, Config};
use ass_editor::core::errors::EditorError;
use ass_editor::formats::ass::AssFormat;
use ass_editor::formats::srt::SrtFormat;
use ass_editor::formats::webvtt::WebVttFormat;
use ass_editor::formats::{FormatExporter, FormatImporter, FormatOptions, FormatRegistry};
use ass_editor::utils::formats::{export_to_file, import_from_file, ConversionOptions, FormatConverter, SubtitleFormat};
use ass_editor::{EditorDocument, Position};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub op: String,
    pub slot: u8,
    pub path: u8,
    pub a: u64,
    pub s: String,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub files: Vec<Vec<u8>>,
    pub clients: Vec<Vec<Op>>,
}

const NAMES: &[&str] = &["a.ass", "b.ass", "c.srt", "d.vtt", "e.txt", "f.ssa", "g.webvtt", "h", "i.bin", "é ü.ass", "j.SRT"];
fn path(client: usize, k: u8) -> String {
    let n = NAMES[k as usize % NAMES.len()];
    // a few paths that cannot be written
    match k {
        200..=220 => format!("/simfs/none/{n}"),
        221..=230 => "/simfs/d0".into(),
        _ => format!("/simfs/d{client}/{n}"),
    }
}

// ------------------------------------------------------------------ cues
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Cue {
    pub start: u64,
    pub len: u64,
    pub lines: Vec<String>,
}
const LINES: &[&str] = &[
    "Hello", "naïve café", "日本語", "😀 ok", "a, b, c", "<b>bold</b> plain", "<i>it</i>", "<u>x</u> <i>y</i>", "42", "- Who? - Me!", "NOTE well", "WEBVTT", "1", "x: y", "Dialogue: no", "; no", "[Events]", "12:00:00", "a > b", "c -> d",
    "Style: A,B", "NOTES", "STYLE", "Region x", "a.b", "00:00", "0",
];
fn cues(g: &mut Gen) -> Vec<Cue> {
    let mut t = 0;
    (0..g.below(6))
        .map(|_| {
            t += g.below(3_000) + if g.chance(1, 10) { 3_600_000 * g.below(30) } else { 0 };
            let c = Cue { start: t, len: 10 + g.below(5_000), lines: (0..g.range(1, 3)).map(|_| g.pick(LINES).to_string()).collect() };
            t += c.len;
            c
        })
        .collect()
}
fn ms(t: u64, sep: char) -> String {
    format!("{:02}:{:02}:{:02}{sep}{:03}", t / 3_600_000, t / 60_000 % 60, t / 1000 % 60, t % 1000)
}
/// A well-formed file with these cues; `style` chooses among the ways of writing one.
fn encode(cues: &[Cue], vtt: bool, style: u64) -> String {
    let mut s = String::new();
    if style & 16 == 16 {
        s.push('\u{feff}');
    }
    if vtt {
        s.push_str(if style & 1 == 1 { "WEBVTT - title\n\n" } else { "WEBVTT\n\n" });
    }
    for (i, c) in cues.iter().enumerate() {
        if vtt && style & 2 == 2 && i % 2 == 1 {
            s.push_str("NOTE a note\n\n");
        }
        if !vtt {
            s.push_str(&format!("{}\n", i + 1));
        } else if style & 4 == 4 {
            s.push_str(&format!("cue {i}\n"));
        }
        let sep = if vtt { '.' } else { ',' };
        let short = vtt && style & 8 == 8 && c.start + c.len < 3_600_000;
        let t = |x: u64| if short { ms(x, sep)[3..].to_string() } else { ms(x, sep) };
        s.push_str(&format!("{} --> {}", t(c.start), t(c.start + c.len)));
        if vtt && style & 32 == 32 {
            s.push_str(" line:63% size:40%");
        }
        s.push('\n');
        for l in &c.lines {
            s.push_str(l);
            s.push('\n');
        }
        if i + 1 < cues.len() || style & 64 == 0 {
            s.push('\n');
        }
    }
    if style & 128 == 128 {
        s = s.replace('\n', "\r\n");
    }
    s
}
/// Some well-formed file.
pub fn sample(g: &mut Gen, vtt: bool) -> String {
    let c = cues(g);
    encode(&c, vtt, g.below(256))
}
fn to_ass(l: &str) -> String {
    l.replace("<b>", "{\\b1}").replace("</b>", "{\\b0}").replace("<i>", "{\\i1}").replace("</i>", "{\\i0}").replace("<u>", "{\\u1}").replace("</u>", "{\\u0}")
}
type Line = (bool, u64, u64, String);
/// (comment, start and end in centiseconds, text) of every event of the document's text.
fn events(text: &str) -> Vec<Line> {
    let cs = |t: &str| -> u64 {
        let p: Vec<&str> = t.split([':', '.']).collect();
        let n = |i: usize| p.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(999_999_999);
        ((n(0) * 60 + n(1)) * 60 + n(2)) * 100 + n(3)
    };
    let mut v = vec![];
    let mut on = false;
    for l in text.lines() {
        if l.starts_with('[') {
            on = l == "[Events]";
        }
        let k = if l.starts_with("Dialogue:") { false } else if l.starts_with("Comment:") { true } else { continue };
        if on {
            let f: Vec<&str> = l[l.find(':').unwrap() + 1..].splitn(10, ',').collect();
            if f.len() == 10 {
                v.push((k, cs(f[1]), cs(f[2]), f[9].trim().to_string()));
            }
        }
    }
    v
}
fn want_events(c: &[Cue]) -> Vec<Line> {
    c.iter().map(|c| (false, c.start / 10, (c.start + c.len) / 10, c.lines.iter().map(|l| to_ass(l)).collect::<Vec<_>>().join("\\N"))).collect()
}
/// A strict reader of what the exporters write.
fn decode(text: &str, vtt: bool) -> Result<Vec<(u64, u64, Vec<String>)>, String> {
    let sep = if vtt { '.' } else { ',' };
    let t = |s: &str| -> Result<u64, String> {
        let p: Vec<&str> = s.split([':', sep]).collect();
        if p.len() != 4 || p[3].len() != 3 || p[1].len() != 2 || p[2].len() != 2 || p[0].len() < 2 {
            return Err(format!("time {s:?}"));
        }
        let n: Result<Vec<u64>, _> = p.iter().map(|x| x.parse::<u64>()).collect();
        let n = n.map_err(|_| format!("time {s:?}"))?;
        Ok(((n[0] * 60 + n[1]) * 60 + n[2]) * 1000 + n[3])
    };
    let body = if vtt { text.strip_prefix("WEBVTT\n\n").ok_or("no header")? } else { text };
    let mut v = vec![];
    for b in body.split("\n\n").filter(|b| !b.trim().is_empty()) {
        let mut l: Vec<&str> = b.lines().collect();
        if !l[0].contains(" --> ") {
            if l[0] != (v.len() + 1).to_string() {
                return Err(format!("number {:?}", l[0]));
            }
            l.remove(0);
        } else if !vtt {
            return Err("no number".into());
        }
        let (a, z) = l.first().ok_or("no times")?.split_once(" --> ").ok_or("no times")?;
        v.push((t(a)?, t(z)?, l[1..].iter().map(|x| x.to_string()).collect()));
    }
    Ok(v)
}

// ------------------------------------------------------------------ streams
struct Chopped<'a> {
    b: &'a [u8],
    at: usize,
    failed: bool,
}
impl Read for Chopped<'_> {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        rt::point();
        if rt::fault(rt::F_READ_EINTR, 1) > 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if rt::fault(rt::F_READ_ERR, 1) > 0 {
            self.failed = true;
            return Err(io::Error::other("read fails"));
        }
        let mut n = o.len().min(self.b.len() - self.at);
        if n > 1 {
            let v = rt::fault(rt::F_READ_SHORT, n as u64 - 1) as usize;
            if v > 0 {
                n = v;
            }
        }
        o[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
#[derive(Default)]
struct Pipe {
    b: Vec<u8>,
    failed: bool,
}
impl Write for Pipe {
    fn write(&mut self, o: &[u8]) -> io::Result<usize> {
        rt::point();
        if rt::fault(rt::F_WRITE_EINTR, 1) > 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        match rt::fault(rt::F_WRITE_ERR, 2) {
            1 => {
                self.failed = true;
                return Err(io::Error::other("write fails"));
            }
            2 => {
                self.failed = true;
                return Ok(0);
            }
            _ => {}
        }
        let mut n = o.len();
        if n > 1 {
            let v = rt::fault(rt::F_WRITE_SHORT, n as u64 - 1) as usize;
            if v > 0 {
                n = v;
            }
        }
        self.b.extend_from_slice(&o[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ------------------------------------------------------------------ the run
fn registry() -> FormatRegistry {
    let mut r = FormatRegistry::new();
    r.register_format(Box::new(AssFormat::new()));
    r.register_format(Box::new(SrtFormat::new()));
    r.register_format(Box::new(WebVttFormat::new()));
    r
}
pub fn importer(k: u64) -> Box<dyn FormatImporter> {
    match k % 3 {
        0 => Box::new(AssFormat::new()),
        1 => Box::new(SrtFormat::new()),
        _ => Box::new(WebVttFormat::new()),
    }
}
pub fn exporter(k: u64) -> Box<dyn FormatExporter> {
    match k % 3 {
        0 => Box::new(AssFormat::new()),
        1 => Box::new(SrtFormat::new()),
        _ => Box::new(WebVttFormat::new()),
    }
}
fn fmt_of(k: u64) -> SubtitleFormat {
    [SubtitleFormat::ASS, SubtitleFormat::SRT, SubtitleFormat::WebVTT, SubtitleFormat::SSA, SubtitleFormat::PlainText][k as usize % 5]
}
fn conv(k: u64) -> ConversionOptions {
    ConversionOptions { strip_formatting: k & 1 == 1, ..Default::default() }
}
fn fopts(k: u64) -> FormatOptions {
    FormatOptions { encoding: if k & 1 == 0 { "UTF-8" } else { "latin1" }.into(), preserve_formatting: k & 2 == 0, ..Default::default() }
}

struct St {
    text: String,
    modified: bool,
    path: Option<String>,
    undo: bool,
    redo: bool,
}
fn state(d: &EditorDocument) -> St {
    St { text: d.text(), modified: d.is_modified(), path: d.file_path().map(|x| x.to_string()), undo: d.can_undo(), redo: d.can_redo() }
}
fn same(a: &St, b: &St) -> bool {
    a.text == b.text && a.modified == b.modified && a.path == b.path && a.undo == b.undo && a.redo == b.redo
}
fn disk(dir: &str) -> BTreeMap<String, Vec<u8>> {
    fs::list().into_iter().filter(|p| p.starts_with(dir)).filter_map(|p| fs::get(&p).map(|b| (p, b))).collect()
}
fn guard<R>(cx: &Cx, what: &str, f: impl FnOnce() -> R) -> R {
    match cx.catch(f) {
        Ok(r) => r,
        Err(e) => cx.fail("panicked", format!("{what}: {e}")),
    }
}
/// The operation in flight, for the machine that restarts.
#[derive(Clone, Default)]
struct Flight {
    target: Option<String>,
    content: Option<Vec<u8>>,
    disk: BTreeMap<String, Vec<u8>>,
}

pub struct Storage {
    pub formats: bool,
}
const DOC_OPS: &[(&str, u64)] = &[
    ("load", 10), ("edit", 8), ("undo", 2), ("redo", 1), ("save", 8), ("save_to", 10), ("corrupt", 4), ("delete", 2), ("capacity", 2), ("export_to_file", 3), ("import_from_file", 3), ("set_path", 1),
];
const FORMAT_OPS: &[(&str, u64)] = &[
    ("import_from_file", 6), ("registry_import", 6), ("stream_import", 8), ("export_to_file", 6), ("registry_export", 6), ("stream_export", 8), ("edit", 4), ("corrupt", 4), ("cues", 10), ("cues_doc", 8), ("load", 2), ("save_to", 2),
    ("capacity", 1),
];
fn content(g: &mut Gen) -> Vec<u8> {
    let mut b = match g.below(10) {
        0 => vec![],
        1..=4 => script::any_text(g).into_bytes(),
        5 => script::script(g).into_bytes(),
        6 => (0..g.below(80)).map(|_| g.below(256) as u8).collect(),
        k => encode(&cues(g), k == 7, g.u64()).into_bytes(),
    };
    if g.chance(1, 5) && !b.is_empty() {
        damage(&mut b, g.u64());
    }
    b
}
fn damage(b: &mut Vec<u8>, a: u64) {
    let mut g = Gen::new(a);
    for _ in 0..g.range(1, 4) {
        if b.is_empty() {
            b.push(b'-');
        }
        let i = g.idx(b.len());
        match g.below(7) {
            0 => b[i] ^= 1 << g.below(8),
            1 => b.truncate(i),
            2 => {
                let n = g.range(1, 12) as usize;
                b.drain(i..(i + n).min(b.len()));
            }
            3 => b.splice(i..i, b"-->\n".iter().copied()).for_each(drop),
            4 => {
                let ins = g.pick(&["00:00:01,000 --> ", " --> 00:00:02.000\n", "\n", "99999999999", "{", "<font color=", "WEBVTT", "\u{0}", "4294967295", "-1", ".", ",", ":", "\n--> \n", "\r"]).as_bytes();
                b.splice(i..i, ins.iter().copied()).for_each(drop)
            }
            5 => {
                let j = g.idx(b.len());
                b.swap(i, j)
            }
            _ => b[i] = *g.pick(b"0159,.:->\n{}<"),
        }
    }
}
impl Scenario for Storage {
    type Plan = Plan;
    fn name(&self) -> &'static str {
        if self.formats {
            "formats-io"
        } else {
            "documents-on-disk"
        }
    }
    fn gen(&self, g: &mut Gen) -> Plan {
        let files = (0..NAMES.len()).map(|_| if g.chance(1, 6) { vec![] } else { content(g) }).collect();
        let table = if self.formats { FORMAT_OPS } else { DOC_OPS };
        let w: Vec<u64> = table.iter().map(|x| x.1).collect();
        let clients = (0..if g.chance(1, 3) { 2 } else { 1 })
            .map(|_| {
                (0..g.range(1, 24))
                    .map(|_| Op {
                        op: table[g.weighted(&w)].0.into(),
                        slot: g.below(2) as u8,
                        path: if g.chance(1, 30) { g.range(200, 230) as u8 } else { g.below(NAMES.len() as u64) as u8 },
                        a: g.u64(),
                        s: script::frag(g),
                    })
                    .collect()
            })
            .collect();
        Plan { files, clients }
    }
    fn tune(&self, _p: &Plan, g: &mut Gen, cfg: &mut Config) {
        if g.chance(4, 5) {
            for k in [rt::F_OPEN, rt::F_READ_ERR, rt::F_WRITE_ERR, rt::F_ENOSPC] {
                cfg.p_fault[k] = *g.pick(&[0, 0, 2000, 8000, 20000]);
            }
            for k in [rt::F_READ_SHORT, rt::F_READ_EINTR, rt::F_WRITE_SHORT, rt::F_WRITE_EINTR, rt::F_FSYNC, rt::F_RENAME] {
                cfg.p_fault[k] = *g.pick(&[0, 8000, 20000, 45000]);
            }
        }
        if g.chance(1, 3) {
            cfg.p_fault[rt::F_CRASH] = *g.pick(&[500, 2000, 8000]);
        }
    }
    fn run(&self, plan: &'static Plan, cx: &'static Cx) {
        for c in 0..plan.clients.len() {
            fs::mkdir(&format!("/simfs/d{c}"));
            for (k, b) in plan.files.iter().enumerate() {
                if k % 5 != 4 {
                    fs::put(&path(c, k as u8), b);
                }
            }
        }
        let flights: Vec<&'static Shared<Flight>> = (0..plan.clients.len()).map(|_| Shared::new(Flight::default())).collect();
        for (c, ops) in plan.clients.iter().enumerate() {
            let fl = flights[c];
            cx.spawn(&format!("client{c}"), move || client(c, ops, plan.clients.len(), fl, cx));
        }
        if cx.wait() {
            // the process died; what it had written is all there is
            cx.probe("crashed");
            cx.nontrivial();
            rt::calm();
            fs::close_all();
            fs::capacity(0);
            for (c, fl) in flights.iter().enumerate() {
                let f = fl.with(|f| f.clone());
                let now = disk(&format!("/simfs/d{c}/"));
                for (p, b) in &f.disk {
                    if Some(p) != f.target.as_ref() {
                        cx.check(now.get(p) == Some(b), "other-file-changed", || format!("{p} changed although nothing was writing it when the process died"));
                    }
                }
                if let (Some(p), Some(want)) = (&f.target, &f.content) {
                    let got = now.get(p);
                    let ok = got == f.disk.get(p) || got.is_some_and(|g| want.starts_with(g));
                    cx.check(ok, "crash-garbage", || format!("{p} holds neither its old content nor a beginning of the new one: {got:?}, writing {want:?}"));
                }
                for (p, b) in now {
                    match guard(cx, "load after crash", || EditorDocument::from_file(&p)) {
                        Ok(mut d) => {
                            cx.check(d.text().as_bytes() == b, "load-wrong", || format!("{p} loaded as {:?}", d.text()));
                            let r = guard(cx, "save after crash", || d.save());
                            cx.check(r.is_ok() && fs::get(&p) == Some(b), "save-wrong", || format!("{r:?}"));
                        }
                        Err(e) => cx.check(refused(&b), "load-refused", || format!("{p}: {e}")),
                    }
                    let _ = guard(cx, "import after crash", || import_from_file(&p));
                }
            }
        }
        cx.check(fs::open_count() == 0, "descriptor-leak", || format!("{} files left open", fs::open_count()));
    }
}
/// May a document with these bytes be refused?
fn refused(b: &[u8]) -> bool {
    match std::str::from_utf8(b) {
        Err(_) => true,
        Ok(s) => EditorDocument::from_content(s).is_err(),
    }
}
fn client(c: usize, ops: &'static [Op], nclients: usize, flight: &'static Shared<Flight>, cx: &'static Cx) {
    let dir = format!("/simfs/d{c}/");
    let reg = registry();
    let mut docs = [EditorDocument::from_content("[Script Info]\nTitle: x\n").unwrap(), EditorDocument::new()];
    for (k, o) in ops.iter().enumerate() {
        let p = path(c, o.path);
        let old = disk(&dir);
        let before: Vec<St> = docs.iter().map(state).collect();
        let slot = o.slot as usize % 2;
        cx.log(format!("client {c} {k}: {} slot={slot} {p} a={} {:?}", o.op, o.a, o.s));
        cx.doing(&o.op);
        let failures = rt::io_failures();
        let mut target: Option<String> = None;
        let mut changed = false; // the document in `slot` may change
        let fly = |t: &str, b: Vec<u8>| flight.with(|f| *f = Flight { target: Some(t.into()), content: Some(b), disk: old.clone() });
        flight.with(|f| *f = Flight { target: None, content: None, disk: old.clone() });
        let faulted = || rt::io_failures() != failures;
        match o.op.as_str() {
            "load" => {
                let bytes = fs::get(&p).filter(|_| p != "/simfs/d0");
                match guard(cx, "load", || EditorDocument::from_file(&p)) {
                    Ok(d) => {
                        cx.check(Some(d.text().as_bytes()) == bytes.as_deref(), "load-wrong", || format!("{p} holds {bytes:?} but loaded as {:?}", d.text()));
                        cx.check(!d.is_modified() && d.file_path() == Some(&p) && !d.can_undo(), "load-state", || "a loaded document is modified or has another path".into());
                        if d.text() != before[slot].text {
                            cx.nontrivial();
                        }
                        docs[slot] = d;
                        changed = true;
                    }
                    Err(e) => cx.check(faulted() || bytes.as_deref().is_none_or(refused), "load-refused", || format!("{p}: {e}")),
                }
            }
            "edit" => {
                let d = &mut docs[slot];
                let t = d.text();
                let at = script::floor(&t, o.a as usize % (t.len() + 1));
                let r = d.insert(Position::new(at), &o.s);
                cx.check(r.is_ok() && d.text() == format!("{}{}{}", &t[..at], o.s, &t[at..]), "edit-failed", || format!("{r:?}"));
                changed = true;
            }
            "undo" => {
                let _ = docs[slot].undo();
                changed = true;
            }
            "redo" => {
                let _ = docs[slot].redo();
                changed = true;
            }
            "set_path" => {
                docs[slot].set_file_path(if o.a % 3 == 0 { None } else { Some(p.clone()) });
                changed = true;
            }
            "save" | "save_to" => {
                let to = if o.op == "save" { before[slot].path.clone() } else { Some(p.clone()) };
                if let Some(t) = &to {
                    fly(t, before[slot].text.clone().into_bytes());
                }
                target = to.clone();
                let d = &mut docs[slot];
                let r = guard(cx, &o.op, || if o.op == "save" { d.save() } else { d.save_to_file(&p) });
                let now = state(d);
                match &r {
                    Ok(()) => {
                        let to = to.unwrap();
                        let b = fs::get(&to);
                        cx.check(b.as_deref() == Some(now.text.as_bytes()), "save-wrong", || format!("{to}: saved {:?}, disk has {b:?}", now.text));
                        cx.check(!now.modified && now.path.as_deref() == Some(&to), "save-state", || "after saving, the document is still modified or has another path".into());
                        cx.check(now.text == before[slot].text && now.undo == before[slot].undo && now.redo == before[slot].redo, "save-changed-document", || format!("{:?}", now.text));
                        changed = true;
                    }
                    Err(e) => {
                        cx.probe("save failed");
                        cx.nontrivial();
                        let bad = to.as_deref().is_none_or(|t| t.starts_with("/simfs/none") || t == "/simfs/d0");
                        cx.check(faulted() || bad, "save-refused", || format!("{to:?}: {e}"));
                        cx.check(same(&now, &before[slot]), "failed-save-changed-document", || format!("modified {} -> {}, path {:?} -> {:?}", before[slot].modified, now.modified, before[slot].path, now.path));
                    }
                }
            }
            "corrupt" => {
                if let Some(mut b) = fs::get(&p).filter(|_| p.starts_with(&dir)) {
                    damage(&mut b, o.a);
                    fs::put(&p, &b);
                    cx.probe("stored bytes damaged");
                }
                flight.with(|f| f.disk = disk(&dir));
                continue;
            }
            "delete" => {
                if p.starts_with(&dir) {
                    fs::unlink(&p);
                }
                flight.with(|f| f.disk = disk(&dir));
                continue;
            }
            "capacity" => {
                if nclients == 1 {
                    let used: usize = fs::list().iter().filter_map(|p| fs::get(p)).map(|b| b.len()).sum();
                    fs::capacity(if o.a % 3 == 0 { 0 } else { (used as u64 + o.a % 200).max(1) });
                }
                continue;
            }
            "import_from_file" => {
                let bytes = fs::get(&p).filter(|_| p != "/simfs/d0");
                let ext = p.rfind('.').and_then(|i| SubtitleFormat::from_extension(&p[i + 1..]));
                let want = bytes.as_deref().and_then(|b| std::str::from_utf8(b).ok()).map(|s| guard(cx, "import", || FormatConverter::import(s, ext).and_then(|t| EditorDocument::from_content(&t))).map(|d| d.text()));
                let r = guard(cx, "import_from_file", || import_from_file(&p));
                imported(cx, r.map(|d| d.text()), want, faulted(), &p);
            }
            "registry_import" => {
                let bytes = fs::get(&p).filter(|_| p != "/simfs/d0");
                let opts = fopts(o.a);
                let k = match p.rsplit('.').next().map(|e| e.to_ascii_lowercase()).as_deref() {
                    Some("ass") => Some(0),
                    Some("srt") => Some(1),
                    Some("vtt" | "webvtt") => Some(2),
                    _ => None,
                };
                let want = match (k, bytes.as_deref().map(std::str::from_utf8)) {
                    (Some(k), Some(Ok(s))) => Some(guard(cx, "import", || importer(k).import_from_string(s, &opts)).map(show)),
                    _ => None,
                };
                let r = guard(cx, "registry import", || reg.import_file(Path::new(&p), Some(&opts)));
                imported(cx, r.map(show), want, faulted(), &p);
            }
            "stream_import" => {
                let bytes = fs::get(&p).filter(|_| p.starts_with(&dir)).unwrap_or_default();
                let im = importer(o.a);
                let opts = fopts(o.a / 3);
                let want = std::str::from_utf8(&bytes).ok().map(|s| guard(cx, "import", || im.import_from_string(s, &opts)).map(show));
                let mut rd = Chopped { b: &bytes, at: 0, failed: false };
                let r = guard(cx, "stream import", || im.import_from_reader(&mut rd, &opts));
                cx.nontrivial();
                imported(cx, r.map(show), want, rd.failed, "reader");
            }
            "export_to_file" => {
                let d = &docs[slot];
                let f = if o.a & 4 == 0 { None } else { Some(fmt_of(o.a >> 8)) };
                let op = conv(o.a);
                let ff = f.or_else(|| p.rfind('.').and_then(|i| SubtitleFormat::from_extension(&p[i + 1..]))).unwrap_or(SubtitleFormat::ASS);
                let want = guard(cx, "export", || FormatConverter::export(d, ff, &op)).map(|s| s.into_bytes());
                if let Ok(w) = &want {
                    fly(&p, w.clone());
                }
                target = Some(p.clone());
                let r = guard(cx, "export_to_file", || export_to_file(d, &p, f, &op));
                exported(cx, r.map(|_| String::new()), want.map(|w| (w, String::new())), faulted(), &p, true);
            }
            "registry_export" => {
                let d = &docs[slot];
                let opts = fopts(o.a);
                let k = match p.rsplit('.').next().map(|e| e.to_ascii_lowercase()).as_deref() {
                    Some("ass") => Some(0),
                    Some("srt") => Some(1),
                    Some("vtt" | "webvtt") => Some(2),
                    _ => None,
                };
                let want = match k {
                    Some(k) => guard(cx, "export", || exporter(k).export_to_string(d, &opts)).map(|(s, r)| (s.into_bytes(), res(&r))),
                    None => Err(EditorError::IoError("no such format".into())),
                };
                if let Ok(w) = &want {
                    fly(&p, w.0.clone());
                }
                target = Some(p.clone());
                let r = guard(cx, "registry export", || reg.export_file(d, Path::new(&p), Some(&opts))).map(|r| res(&r));
                exported(cx, r, want, faulted(), &p, true);
            }
            "stream_export" => {
                let d = &docs[slot];
                let ex = exporter(o.a);
                let opts = fopts(o.a / 3);
                let want = guard(cx, "export", || ex.export_to_string(d, &opts)).map(|(s, r)| (s.into_bytes(), res(&r)));
                let mut w = Pipe::default();
                let r = guard(cx, "stream export", || ex.export_to_writer(d, &mut w, &opts)).map(|r| res(&r));
                match (&r, &want) {
                    (Ok(x), Ok(y)) => {
                        cx.nontrivial();
                        cx.check(w.b == y.0 && *x == y.1, "export-wrong", || format!("writer got {:?}\nnot {:?}", String::from_utf8_lossy(&w.b), String::from_utf8_lossy(&y.0)));
                        cx.check(!w.failed, "export-ignored-error", || "the writer failed but the export succeeded".into());
                    }
                    (Err(e), Ok(_)) => cx.check(w.failed, "export-refused", || format!("{e}")),
                    (Err(_), Err(_)) => {}
                    (Ok(_), Err(e)) => cx.fail("export-differs", format!("to a writer it worked, to a string: {e}")),
                }
            }
            "cues" | "cues_doc" => {
                exchange(o, &reg, cx);
            }
            x => panic!("unknown {x}"),
        }
        // nothing but the target changed
        let now = disk(&dir);
        for (q, b) in &old {
            if Some(q) != target.as_ref() {
                cx.check(now.get(q) == Some(b), "other-file-changed", || format!("{} changed {q}", o.op));
            }
        }
        for (i, d) in docs.iter().enumerate() {
            if i != slot || !changed {
                cx.check(same(&state(d), &before[i]), "document-changed", || format!("{} changed the document in slot {i}", o.op));
            }
        }
        if nclients == 1 {
            cx.check(fs::open_count() == 0, "descriptor-leak", || format!("{} left {} files open", o.op, fs::open_count()));
        }
    }
    if nclients == 1 {
        // faults stop: everything can be saved and loaded again
        rt::calm();
        fs::capacity(0);
        for (i, d) in docs.iter_mut().enumerate() {
            let p = format!("{dir}final{i}.ass");
            flight.with(|f| *f = Flight::default());
            let t = d.text();
            let r = d.save_to_file(&p);
            cx.check(r.is_ok(), "save-refused", || format!("after the faults stopped: {r:?}"));
            match EditorDocument::from_file(&p) {
                Ok(e) => cx.check(e.text() == t, "load-wrong", || format!("{:?} came back as {:?}", t, e.text())),
                Err(e) => cx.check(refused(t.as_bytes()), "load-refused", || format!("{e}")),
            }
        }
    }
}
fn show((d, r): (EditorDocument, ass_editor::formats::FormatResult)) -> String {
    format!("{}\u{1}{}", d.text(), res(&r))
}
fn res(r: &ass_editor::formats::FormatResult) -> String {
    let m: BTreeMap<_, _> = r.metadata.iter().collect();
    format!("{} {} {:?} {m:?}", r.success, r.lines_processed, r.warnings)
}
fn imported(cx: &Cx, r: Result<String, EditorError>, want: Option<Result<String, EditorError>>, faulted: bool, what: &str) {
    match (r, want) {
        (Ok(x), Some(Ok(y))) => cx.check(x == y, "import-differs", || format!("{what} imported as\n{x}\nbut from memory\n{y}")),
        (Ok(x), w) => cx.fail("import-differs", format!("{what} imported as {x:?}; from memory {w:?}")),
        (Err(_), None | Some(Err(_))) => {}
        (Err(e), Some(Ok(_))) => cx.check(faulted, "import-refused", || format!("{what}: {e}")),
    }
}
fn exported(cx: &Cx, r: Result<String, EditorError>, want: Result<(Vec<u8>, String), EditorError>, faulted: bool, p: &str, info: bool) {
    match (r, want) {
        (Ok(x), Ok((b, y))) => {
            cx.nontrivial();
            let got = fs::get(p);
            cx.check(got.as_deref() == Some(&b[..]), "export-wrong", || format!("{p} holds {got:?}, not {:?}", String::from_utf8_lossy(&b)));
            cx.check(!info || x == y, "export-wrong", || format!("reported {x}, not {y}"));
        }
        (Err(e), Ok(_)) => {
            let bad = p.starts_with("/simfs/none") || p == "/simfs/d0";
            cx.check(faulted || bad, "export-refused", || format!("{p}: {e}"))
        }
        (Ok(_), Err(e)) => cx.fail("export-differs", format!("{p} was exported, but in memory: {e}")),
        (Err(_), Err(_)) => {}
    }
}
/// Cues in a well-formed file or document survive being carried to and fro.
fn exchange(o: &Op, reg: &FormatRegistry, cx: &Cx) {
    let mut g = Gen::new(o.a);
    let cs = cues(&mut g);
    let want = want_events(&cs);
    let vtt = g.bool();
    let style = g.u64();
    let doc = if o.op == "cues" {
        let file = encode(&cs, vtt, style);
        let r = guard(cx, "import cues", || {
            if o.s.len() % 2 == 0 {
                FormatConverter::import(&file, Some(if vtt { SubtitleFormat::WebVTT } else { SubtitleFormat::SRT })).and_then(|t| EditorDocument::from_content(&t))
            } else {
                let im = reg.find_importer(if vtt { "VTT" } else { "srt" }).unwrap();
                im.import_from_string(&file, &FormatOptions::default()).map(|x| {
                    cx.check(x.1.lines_processed == cs.len(), "cue-count", || format!("{} cues reported, {} in the file", x.1.lines_processed, cs.len()));
                    x.0
                })
            }
        });
        let d = match r {
            Ok(d) => d,
            Err(e) => cx.fail("import-refused", format!("well-formed file refused: {e}\n{file}")),
        };
        let got = events(&d.text());
        cx.check(got == want, "cues-lost", || format!("file\n{file}\nimported as\n{}\nwanted {want:?}", d.text()));
        d
    } else {
        let mut t = "[Script Info]\nTitle: x\n\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n".to_string();
        for (i, w) in want.iter().enumerate() {
            let f = |c: u64| format!("{}:{:02}:{:02}.{:02}", c / 360_000, c / 6000 % 60, c / 100 % 60, c % 100);
            if i % 3 == 1 {
                t.push_str("Comment: 0,0:00:00.00,0:00:01.00,Default,,0,0,0,,hidden\n");
            }
            t.push_str(&format!("Dialogue: 0,{},{},Default,,0,0,0,,{}\n", f(w.1), f(w.2), w.3));
        }
        EditorDocument::from_content(&t).unwrap()
    };
    // out again, in either format, by either route
    let vtt = g.bool();
    let r = guard(cx, "export cues", || {
        if g.bool() {
            FormatConverter::export(&doc, if vtt { SubtitleFormat::WebVTT } else { SubtitleFormat::SRT }, &ConversionOptions::default())
        } else {
            let ex = reg.find_exporter(if vtt { "webvtt" } else { "SRT" }).unwrap();
            ex.export_to_string(&doc, &FormatOptions::default()).map(|x| {
                cx.check(x.1.lines_processed == cs.len(), "cue-count", || format!("{} cues reported, {} in the document", x.1.lines_processed, cs.len()));
                x.0
            })
        }
    });
    let out = match r {
        Ok(x) => x,
        Err(e) => cx.fail("export-refused", format!("{e}")),
    };
    let back = decode(&out, vtt);
    let want_out: Vec<_> = cs.iter().map(|c| (c.start / 10 * 10, (c.start + c.len) / 10 * 10, c.lines.clone())).collect();
    cx.nontrivial();
    cx.check(back.as_ref() == Ok(&want_out), "cues-lost", || format!("document\n{}\nexported as\n{out}\nread {back:?}, wanted {want_out:?}", doc.text()));
}

pub fn documents() -> Check {
    Check {
        id: "C09",
        real: "EditorDocument load and save, file import and export helpers, std::fs",
        stub: "disk (in-memory file system with faults and crash), clients (generated)",
        rule: "something was loaded, saved or failed to be saved, or the process crashed",
        parts: vec![part(Storage { formats: false }, 60_000, 3_000_000)],
    }
}
pub fn formats() -> Check {
    Check {
        id: "C10",
        real: "FormatRegistry, ASS, SRT and WebVTT importers and exporters, FormatConverter, std::fs",
        stub: "disk (in-memory file system), readers and writers that chop, interrupt and fail; clients (generated)",
        rule: "a file or stream was exported or imported",
        parts: vec![part(Storage { formats: true }, 25_000, 1_500_000)],
    }
}
