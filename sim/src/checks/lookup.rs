//! Looking things up in documents that several threads edit: search (plain, indexed, fuzzy and
//! linear), find-and-replace, highlighting and completion. The watchers keep their indexes,
//! highlighter and completer for the whole run and learn of edits late; every answer is compared
//! with a naive scan of the text the index was last given, or with a new instance (C20).
use crate::checks::{history, script};
use crate::engine::{part, Check, Cx, Scenario, Shared};
use crate::gen::Gen;
use crate::rt::{self, Config};
use ass_editor::core::thread_safety::SyncDocument;
use ass_editor::extensions::builtin::auto_complete::{AutoCompleteExtension, CompletionType};
use ass_editor::extensions::builtin::syntax_highlight::{HighlightToken, SyntaxHighlightExtension, TokenType};
use ass_editor::utils::indexing::{FstSearchIndex, LinearSearchIndex};
use ass_editor::utils::search::{DocumentSearch, DocumentSearchImpl, SearchOptions, SearchResult, SearchScope};
use ass_editor::{EditorDocument, Position, Range};
use serde::{Deserialize, Serialize};

struct Assert<T>(T);
unsafe impl<T> Send for Assert<T> {}
unsafe impl<T> Sync for Assert<T> {}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Query {
    /// which searcher: 0, 1 engine, 2 fuzzy, 3 linear
    pub who: u8,
    /// how to choose the pattern from the text, and the choice
    pub pick: u8,
    pub a: u64,
    pub b: u64,
    pub s: String,
    pub case: bool,
    pub word: bool,
    pub max: u32,
    /// 0.. all, 1 lines, 2 range, 3 sections
    pub scope: u8,
    pub c: u64,
    pub d: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    /// take notice of the edits so far and bring the index up to date
    Update,
    Rebuild(u8),
    Find(Query),
    Replace(Query, String),
    Highlight,
    Complete(u64),
    Clear(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Op(history::Op),
    /// close the document and open another text under the same name
    Reopen(String),
    /// write a word where another one is
    Word(u64, String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub texts: Vec<String>,
    pub same_id: bool,
    /// (document, edit)
    pub editors: Vec<Vec<(u8, Edit)>>,
    pub watchers: Vec<Vec<(u8, Act)>>,
}
struct Doc {
    sync: SyncDocument,
}
type Board = Shared<Vec<Vec<Vec<Range>>>>;

const REGEX: &[&str] = &["o.", "[a-z]+\\d", "\\d+:\\d+", "(?:D|d)ialogue", "é|日", "(", "[A-Z][a-z]*", "a{2", ",,+", "\\{[^}]*\\}"];
fn gen_query(g: &mut Gen) -> Query {
    Query {
        who: *g.pick(&[0, 0, 0, 0, 2, 3]),
        pick: g.below(8) as u8,
        a: g.u64() >> 8,
        b: g.u64() >> 8,
        s: match g.below(3) {
            0 => g.pick(REGEX).to_string(),
            1 => g.pick(script::WORDS).to_string(),
            _ => g.pick(&["hello", "WORLD", "o", "l", "é", "café", "Default", "Dialogue", "0", "日本", "b1", "ünï", "Title", "_", "lo wo", "rld", "Ω", "hlo", "😀"]).to_string(),
        },
        case: g.bool(),
        word: g.chance(1, 3),
        max: *g.pick(&[0, 0, 0, 1, 2, 5, 100]),
        scope: *g.pick(&[0, 0, 0, 1, 2, 3]),
        c: g.u64() >> 8,
        d: g.u64() >> 8,
    }
}
fn gen_edit(g: &mut Gen) -> Edit {
    match g.below(8) {
        0 => Edit::Reopen(script::any_text(g)),
        1..=3 => Edit::Word(g.u64() >> 8, g.pick(&["hello", "Hello", "WORLD", "x", "naïve", "日本語", "a_b", "o", "\n", " ", "", "lo\nwo", "[Events]\n", "😀", "Dialogue: 0,0:00:01.00,0:00:02.00,Neu,,0,0,0,,hello\n", "Style: Neu,Arial,20\n"]).to_string()),
        _ => Edit::Op(history::gen_op(g, history::Oracle::Undo)),
    }
}
pub struct Lookup;
impl Scenario for Lookup {
    type Plan = Plan;
    fn name(&self) -> &'static str {
        "lookup"
    }
    fn gen(&self, g: &mut Gen) -> Plan {
        let n = g.range(1, 2) as usize;
        let texts = (0..n)
            .map(|_| {
                let t = if g.chance(1, 4) { script::any_text(g) } else { script::script(g) };
                if g.chance(1, 6) {
                    t.replace("\r\n", "\n").replace('\n', "\r\n")
                } else {
                    t
                }
            })
            .collect();
        let editors = (0..g.range(1, 2)).map(|_| (0..g.range(1, 8)).map(|_| (g.idx(n) as u8, gen_edit(g))).collect()).collect();
        let watchers = (0..g.range(1, 2))
            .map(|_| {
                (0..g.range(2, 10))
                    .map(|_| {
                        let a = match g.below(14) {
                            0..=2 => Act::Update,
                            3 => Act::Rebuild(g.below(3) as u8),
                            4..=8 => Act::Find(gen_query(g)),
                            9 => Act::Replace(gen_query(g), g.pick(&["", "x", "hello hello", "é", "\n"]).to_string()),
                            10 | 11 => Act::Highlight,
                            12 => Act::Complete(g.u64() >> 8),
                            _ => Act::Clear(g.below(3) as u8),
                        };
                        (g.idx(n) as u8, a)
                    })
                    .collect()
            })
            .collect();
        Plan { texts, same_id: g.bool(), editors, watchers }
    }
    fn tune(&self, _p: &Plan, _g: &mut Gen, c: &mut Config) {
        c.p_switch[rt::P_ALLOC] = 0;
    }
    fn run(&self, plan: &'static Plan, cx: &'static Cx) {
        let docs: Vec<Doc> = plan.texts.iter().map(|t| Doc { sync: SyncDocument::new(open(plan.same_id, t)) }).collect();
        let docs: &'static Assert<Vec<Doc>> = Box::leak(Box::new(Assert(docs)));
        // board[watcher][document]: what was edited since that watcher last looked
        let board: &'static Board = Shared::new(vec![vec![vec![]; plan.texts.len()]; plan.watchers.len() + 1]);
        let finished = Shared::new(0usize);
        for (i, e) in plan.editors.iter().enumerate() {
            cx.spawn(&format!("editor{i}"), move || {
                let docs = docs;
                for (k, e) in e {
                    let Some(doc) = docs.0.get(*k as usize) else { continue };
                    edit(plan, &doc.sync, *k as usize, e, board, cx);
                }
                finished.with(|f| *f += 1);
            });
        }
        for (w, acts) in plan.watchers.iter().enumerate() {
            cx.spawn(&format!("watcher{w}"), move || {
                let docs = docs;
                let mut me = Watcher::new(plan.texts.len());
                for (k, a) in acts {
                    let Some(doc) = docs.0.get(*k as usize) else { continue };
                    me.act(w, *k as usize, &doc.sync, a, board, cx);
                }
                // edits over: the watcher hears of the last one and is then up to date
                while finished.with(|f| *f) < plan.editors.len() {
                    rt::yield_now();
                }
                for (k, doc) in docs.0.iter().enumerate() {
                    me.act(w, k, &doc.sync, &Act::Update, board, cx);
                    for (j, p) in ["o", "Hello", "default", "0:00", "ab, c"].iter().enumerate() {
                        for who in [0, 2, 3] {
                            let q = Query { who, pick: 0, a: 0, b: 0, s: p.to_string(), case: j % 2 == 1, word: j == 2, max: 0, scope: 0, c: 0, d: 0 };
                            me.act(w, k, &doc.sync, &Act::Find(q), board, cx);
                        }
                    }
                    me.act(w, k, &doc.sync, &Act::Highlight, board, cx);
                }
            });
        }
        cx.wait();
    }
}
fn open(same: bool, t: &str) -> EditorDocument {
    let plain = |d: &mut EditorDocument| d.insert(Position::new(0), t).is_ok();
    if same {
        let mut d = EditorDocument::with_id("same".into());
        if t.is_empty() || plain(&mut d) {
            return d;
        }
    }
    match EditorDocument::from_content(t) {
        Ok(d) => d,
        Err(_) => {
            let mut d = EditorDocument::new();
            plain(&mut d);
            d
        }
    }
}
fn edit(plan: &'static Plan, d: &SyncDocument, k: usize, e: &Edit, board: &'static Board, cx: &'static Cx) {
    cx.doing(format!("{e:?}"));
    let r = d.with_write(|d| {
        let before = d.text();
        match e {
            Edit::Op(o) => {
                history::apply(d, o);
            }
            Edit::Reopen(t) => *d = open(plan.same_id, t),
            Edit::Word(a, s) => {
                let at = script::floor(&before, *a as usize % (before.len() + 1));
                let end = before[at..].find(|c: char| !c.is_alphanumeric()).map_or(before.len(), |i| at + i);
                let _ = d.replace(Range::new(Position::new(at), Position::new(end)), s);
            }
        }
        let after = d.text();
        if before != after {
            cx.nontrivial();
            let p = before.bytes().zip(after.bytes()).take_while(|(a, b)| a == b).count();
            let q = before[..].bytes().rev().zip(after.bytes().rev()).take_while(|(a, b)| a == b).count().min(before.len().min(after.len()) - p);
            let r = Range::new(Position::new(p), Position::new(before.len() - q));
            board.with(|b| b.iter_mut().for_each(|w| w[k].push(r)));
        }
        Ok(())
    });
    cx.check(r.is_ok(), "lock", || format!("{:?}", r.err()));
}
struct Seen {
    engine: DocumentSearchImpl,
    fuzzy: FstSearchIndex,
    linear: LinearSearchIndex,
    /// the text each of them was last given
    text: [Option<String>; 3],
}
struct Watcher {
    seen: Vec<Seen>,
    high: SyntaxHighlightExtension,
    comp: AutoCompleteExtension,
}
impl Watcher {
    fn new(n: usize) -> Watcher {
        let s = || Seen { engine: DocumentSearchImpl::new(), fuzzy: FstSearchIndex::new(), linear: LinearSearchIndex::new(), text: [None, None, None] };
        Watcher { seen: (0..n).map(|_| s()).collect(), high: SyntaxHighlightExtension::new(), comp: AutoCompleteExtension::new() }
    }
    fn act(&mut self, w: usize, k: usize, d: &SyncDocument, a: &Act, board: &'static Board, cx: &'static Cx) {
        cx.doing(format!("{a:?}"));
        let s = &mut self.seen[k];
        match a {
            Act::Update => {
                let r = d.with_read(|d| {
                    let t = d.text();
                    let mut news = board.with(|b| std::mem::take(&mut b[w][k]));
                    if news.is_empty() {
                        // nothing happened: told so of a place, or told nothing at all
                        if s.text.iter().any(|x| x.as_deref() != Some(&t)) {
                            news.push(Range::new(Position::new(0), Position::new(0)));
                        }
                    }
                    for (i, x) in [&mut s.engine as &mut dyn DocumentSearch, &mut s.fuzzy, &mut s.linear].into_iter().enumerate() {
                        if let Err(e) = x.update_index(d, &news) {
                            cx.fail("update", format!("{e}"));
                        }
                        s.text[i] = Some(t.clone());
                    }
                    cx.log(format!("told of {} edits", news.len()));
                });
                cx.check(r.is_ok(), "lock", || String::new());
            }
            Act::Rebuild(i) => {
                let i = *i as usize % 3;
                let _ = d.with_read(|d| {
                    let x = [&mut s.engine as &mut dyn DocumentSearch, &mut s.fuzzy, &mut s.linear].into_iter().nth(i).unwrap();
                    if let Err(e) = x.build_index(d) {
                        cx.fail("build", format!("{e}"));
                    }
                    s.text[i] = Some(d.text());
                });
            }
            Act::Clear(i) => {
                let i = *i as usize % 3;
                [&mut s.engine as &mut dyn DocumentSearch, &mut s.fuzzy, &mut s.linear].into_iter().nth(i).unwrap().clear_index();
                s.text[i] = None;
                // an engine without an index searches its copy of the text, which is gone as well
            }
            Act::Find(q) => {
                let i = who(q);
                let t = s.text[i].clone().unwrap_or_default();
                let x: &dyn DocumentSearch = match i {
                    0 => &s.engine,
                    1 => &s.fuzzy,
                    _ => &s.linear,
                };
                if let Some((p, o)) = make(q, &t) {
                    let r = x.search(&p, &o);
                    let n = rt::quiet(|| judge(i, &t, &p, &o, &r, cx));
                    cx.log(format!("{p:?} in {} bytes: {n}", t.len()));
                    if n > 0 {
                        cx.probe("found");
                    }
                }
            }
            Act::Replace(q, with) => {
                let i = who(q);
                let r = d.with_write(|d| {
                    let x: &mut dyn DocumentSearch = match i {
                        0 => &mut s.engine,
                        1 => &mut s.fuzzy,
                        _ => &mut s.linear,
                    };
                    let t = d.text();
                    if let Err(e) = x.build_index(d) {
                        cx.fail("build", format!("{e}"));
                    }
                    s.text[i] = Some(t.clone());
                    let Some((p, o)) = make(q, &t) else { return Ok(()) };
                    let found = x.search(&p, &o);
                    rt::quiet(|| judge(i, &t, &p, &o, &found, cx));
                    let got = x.find_replace(d, &p, with, &o);
                    let after = d.text();
                    match (found, got) {
                        (Ok(f), Ok(g)) => {
                            cx.check(f == g, "replaced-other", || format!("{p:?}: found {f:?}, replaced {g:?}"));
                            let mut m: Vec<_> = f.iter().map(|r| (r.start.offset, r.end.offset)).collect();
                            m.sort();
                            let mut want = String::new();
                            let mut at = 0;
                            for (a, b) in m {
                                want += &t[at..a];
                                want += with;
                                at = b;
                            }
                            want += &t[at..];
                            cx.check(after == want, "replaced-wrong", || format!("{p:?} by {with:?} with {o:?} made {after:?} of {t:?}"));
                            if after != t {
                                cx.probe("replaced");
                                cx.nontrivial();
                                board.with(|b| b.iter_mut().for_each(|w| w[k].push(Range::new(Position::new(0), Position::new(t.len())))));
                            }
                        }
                        (_, got) => cx.check(after == t || got.is_ok(), "refused-but-changed", || format!("{p:?} was refused and made {after:?} of {t:?}")),
                    }
                    Ok(())
                });
                cx.check(r.is_ok(), "lock", || String::new());
            }
            Act::Highlight => {
                let _ = d.with_read(|d| {
                    let t = d.text();
                    let v = match self.high.tokenize_document(d) {
                        Ok(v) => v,
                        Err(e) => cx.fail("highlight", format!("{e}")),
                    };
                    rt::quiet(|| tokens(&t, &v, cx));
                });
            }
            Act::Complete(at) => {
                let _ = d.with_read(|d| {
                    let t = d.text();
                    // mostly where something can be completed
                    let at = match at & 3 {
                        0 => script::floor(&t, *at as usize % (t.len() + 1)),
                        1 => spot(&t, "\\", *at),
                        2 => spot(&t, ",", *at),
                        _ => spot(&t, "\n", *at),
                    };
                    complete(&mut self.comp, d, &t, at, cx);
                });
            }
        }
    }
}
fn spot(t: &str, what: &str, a: u64) -> usize {
    let v: Vec<usize> = t.match_indices(what).map(|(i, _)| i + 1).collect();
    if v.is_empty() {
        return 0;
    }
    let p = v[(a >> 4) as usize % v.len()];
    script::floor(t, p + (a >> 2 & 3) as usize)
}
fn who(q: &Query) -> usize {
    match q.who {
        2 => 1,
        3 => 2,
        _ => 0,
    }
}
fn is_word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}
/// The pattern and options of a query over a text; nothing for a query that has no settled meaning.
fn make(q: &Query, t: &str) -> Option<(String, SearchOptions)> {
    let regex = REGEX.contains(&q.s.as_str()) && q.pick < 2;
    if regex && who(q) != 0 {
        return None;
    }
    let p = match q.pick {
        0..=2 => q.s.clone(),
        // a piece of the text
        3 | 4 => {
            let a = script::floor(t, q.a as usize % (t.len() + 1));
            let b = script::floor(t, a + 1 + q.b as usize % if q.pick == 3 { 4 } else { 14 }).max(a);
            t[a..b].to_string()
        }
        // a word of the text, whole or in part
        _ => {
            let w: Vec<&str> = t.split(|c| !is_word(c)).filter(|w| !w.is_empty()).collect();
            let w = if w.is_empty() { "none" } else { w[q.a as usize % w.len()] };
            if q.pick == 5 {
                w[script::floor(w, q.b as usize % w.len())..].to_string()
            } else {
                w.to_string()
            }
        }
    };
    let p = if q.pick == 7 { p.to_uppercase() } else { p };
    // letters whose capitals are written differently from one place to another are left out
    if p.is_empty() || p.chars().any(odd) {
        return None;
    }
    let lines = t.matches('\n').count() as u64 + 2;
    let scope = match q.scope {
        1 => SearchScope::Lines { start: (q.c % lines) as usize, end: (q.d % lines) as usize },
        2 => {
            let a = script::floor(t, q.c as usize % (t.len() + 1));
            let b = script::floor(t, q.d as usize % (t.len() + 1));
            SearchScope::Range(Range::new(Position::new(a.min(b)), Position::new(a.max(b))))
        }
        3 => SearchScope::Sections(["Events", "V4+ Styles", "Script Info", "Fonts"].iter().enumerate().filter(|(i, _)| q.c >> i & 1 == 1).map(|(_, s)| s.to_string()).collect()),
        _ => SearchScope::All,
    };
    Some((p, SearchOptions { case_sensitive: q.case, whole_words: q.word && !regex, max_results: q.max as usize, use_regex: regex, scope }))
}
fn odd(c: char) -> bool {
    matches!(c, 'ς' | 'σ' | 'Σ' | 'İ' | 'ı' | 'ß' | 'ẞ' | 'ſ' | '\u{212a}' | '\u{212b}')
}
fn fold(s: &str) -> String {
    s.chars().flat_map(char::to_lowercase).collect()
}
fn same(a: &str, b: &str, o: &SearchOptions) -> bool {
    if o.case_sensitive {
        a == b
    } else {
        fold(a) == fold(b)
    }
}
/// The parts of the text a search may look at.
fn scopes(t: &str, o: &SearchOptions) -> Vec<(usize, usize)> {
    match &o.scope {
        SearchScope::All => vec![(0, t.len())],
        SearchScope::Range(r) => vec![(r.start.offset, r.end.offset)],
        SearchScope::Lines { start, end } => {
            let mut at = 0;
            let mut v: Vec<(usize, usize)> = vec![];
            for l in t.split('\n') {
                v.push((at, at + l.len()));
                at += l.len() + 1;
            }
            if start > end || *start >= v.len() {
                return vec![];
            }
            vec![(v[*start].0, v[(*end).min(v.len() - 1)].1)]
        }
        SearchScope::Sections(names) => {
            let mut v: Vec<(usize, usize)> = vec![];
            let mut on = false;
            let mut at = 0;
            for full in t.split_inclusive('\n') {
                let l = full.strip_suffix('\n').unwrap_or(full);
                let l = l.strip_suffix('\r').unwrap_or(l);
                if l.starts_with('[') && l.ends_with(']') {
                    on = names.iter().any(|n| n == &l[1..l.len() - 1]);
                    if on {
                        v.push((at, at));
                    }
                }
                at += full.len();
                if on {
                    v.last_mut().unwrap().1 = at;
                }
            }
            v
        }
    }
}
fn whole(t: &str, a: usize, b: usize) -> bool {
    !t[..a].chars().next_back().is_some_and(is_word) && !t[b..].chars().next().is_some_and(is_word)
}
/// What a search by reading the text from the left finds.
fn naive(t: &str, p: &str, o: &SearchOptions) -> Vec<(usize, usize)> {
    let mut out = vec![];
    for (from, to) in scopes(t, o) {
        let part = &t[from..to];
        if o.use_regex {
            let p = if o.case_sensitive { p.to_string() } else { format!("(?i){p}") };
            let Ok(r) = regex::Regex::new(&p) else { return vec![] };
            out.extend(r.find_iter(part).map(|m| (from + m.start(), from + m.end())));
            continue;
        }
        let ends: Vec<usize> = part.char_indices().map(|(i, _)| i).chain([part.len()]).collect();
        let n = p.chars().count();
        let mut i = 0;
        while i + n < ends.len() {
            let (a, b) = (from + ends[i], from + ends[i + n]);
            if same(&t[a..b], p, o) && (!o.whole_words || whole(t, a, b)) {
                out.push((a, b));
                i += n;
            } else {
                i += 1;
            }
        }
    }
    if o.max_results > 0 {
        out.truncate(o.max_results);
    }
    out
}
/// Pieces of the text that a word search reports as a whole: (start, end, line start, line end).
fn runs(t: &str, sep: fn(char) -> bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut at = 0;
    for full in t.split_inclusive('\n') {
        let mut start = None;
        for (i, c) in full.char_indices().chain([(full.len(), '\n')]) {
            match (sep(c) || c == '\n', start) {
                (true, Some(s)) => {
                    v.push((at + s, at + i));
                    start = None;
                }
                (false, None) => start = Some(i),
                _ => {}
            }
        }
        at += full.len();
    }
    v
}
fn inside(t: &str, o: &SearchOptions, a: usize, b: usize) -> bool {
    matches!(o.scope, SearchScope::All) || scopes(t, o).iter().any(|(x, y)| a >= *x && b <= *y)
}
fn judge(i: usize, t: &str, p: &str, o: &SearchOptions, r: &ass_editor::Result<Vec<SearchResult<'_>>>, cx: &Cx) -> usize {
    let v = match r {
        Ok(v) => v,
        Err(e) => {
            cx.check(o.use_regex && regex::Regex::new(p).is_err(), "search", || format!("{p:?} with {o:?}: {e}"));
            return 0;
        }
    };
    for x in v {
        let (a, b) = (x.start.offset, x.end.offset);
        cx.check(t.get(a..b) == Some(&*x.text), "match-elsewhere", || format!("{p:?}: {:?} said to be at {a}..{b} of {t:?}, where {:?} is", x.text, t.get(a..b)));
        let line = t[..a].matches('\n').count();
        let start = t[..a].rfind('\n').map_or(0, |i| i + 1);
        let end = t[a..].find('\n').map_or(t.len(), |i| a + i);
        cx.check(x.line == line && x.column == a - start, "match-line", || format!("{p:?}: match at {a} of {t:?} is at {line}:{}, said to be at {}:{}", a - start, x.line, x.column));
        let l = &t[start..end];
        cx.check(*x.context == *l || *x.context == *l.strip_suffix('\r').unwrap_or(l), "match-context", || format!("{p:?}: context {:?} of a match in {l:?}", x.context));
        cx.check(inside(t, o, a, b), "match-out-of-scope", || format!("{p:?}: match at {a}..{b} of {t:?} with {o:?}"));
    }
    let got: Vec<(usize, usize)> = v.iter().map(|x| (x.start.offset, x.end.offset)).collect();
    let bad = |want: &[(usize, usize)]| format!("{p:?} with {o:?} found {got:?} instead of {want:?} in {t:?}");
    let q = fold(p);
    match i {
        0 => {
            let want = naive(t, p, o);
            cx.check(got == want, if got.len() < want.len() { "match-missing" } else { "match-other" }, || bad(&want));
        }
        1 => {
            // words that hold the letters of the pattern in order
            let holds = |w: &str| {
                let (w, p) = if o.case_sensitive { (w.to_string(), p.to_string()) } else { (fold(w), q.clone()) };
                let mut c = w.chars();
                p.chars().all(|x| c.any(|y| y == x))
            };
            let mut want: Vec<(usize, usize)> = runs(t, |c| !is_word(c)).into_iter().filter(|(a, b)| b - a >= 2 && holds(&t[*a..*b]) && inside(t, o, *a, *b) && (!o.whole_words || same(&t[*a..*b], p, o))).collect();
            let mut sorted = got.clone();
            sorted.sort();
            let n = want.len();
            want.retain(|w| sorted.contains(w));
            let full = if o.max_results > 0 { n.min(o.max_results) } else { n };
            cx.check(sorted == want && want.len() == full, "words-found", || format!("{} of {n} words: {}", want.len(), bad(&want)));
        }
        _ => {
            // the first place in each word
            let mut want = vec![];
            for (a, b) in runs(t, char::is_whitespace) {
                let ends: Vec<usize> = t[a..b].char_indices().map(|(i, _)| a + i).chain([b]).collect();
                let n = p.chars().count();
                let hit = (0..ends.len().saturating_sub(n)).map(|i| (ends[i], ends[i + n])).find(|(x, y)| same(&t[*x..*y], p, o) && inside(t, o, *x, *y) && (!o.whole_words || whole(t, *x, *y)));
                want.extend(hit);
            }
            if o.max_results > 0 {
                want.truncate(o.max_results);
            }
            cx.check(got == want, "linear-found", || bad(&want));
        }
    }
    got.len()
}

/// What the tokens say must be what the text holds.
fn tokens(t: &str, v: &[HighlightToken], cx: &Cx) {
    let say = |k: &HighlightToken| format!("{:?} {:?} {}..{} of {t:?}", k.token_type, k.semantic_info, k.range.start.offset, k.range.end.offset);
    let mut at = 0;
    let mut got: Vec<(&'static str, usize, String)> = vec![];
    for k in v {
        let (a, b) = (k.range.start.offset, k.range.end.offset);
        let Some(s) = t.get(a..b) else { cx.fail("token-outside", say(k)) };
        cx.check(a >= at && !s.contains('\n'), "token-order", || say(k));
        at = b;
        let i = k.semantic_info.clone();
        let name = match k.token_type {
            TokenType::SectionHeader => {
                cx.check(i.as_ref().is_some_and(|i| s == format!("[{i}]")), "token-text", || say(k));
                "section"
            }
            TokenType::FieldName => {
                cx.check(i.as_ref().is_some_and(|i| s == format!("{i}:")), "token-text", || say(k));
                "field"
            }
            TokenType::EventType => {
                cx.check(i.as_ref().is_some_and(|i| s == format!("{i}:")), "token-text", || say(k));
                "event"
            }
            TokenType::StyleName => {
                cx.check(i.as_ref().is_some_and(|i| s.trim() == i), "token-text", || say(k));
                "style"
            }
            TokenType::Comment => "comment",
            TokenType::TimeCode => "time",
            TokenType::OverrideTag => {
                cx.check(i.as_ref().is_none_or(|i| s == i) && (i.is_some() || s == "{" || s == "}"), "token-text", || say(k));
                continue;
            }
            _ => continue,
        };
        got.push((name, a, s.trim().to_string()));
    }
    if v.len() >= 10_000 {
        return;
    }
    let mut want = vec![];
    let mut at = 0;
    let mut section = None;
    for full in t.split_inclusive('\n') {
        let l = match full.strip_suffix('\n') {
            Some(l) => l.strip_suffix('\r').unwrap_or(l),
            None => full,
        };
        let mut tok = |k: &'static str, a: usize, s: &str| want.push((k, at + a + s.len() - s.trim_start().len(), s.trim().to_string()));
        if l.starts_with('[') && l.ends_with(']') {
            tok("section", 0, l);
            section = Some(&l[1..l.len() - 1]);
        } else if l.starts_with(';') {
            tok("comment", 0, l);
        } else {
            let head = |h: &str| l.starts_with(h).then_some(h.len());
            match section {
                Some("Script Info" | "Aegisub Project Garbage") => {
                    if let Some(i) = l.find(':') {
                        tok("field", 0, &l[..i + 1]);
                    }
                }
                Some("V4+ Styles" | "V4 Styles") => {
                    if let Some(n) = head("Format:") {
                        tok("field", 0, &l[..n]);
                    } else if let Some(n) = head("Style:") {
                        tok("field", 0, &l[..n]);
                        tok("style", n, l[n..].split(',').next().unwrap());
                    }
                }
                Some("Events") => {
                    if let Some(n) = head("Format:") {
                        tok("field", 0, &l[..n]);
                    } else if let Some(n) = head("Dialogue:").or(head("Comment:")) {
                        tok("event", 0, &l[..n]);
                        let f: Vec<&str> = l[n..].split(',').collect();
                        if f.len() > 9 {
                            let mut p = n + f[0].len() + 1;
                            for (k, x) in [("time", f[1]), ("time", f[2]), ("style", f[3])] {
                                tok(k, p, x);
                                p += x.len() + 1;
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        at += full.len();
    }
    // where a trimmed token begins is settled by its text, not by the blanks around it
    let got: Vec<_> = got.into_iter().map(|(k, a, s)| (k, if s.is_empty() { 0 } else { a + t[a..].find(&s).unwrap_or(0) }, s)).collect();
    let want: Vec<_> = want.into_iter().map(|(k, a, s): (&'static str, usize, String)| (k, if s.is_empty() { 0 } else { a }, s)).collect();
    if got != want {
        let n = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        cx.fail("tokens-differ", format!("token {n}: {:?} instead of {:?} in {t:?}", got.get(n), want.get(n)));
    }
}
fn complete(c: &mut AutoCompleteExtension, d: &EditorDocument, t: &str, at: usize, cx: &Cx) {
    let p = Position::new(at);
    let v = match c.get_completions(d, p) {
        Ok(v) => v,
        Err(e) => cx.fail("complete", format!("{e}")),
    };
    let fresh = AutoCompleteExtension::new().get_completions(d, p).unwrap_or_default();
    cx.check(v == fresh, "completion-differs", || format!("at {at} of {t:?}: {v:?}, a new one says {fresh:?}"));
    let line = t[..at].rfind('\n').map_or(0, |i| i + 1);
    let end = t[at..].find('\n').map_or(t.len(), |i| at + i);
    let head = &t[line..at];
    let section = t[..line].lines().rev().find(|l| l.starts_with('[') && l.ends_with(']')).map(|l| &l[1..l.len() - 1]);
    let tag = head.rfind('{').filter(|i| !head[*i..].contains('}'));
    for x in &v {
        let bad = || format!("at {at} of {t:?}: {x:?}");
        match x.completion_type {
            CompletionType::Tag => {
                cx.check(tag.is_some(), "completion-place", bad);
                let typed = head[tag.unwrap()..].rfind('\\').map_or("", |i| &head[tag.unwrap() + i + 1..]);
                let typed = &typed[..typed.find(|c: char| !c.is_alphanumeric()).unwrap_or(typed.len())];
                cx.check(x.label.strip_prefix('\\').is_some_and(|l| l.starts_with(typed)), "completion-prefix", bad);
                cx.probe("tag_completed");
            }
            CompletionType::Section => {
                let l = &t[line..end];
                cx.check(l.is_empty() || l.starts_with('['), "completion-place", bad);
                cx.check(head.len() < 2 || x.label.to_lowercase().starts_with(&head.to_lowercase()), "completion-prefix", bad);
            }
            CompletionType::StyleRef => {
                cx.check(section == Some("Events") && head.matches(',').count() == 3, "completion-place", bad);
                cx.check(t.contains(&x.label), "completion-style", bad);
                cx.probe("style_completed");
            }
            _ => {}
        }
    }
    // every style of a script can be referred to
    let l = t[line..end].trim_start();
    if section == Some("Events") && (l.starts_with("Dialogue:") || l.starts_with("Comment:")) && head.matches(',').count() == 3 && tag.is_none() {
        let m = crate::checks::structured::parse(t);
        let read: Vec<String> = ass_core::Script::parse(t).map_or(vec![], |z| {
            let styles = |x: &ass_core::parser::Section| match x {
                ass_core::parser::Section::Styles(v) => v.iter().map(|s| s.name.to_string()).collect(),
                _ => vec![],
            };
            z.sections().iter().flat_map(styles).collect()
        });
        let tidy = t.lines().all(|l| !l.trim_start().starts_with("Format") || l == script::ST_FORMAT || l == script::EV_FORMAT) && m.headers.iter().filter(|h| h.contains("Styles")).count() == 1 && m.styles.iter().all(|s| s.len() == 23)
            && m.styles.iter().map(|s| s[0].as_str()).eq(read.iter().map(String::as_str));
        if tidy && v.len() < 20 {
            for s in &m.styles {
                cx.check(v.iter().any(|x| x.completion_type == CompletionType::StyleRef && x.label == s[0]), "style-not-offered", || format!("{:?} at {at} of {t:?}: {v:?}", s[0]));
            }
        }
    }
}
pub fn check() -> Check {
    Check {
        id: "C20",
        real: "DocumentSearchImpl, FstSearchIndex, LinearSearchIndex, SyntaxHighlightExtension, AutoCompleteExtension, SyncDocument, EditorDocument (compiled from the tree)",
        stub: "callers and notices of edits (generated)",
        rule: "at least one edit changed a text",
        parts: vec![part(Lookup, 20_000, 1_000_000)],
    }
}
