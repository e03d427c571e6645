//! One document shared between threads (`SyncDocument`, `ScopedDocumentLock`, `AsyncDocument`)
//! and a pool of them (`DocumentPool`): concurrent clients against sequential models, with
//! failing and panicking commands and a realtime clock that repeats and steps back.
use crate::engine::{part, Check, Cx, Scenario, Shared};
use crate::gen::Gen;
use crate::lin::{self, Call, Model};
use crate::rt::{self, Config};
use ass_editor::commands::*;
use ass_editor::core::errors::EditorError;
use ass_editor::core::thread_safety::{AsyncDocument, DocumentPool, ScopedDocumentLock, SyncDocument};
use ass_editor::{EditorDocument, Position, Range};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// `SyncDocument` is neither `Send` nor `Sync` (its arena uses `Cell`), although it is documented
/// for sharing between threads. The simulator runs one thread at a time, so this is safe here.
struct Assert<T>(T);
unsafe impl<T> Send for Assert<T> {}
unsafe impl<T> Sync for Assert<T> {}
impl<T> Assert<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash, PartialEq, Eq)]
pub enum Op {
    Append(u32),
    /// a write callback that edits, then fails: the edit stays, as documented for raw write access
    AppendFail(u32),
    AppendPanic(u32),
    /// two edits in one command, with a scheduling point between them
    Cmd(u32),
    CmdFail(u32),
    /// the command reports failure through its result
    CmdRefuse(u32),
    CmdPanic(u32),
    InsertFront(u32),
    /// delete the first token
    DeleteFront,
    Clear(u32),
    Undo,
    Redo,
    Text,
    Len,
    /// two reads under one read guard
    ReadTwice,
    TryRead,
    TryAppend(u32),
    Scoped(u32),
    CloneText,
    Validate,
    Id,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub asynchronous: bool,
    pub clients: Vec<Vec<Op>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Res {
    Unit,
    Text(String),
    Len(usize),
    None,
    Err,
    Lock,
    Panicked,
    Refused,
    Two(String, String),
}
struct Rec {
    op: Op,
    res: Res,
    /// no other call overlapped this one
    alone: bool,
}
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
struct M {
    text: String,
    undo: Vec<String>,
    redo: Vec<String>,
    doc_poisoned: bool,
    cmd_poisoned: bool,
}
fn tok(n: u32) -> String {
    format!("<{n}>")
}
impl M {
    fn edit(&mut self, t: String) {
        let old = std::mem::replace(&mut self.text, t);
        self.undo.push(old);
        self.redo.clear();
    }
    fn append(&mut self, s: &str) {
        let t = format!("{}{s}", self.text);
        self.edit(t)
    }
}
fn first_token(t: &str) -> usize {
    t.find('>').map(|i| i + 1).unwrap_or(0)
}
impl Model for M {
    type Op = Rec;
    fn step(&self, r: &Rec, _c: bool) -> Vec<M> {
        let mut m = self.clone();
        let yes = |ok: bool, m: M| if ok { vec![m] } else { vec![] };
        let is_cmd = matches!(r.op, Op::Cmd(_) | Op::CmdFail(_) | Op::CmdRefuse(_) | Op::CmdPanic(_) | Op::InsertFront(_) | Op::DeleteFront | Op::Clear(_));
        if m.doc_poisoned || (m.cmd_poisoned && is_cmd) {
            return match r.op {
                Op::TryRead | Op::TryAppend(_) => yes(r.res == Res::None, m),
                _ => yes(r.res == Res::Lock, m),
            };
        }
        match &r.op {
            Op::Append(n) => {
                m.append(&tok(*n));
                let t = m.text.clone();
                yes(r.res == Res::Text(t), m)
            }
            Op::AppendFail(n) => {
                m.append(&tok(*n));
                yes(r.res == Res::Err, m)
            }
            Op::AppendPanic(_) | Op::CmdPanic(_) => {
                m.doc_poisoned = true;
                m.cmd_poisoned |= is_cmd;
                yes(r.res == Res::Panicked, m)
            }
            Op::Cmd(n) => {
                let t = format!("{}{}{}", tok(*n), m.text, tok(*n));
                m.edit(t.clone());
                yes(r.res == Res::Text(t), m)
            }
            Op::CmdFail(_) => yes(r.res == Res::Err, m),
            Op::CmdRefuse(_) => yes(r.res == Res::Refused, m),
            Op::InsertFront(n) => {
                let t = format!("{}{}", tok(*n), m.text);
                m.edit(t);
                yes(r.res == Res::Unit, m)
            }
            Op::DeleteFront => {
                let k = first_token(&m.text);
                if k > 0 {
                    let t = m.text[k..].to_string();
                    m.edit(t);
                }
                yes(r.res == Res::Unit, m)
            }
            Op::Clear(n) => {
                m.edit(tok(*n));
                yes(r.res == Res::Unit, m)
            }
            Op::Undo => match m.undo.pop() {
                None => yes(r.res == Res::Err, m),
                Some(t) => {
                    let old = std::mem::replace(&mut m.text, t.clone());
                    m.redo.push(old);
                    yes(r.res == Res::Text(t), m)
                }
            },
            Op::Redo => match m.redo.pop() {
                None => yes(r.res == Res::Err, m),
                Some(t) => {
                    let old = std::mem::replace(&mut m.text, t.clone());
                    m.undo.push(old);
                    yes(r.res == Res::Text(t), m)
                }
            },
            Op::Text | Op::CloneText => {
                let t = m.text.clone();
                yes(r.res == Res::Text(t), m)
            }
            Op::Len => {
                let n = m.text.len();
                yes(r.res == Res::Len(n), m)
            }
            Op::ReadTwice => {
                let t = m.text.clone();
                yes(r.res == Res::Two(t.clone(), t), m)
            }
            Op::TryRead => {
                if r.res == Res::None {
                    return yes(!r.alone, m);
                }
                let t = m.text.clone();
                yes(r.res == Res::Text(t), m)
            }
            Op::TryAppend(n) => {
                if r.res == Res::None {
                    return yes(!r.alone, m);
                }
                m.append(&tok(*n));
                let t = m.text.clone();
                yes(r.res == Res::Text(t), m)
            }
            Op::Scoped(n) => {
                m.append(&tok(*n));
                m.append(&tok(*n));
                let t = m.text.clone();
                yes(r.res == Res::Text(t), m)
            }
            Op::Validate | Op::Id => yes(r.res == Res::Unit, m),
        }
    }
}

/// How a user command misbehaves.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Mode {
    Ok,
    Fail,
    Refuse,
    Panic,
}
#[derive(Debug)]
struct Twice(u32, Mode);
impl EditorCommand for Twice {
    fn execute(&self, d: &mut EditorDocument) -> ass_editor::Result<CommandResult> {
        d.insert(Position::new(d.len()), &tok(self.0))?;
        rt::point();
        match self.1 {
            Mode::Fail => return Err(EditorError::CommandFailed { message: "injected".into() }),
            Mode::Refuse => return Ok(CommandResult::failure("refused".into())),
            Mode::Panic => panic!("injected"),
            Mode::Ok => {}
        }
        d.insert(Position::new(0), &tok(self.0))?;
        let mut r = CommandResult::success_with_change(Range::new(Position::new(0), Position::new(d.len())), Position::new(0));
        r.message = Some(d.text());
        Ok(r)
    }
    fn description(&self) -> &str {
        "twice"
    }
}
/// Deletes the first token / replaces everything, from what the document holds when it runs.
#[derive(Debug)]
struct Front(Option<u32>);
impl EditorCommand for Front {
    fn execute(&self, d: &mut EditorDocument) -> ass_editor::Result<CommandResult> {
        rt::point();
        let t = d.text();
        match self.0 {
            None => {
                let k = first_token(&t);
                if k == 0 {
                    return Ok(CommandResult::success());
                }
                DeleteTextCommand::new(Range::new(Position::new(0), Position::new(k))).execute(d)
            }
            Some(n) => ReplaceTextCommand::new(Range::new(Position::new(0), Position::new(t.len())), tok(n)).execute(d),
        }
    }
    fn description(&self) -> &str {
        "front"
    }
}

pub struct SharedDoc;
impl Scenario for SharedDoc {
    type Plan = Plan;
    fn name(&self) -> &'static str {
        "shared-document"
    }
    fn gen(&self, g: &mut Gen) -> Plan {
        let asynchronous = g.chance(1, 8);
        let nc = g.range(2, 4);
        let mut w: Vec<u64> = (0..21).map(|_| *g.pick(&[0u64, 1, 2, 4])).collect();
        w[0] += 2;
        w[3] += 2;
        w[12] += 1;
        let poison = g.chance(1, 4);
        w[2] = poison as u64;
        w[6] = poison as u64;
        let total = g.range(4, 18);
        let mut n = 0;
        let clients = (0..nc)
            .map(|_| {
                (0..(total / nc).max(2))
                    .map(|_| {
                        n += 1;
                        let k = g.weighted(&w);
                        let k = if asynchronous && !matches!(k, 3 | 4 | 5 | 6 | 7 | 8 | 9) { 12 } else { k };
                        match k {
                            0 => Op::Append(n),
                            1 => Op::AppendFail(n),
                            2 => Op::AppendPanic(n),
                            3 => Op::Cmd(n),
                            4 => Op::CmdFail(n),
                            5 => Op::CmdRefuse(n),
                            6 => Op::CmdPanic(n),
                            7 => Op::InsertFront(n),
                            8 => Op::DeleteFront,
                            9 => Op::Clear(n),
                            10 => Op::Undo,
                            11 => Op::Redo,
                            12 => Op::Text,
                            13 => Op::Len,
                            14 => Op::ReadTwice,
                            15 => Op::TryRead,
                            16 => Op::TryAppend(n),
                            17 => Op::Scoped(n),
                            18 => Op::CloneText,
                            19 => Op::Validate,
                            _ => Op::Id,
                        }
                    })
                    .collect()
            })
            .collect();
        Plan { asynchronous, clients }
    }
    fn run(&self, plan: &'static Plan, cx: &'static Cx) {
        let hist: &'static Shared<Vec<Call<Rec>>> = Shared::new(vec![]);
        let doc = EditorDocument::new();
        let id: &'static str = Box::leak(doc.id().to_string().into_boxed_str());
        let init_text = doc.text();
        let (sync, asy): (Option<&'static Assert<SyncDocument>>, Option<&'static Assert<AsyncDocument>>) = if plan.asynchronous {
            cx.probe("async");
            (None, Some(Box::leak(Box::new(Assert(AsyncDocument::new(doc))))))
        } else {
            (Some(Box::leak(Box::new(Assert(SyncDocument::new(doc))))), None)
        };
        for ops in plan.clients.iter() {
            cx.spawn("client", move || {
                let mine = sync.map(|s| Assert(s.get().clone()));
                for op in ops {
                    match (&mine, asy) {
                        (Some(s), _) => exec(s.get(), op, cx, hist, id),
                        (_, Some(a)) => exec_async(a.get(), op, cx, hist),
                        _ => {}
                    }
                    rt::point();
                }
            });
        }
        cx.wait();
        match (sync, asy) {
            (Some(s), _) => {
                for op in [Op::Text, Op::Undo, Op::Text, Op::Redo, Op::Redo, Op::Text] {
                    exec(s.get(), &op, cx, hist, id)
                }
            }
            (_, Some(a)) => exec_async(a.get(), &Op::Text, cx, hist),
            _ => {}
        }
        hist.with(|h| {
            let iv: Vec<(u64, u64)> = h.iter().map(|c| (c.inv, c.ret)).collect();
            for (i, c) in h.iter_mut().enumerate() {
                c.op.alone = iv.iter().enumerate().all(|(j, (a, b))| j == i || *b < c.inv || *a > c.ret);
            }
            if h.iter().any(|c| !c.op.alone) {
                cx.nontrivial();
            }
            let init = M { text: init_text.clone(), undo: vec![], redo: vec![], doc_poisoned: false, cmd_poisoned: false };
            match lin::check(init, h, |_| true, 400_000) {
                Ok(None) => {}
                Ok(Some(k)) => cx.fail("shared-document:not-linearizable", format!("no sequential order of the {} completed calls explains their results (at most {k} fit)", h.len())),
                Err(()) => cx.probe("lin_search_too_large"),
            }
        });
    }
}
fn map_err(e: EditorError) -> Res {
    match e {
        EditorError::ThreadSafetyError { .. } => Res::Lock,
        _ => Res::Err,
    }
}
fn cmd_res(r: ass_editor::Result<CommandResult>) -> Res {
    match r {
        Ok(r) if !r.success => Res::Refused,
        Ok(r) => r.message.filter(|m| m.starts_with('<')).map(Res::Text).unwrap_or(Res::Unit),
        Err(e) => map_err(e),
    }
}
fn panics(cx: &'static Cx, f: impl FnOnce() -> Res) -> Res {
    match cx.catch(f) {
        Ok(r) => r,
        Err(p) if p.starts_with("injected") => {
            cx.probe("callback_panic");
            Res::Panicked
        }
        Err(p) => cx.fail("shared-document:panic", p),
    }
}
fn exec(s: &SyncDocument, op: &Op, cx: &'static Cx, hist: &'static Shared<Vec<Call<Rec>>>, id: &'static str) {
    cx.doing(format!("{op:?}"));
    let inv = cx.log(format!("call {op:?}"));
    let append = |n: u32| {
        move |d: &mut EditorDocument| -> ass_editor::Result<String> {
            d.insert(Position::new(d.len()), &tok(n))?;
            rt::point();
            Ok(d.text())
        }
    };
    let res = match op {
        Op::Append(n) => s.with_write(append(*n)).map(Res::Text).unwrap_or_else(map_err),
        Op::AppendFail(n) => s
            .with_write(|d| {
                append(*n)(d)?;
                Err::<(), _>(EditorError::CommandFailed { message: "injected".into() })
            })
            .map(|_| Res::Unit)
            .unwrap_or_else(map_err),
        Op::AppendPanic(n) => panics(cx, || {
            s.with_write(|d| {
                append(*n)(d)?;
                if true {
                    panic!("injected");
                }
                Ok(())
            })
            .map(|_| Res::Unit)
            .unwrap_or_else(map_err)
        }),
        Op::Cmd(n) => cmd_res(s.execute_command(Twice(*n, Mode::Ok))),
        Op::CmdFail(n) => cmd_res(s.execute_command(Twice(*n, Mode::Fail))),
        Op::CmdRefuse(n) => cmd_res(s.execute_command(Twice(*n, Mode::Refuse))),
        Op::CmdPanic(n) => panics(cx, || cmd_res(s.execute_command(Twice(*n, Mode::Panic)))),
        Op::InsertFront(n) => cmd_res(s.execute_command(InsertTextCommand::new(Position::new(0), tok(*n)))),
        Op::DeleteFront => cmd_res(s.execute_command(Front(None))),
        Op::Clear(n) => cmd_res(s.execute_command(Front(Some(*n)))),
        Op::Undo => s
            .with_write(|d| {
                d.undo()?;
                Ok(d.text())
            })
            .map(Res::Text)
            .unwrap_or_else(map_err),
        Op::Redo => s
            .with_write(|d| {
                d.redo()?;
                Ok(d.text())
            })
            .map(Res::Text)
            .unwrap_or_else(map_err),
        Op::Text => s.text().map(Res::Text).unwrap_or_else(map_err),
        Op::Len => match s.is_empty() {
            Err(e) => map_err(e),
            Ok(_) => s.len().map(Res::Len).unwrap_or_else(map_err),
        },
        Op::ReadTwice => s
            .with_read(|d| {
                let a = d.text();
                rt::point();
                rt::point();
                Res::Two(a, d.text())
            })
            .unwrap_or_else(map_err),
        Op::TryRead => match s.try_read() {
            None => Res::None,
            Some(g) => {
                rt::point();
                Res::Text(g.text())
            }
        },
        Op::TryAppend(n) => match s.try_write() {
            None => Res::None,
            Some(mut g) => append(*n)(&mut g).map(Res::Text).unwrap_or_else(map_err),
        },
        Op::Scoped(n) => match ScopedDocumentLock::new(s) {
            Err(e) => map_err(e),
            Ok(mut l) => {
                let a = append(*n)(l.document());
                rt::point();
                match a.and_then(|_| append(*n)(l.document())) {
                    Ok(t) => Res::Text(t),
                    Err(e) => map_err(e),
                }
            }
        },
        Op::CloneText => s.clone_document().map(|d| Res::Text(d.text())).unwrap_or_else(map_err),
        Op::Validate => match s.validate() {
            Err(e) => map_err(e),
            Ok(()) => s.validate_comprehensive().map(|_| Res::Unit).unwrap_or_else(map_err),
        },
        Op::Id => match s.id() {
            Ok(i) if i == id => Res::Unit,
            Ok(_) => Res::Err,
            Err(e) => map_err(e),
        },
    };
    let ret = cx.log(format!("ret  {res:?}"));
    hist.with(|h| h.push(Call { inv, ret, op: Rec { op: op.clone(), res, alone: false } }));
}
fn block_on<T>(f: impl std::future::Future<Output = T>) -> T {
    let mut f = std::pin::pin!(f);
    let w = futures::task::noop_waker();
    let mut c = std::task::Context::from_waker(&w);
    loop {
        if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut c) {
            return x;
        }
        rt::yield_now();
    }
}
fn exec_async(a: &AsyncDocument, op: &Op, cx: &'static Cx, hist: &'static Shared<Vec<Call<Rec>>>) {
    cx.doing(format!("{op:?}"));
    let inv = cx.log(format!("call async {op:?}"));
    let res = match op {
        Op::Cmd(n) => cmd_res(block_on(a.execute_command_async(Twice(*n, Mode::Ok)))),
        Op::CmdFail(n) => cmd_res(block_on(a.execute_command_async(Twice(*n, Mode::Fail)))),
        Op::CmdRefuse(n) => cmd_res(block_on(a.execute_command_async(Twice(*n, Mode::Refuse)))),
        Op::CmdPanic(n) => panics(cx, || cmd_res(block_on(a.execute_command_async(Twice(*n, Mode::Panic))))),
        Op::InsertFront(n) => cmd_res(block_on(a.execute_command_async(InsertTextCommand::new(Position::new(0), tok(*n))))),
        Op::DeleteFront => cmd_res(block_on(a.execute_command_async(Front(None)))),
        Op::Clear(n) => cmd_res(block_on(a.execute_command_async(Front(Some(*n))))),
        _ => block_on(a.text_async()).map(Res::Text).unwrap_or_else(map_err),
    };
    let op = if matches!(op, Op::Cmd(_) | Op::CmdFail(_) | Op::CmdRefuse(_) | Op::CmdPanic(_) | Op::InsertFront(_) | Op::DeleteFront | Op::Clear(_)) { op.clone() } else { Op::Text };
    let ret = cx.log(format!("ret  {res:?}"));
    hist.with(|h| h.push(Call { inv, ret, op: Rec { op, res, alone: false } }));
}

// ------------------------------------------------------------------ pool
#[derive(Clone, Debug, Serialize, Deserialize, Hash, PartialEq, Eq)]
pub enum POp {
    Add(u32),
    /// add the same document content with a file path
    AddFile(u32),
    Get(u8),
    Append(u8, u32),
    Read(u8),
    Remove(u8),
    List,
    Count,
    PanicWrite(u8),
    Missing,
    /// a document of an unrelated instance
    Other,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PPlan {
    pub coarse: u32,
    pub back: Vec<u32>,
    pub clients: Vec<Vec<POp>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum PRes {
    Id(u32),
    Found,
    NotFound,
    Unit,
    Text(String),
    List(Vec<u32>),
    Raw(Vec<String>),
    Count(usize),
    Lock,
    Panicked,
    Err,
}
struct PRec {
    op: POp,
    doc: u32,
    res: PRes,
}
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
struct PM {
    pool: BTreeMap<u32, ()>,
    text: BTreeMap<u32, Option<String>>,
}
impl Model for PM {
    type Op = PRec;
    fn step(&self, r: &PRec, _c: bool) -> Vec<PM> {
        let mut m = self.clone();
        let yes = |ok: bool, m: PM| if ok { vec![m] } else { vec![] };
        match &r.op {
            POp::Add(n) | POp::AddFile(n) => {
                m.pool.insert(*n, ());
                m.text.insert(*n, Some(tok(*n)));
                yes(r.res == PRes::Id(*n), m)
            }
            POp::Get(_) => {
                let has = m.pool.contains_key(&r.doc);
                yes(r.res == if has { PRes::Found } else { PRes::NotFound }, m)
            }
            POp::Append(_, n) => match m.text.get_mut(&r.doc) {
                Some(Some(t)) => {
                    t.push_str(&tok(*n));
                    let t = t.clone();
                    yes(r.res == PRes::Text(t), m)
                }
                _ => yes(r.res == PRes::Lock, m),
            },
            POp::Read(_) => match m.text.get(&r.doc) {
                Some(Some(t)) => {
                    let t = t.clone();
                    yes(r.res == PRes::Text(t), m)
                }
                _ => yes(r.res == PRes::Lock, m),
            },
            POp::PanicWrite(_) => {
                let ok = if matches!(m.text.get(&r.doc), Some(Some(_))) { r.res == PRes::Panicked } else { r.res == PRes::Lock };
                m.text.insert(r.doc, None);
                yes(ok, m)
            }
            POp::Remove(_) => {
                m.pool.remove(&r.doc);
                yes(r.res == PRes::Unit, m)
            }
            POp::List => {
                let l: Vec<u32> = m.pool.keys().copied().collect();
                yes(r.res == PRes::List(l), m)
            }
            POp::Count => {
                let n = m.pool.len();
                yes(r.res == PRes::Count(n), m)
            }
            POp::Missing => yes(r.res == PRes::NotFound, m),
            POp::Other => yes(r.res == PRes::Unit, m),
        }
    }
}
pub struct Pool;
#[derive(Default)]
struct Ids {
    by_id: BTreeMap<String, u32>,
    all: Vec<(u32, String)>,
}
impl Scenario for Pool {
    type Plan = PPlan;
    fn name(&self) -> &'static str {
        "document-pool"
    }
    fn gen(&self, g: &mut Gen) -> PPlan {
        let nc = g.range(2, 4);
        let mut w: Vec<u64> = (0..11).map(|_| *g.pick(&[0u64, 1, 2, 3])).collect();
        w[0] += 3;
        w[3] += 1;
        if g.chance(3, 4) {
            w[8] = 0;
        }
        let total = g.range(4, 18);
        let mut n = 0;
        let clients = (0..nc)
            .map(|_| {
                (0..(total / nc).max(2))
                    .map(|_| {
                        n += 1;
                        let k = g.below(6) as u8;
                        match g.weighted(&w) {
                            0 => POp::Add(n),
                            1 => POp::AddFile(n),
                            2 => POp::Get(k),
                            3 => POp::Append(k, n),
                            4 => POp::Read(k),
                            5 => POp::Remove(k),
                            6 => POp::List,
                            7 => POp::Count,
                            8 => POp::PanicWrite(k),
                            9 => POp::Missing,
                            _ => POp::Other,
                        }
                    })
                    .collect()
            })
            .collect();
        PPlan { coarse: *g.pick(&[0, 1000, 1_000_000, 100_000_000]), back: (0..g.below(3)).map(|_| g.range(1, 5_000_000) as u32).collect(), clients }
    }
    fn tune(&self, p: &PPlan, g: &mut Gen, c: &mut Config) {
        c.real_granularity = p.coarse as u64;
        c.p_fault[rt::F_CLOCK_REAL] = *g.pick(&[0, 3000, 20000]);
        if g.chance(1, 8) {
            c.real0 = 0;
        }
    }
    fn run(&self, plan: &'static PPlan, cx: &'static Cx) {
        let pool = Assert(DocumentPool::new());
        let hist: &'static Shared<Vec<Call<PRec>>> = Shared::new(vec![]);
        let ids: &'static Shared<Ids> = Shared::new(Ids::default());
        for ops in plan.clients.iter() {
            let p = Assert(pool.get().clone());
            cx.spawn("client", move || {
                let p = p;
                let mut handles: BTreeMap<u32, SyncDocument> = BTreeMap::new();
                for op in ops {
                    pexec(p.get(), op, cx, hist, ids, &mut handles);
                    rt::point();
                }
            });
        }
        for b in &plan.back {
            rt::yield_now();
            cx.probe("clock_set_back");
            rt::set_real(rt::real().saturating_sub(*b as u64));
        }
        cx.wait();
        let mut h = BTreeMap::new();
        pexec(pool.get(), &POp::List, cx, hist, ids, &mut h);
        pexec(pool.get(), &POp::Count, cx, hist, ids, &mut h);
        let n = ids.with(|i| i.all.len());
        for k in 0..n {
            pexec(pool.get(), &POp::Read(k as u8), cx, hist, ids, &mut h);
        }
        hist.with(|h| {
            if h.windows(2).any(|w| w[1].inv < w[0].ret) {
                cx.nontrivial();
            }
            h.truncate(60);
            for c in h.iter_mut() {
                if let PRes::Raw(l) = &c.op.res {
                    let mut v: Vec<u32> = l
                        .iter()
                        .map(|id| ids.with(|i| i.by_id.get(id).copied()).unwrap_or_else(|| cx.fail("document-pool:unknown-id", format!("{id} is listed but was never added"))))
                        .collect();
                    v.sort();
                    c.op.res = PRes::List(v);
                }
            }
            match lin::check(PM { pool: BTreeMap::new(), text: BTreeMap::new() }, h, |_| true, 400_000) {
                Ok(None) => {}
                Ok(Some(k)) => cx.fail("document-pool:not-linearizable", format!("no sequential order of the {} completed calls explains their results (at most {k} fit)", h.len())),
                Err(()) => cx.probe("lin_search_too_large"),
            }
        });
    }
}
fn pexec(p: &DocumentPool, op: &POp, cx: &'static Cx, hist: &'static Shared<Vec<Call<PRec>>>, ids: &'static Shared<Ids>, handles: &mut BTreeMap<u32, SyncDocument>) {
    cx.doing(format!("{op:?}"));
    let pick = |k: u8| ids.with(|i| if i.all.is_empty() { None } else { Some(i.all[k as usize % i.all.len()].clone()) });
    let nf = |e: EditorError| match e {
        EditorError::ThreadSafetyError { .. } => PRes::Lock,
        EditorError::ValidationError { .. } => PRes::NotFound,
        _ => PRes::Err,
    };
    macro_rules! rec {
        ($op:expr, $doc:expr, $e:expr) => {{
            let inv = cx.log(format!("call {:?} doc {}", $op, $doc));
            let res: PRes = $e;
            let ret = cx.log(format!("ret  {res:?}"));
            hist.with(|h| h.push(Call { inv, ret, op: PRec { op: $op.clone(), doc: $doc, res: res.clone() } }));
            res
        }};
    }
    match op {
        POp::Add(n) | POp::AddFile(n) => {
            let d = if matches!(op, POp::Add(_)) { EditorDocument::from_content(&tok(*n)) } else {
                let f = format!("/simfs/f{n}.ass");
                rt::fs::put(&f, tok(*n).as_bytes());
                EditorDocument::from_file(&f)
            };
            let d = match d {
                Ok(d) => d,
                Err(e) => cx.fail("document-pool:construct", e.to_string()),
            };
            let inv = cx.log(format!("call {op:?}"));
            match p.add_document(d) {
                Ok(id) => {
                    let ret = cx.log("ret  added".to_string());
                    // the same id for two documents would make one of them unreachable
                    ids.with(|i| {
                        if let Some(m) = i.by_id.insert(id.clone(), *n) {
                            cx.fail("document-pool:duplicate-id", format!("documents {m} and {n} both got the id {id}"));
                        }
                        i.all.push((*n, id));
                    });
                    hist.with(|h| h.push(Call { inv, ret, op: PRec { op: op.clone(), doc: *n, res: PRes::Id(*n) } }));
                }
                Err(e) => cx.fail("document-pool:add-failed", e.to_string()),
            }
        }
        POp::Get(k) | POp::Append(k, _) | POp::Read(k) | POp::PanicWrite(k) => {
            let Some((n, id)) = pick(*k) else { return };
            if !handles.contains_key(&n) || matches!(op, POp::Get(_)) {
                let mut got = None;
                rec!(POp::Get(*k), n, match p.get_document(&id) {
                    Ok(h) => {
                        got = Some(h);
                        PRes::Found
                    }
                    Err(e) => nf(e),
                });
                if let Some(h) = got {
                    match h.id() {
                        Ok(i) if i != id => cx.fail("document-pool:wrong-document", format!("asked for {id}, got {i}")),
                        _ => {}
                    }
                    handles.insert(n, h);
                }
            }
            let Some(h) = handles.get(&n) else { return };
            match op {
                POp::Append(_, t) => {
                    rec!(op, n, h
                        .with_write(|d| {
                            d.insert(Position::new(d.len()), &tok(*t))?;
                            rt::point();
                            Ok(d.text())
                        })
                        .map(PRes::Text)
                        .unwrap_or_else(nf));
                }
                POp::Read(_) => {
                    rec!(op, n, h.text().map(PRes::Text).unwrap_or_else(nf));
                }
                POp::PanicWrite(_) => {
                    rec!(op, n, match cx.catch(|| h.with_write(|_| -> ass_editor::Result<()> { panic!("injected") })) {
                        Ok(r) => r.map(|_| PRes::Unit).unwrap_or_else(nf),
                        Err(p) if p.starts_with("injected") => PRes::Panicked,
                        Err(p) => cx.fail("document-pool:panic", p),
                    });
                }
                _ => {}
            }
        }
        POp::Remove(k) => {
            let Some((n, id)) = pick(*k) else { return };
            rec!(op, n, p.remove_document(&id).map(|_| PRes::Unit).unwrap_or_else(nf));
        }
        POp::List => {
            let inv = cx.log("call List");
            let l = p.list_documents();
            let ret = cx.log("ret  List");
            match l {
                Ok(l) => {
                    // an id can be listed before its `add` returned: resolved after the run
                    hist.with(|h| h.push(Call { inv, ret, op: PRec { op: op.clone(), doc: 0, res: PRes::Raw(l) } }));
                }
                Err(e) => cx.fail("document-pool:list-failed", e.to_string()),
            }
        }
        POp::Count => {
            rec!(op, 0, p.document_count().map(PRes::Count).unwrap_or_else(nf));
        }
        POp::Missing => {
            rec!(op, 0, p.get_document("doc_missing").map(|_| PRes::Found).unwrap_or_else(nf));
        }
        POp::Other => {
            // another document takes an id without entering this pool
            let inv = cx.stamp();
            let d = EditorDocument::new();
            let id = d.id().to_string();
            let ret = cx.stamp();
            ids.with(|i| {
                if let Some(m) = i.by_id.insert(id.clone(), u32::MAX) {
                    cx.fail("document-pool:duplicate-id", format!("document {m} and an unrelated one both got the id {id}"));
                }
            });
            hist.with(|h| h.push(Call { inv, ret, op: PRec { op: op.clone(), doc: 0, res: PRes::Unit } }));
        }
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            real: "SyncDocument, ScopedDocumentLock, AsyncDocument, EditorDocument, undo stack, commands (compiled from the tree)",
            stub: "OS scheduler, futexes, clocks (simulated); user commands and callbacks (generated, failing and panicking); executor that polls the async API",
            rule: "at least two client calls overlapped in time",
            parts: vec![part(SharedDoc, 40_000, 2_000_000)],
        },
        Check {
            id: "C03",
            real: "DocumentPool, SyncDocument, EditorDocument (compiled from the tree)",
            stub: "OS scheduler, futexes, realtime clock (coarse, repeating, stepping back)",
            rule: "at least two client calls overlapped in time",
            parts: vec![part(Pool, 40_000, 2_000_000)],
        },
    ]
}
