//! Extensions under concurrent lifecycle calls: their code runs inside the manager and calls back
//! into it, fails and panics at generated points.
use crate::engine::{part, Check, Cx, Scenario, Shared};
use crate::gen::Gen;
use crate::lin::{self, Call, Model};
use crate::rt::{self, Config};
use ass_editor::core::errors::EditorError;
use ass_editor::extensions::{
    EditorExtension, ExtensionCommand, ExtensionContext, ExtensionInfo, ExtensionManager, ExtensionResult, ExtensionState, MessageLevel,
};
use ass_editor::{EditorDocument, Position};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, Serialize, Deserialize, Hash, PartialEq, Eq)]
pub enum Act {
    GetConfig(u8),
    SetConfig(u8, u32),
    GetData(u8, u8),
    SetData(u8, u32),
    Message,
    Command,
    Point,
    Append(u32),
}
/// what an extension does in one kind of callback
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Script {
    acts: Vec<Act>,
    /// 0 succeeds, 1 fails, 2 panics
    end: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    deps: Vec<u8>,
    cmds: u8,
    init: Script,
    exec: Script,
    stop: Script,
    /// 1, 2: the built-in extensions
    builtin: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, Hash, PartialEq, Eq)]
pub enum Op {
    Load(u8),
    Init(u8),
    Unload(u8),
    Exec(u8, u8),
    List,
    State(u8),
    Commands,
    SetConfig(u8, u32),
    GetConfig(u8),
    SetData(u8, u8, u32),
    GetData(u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    exts: Vec<Spec>,
    clients: Vec<Vec<Op>>,
}
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
enum St {
    Un,
    Initing,
    Active,
    Error,
    Stopping,
    Other,
}
#[derive(Clone, Debug)]
enum Rec {
    Load(u8, Vec<u8>, bool),
    InitBegin(u8),
    InitEnd(u8, u8, u8),
    NoInit(u8),
    AnyStopBegin(u8),
    AnyStopEnd(u8),
    StopBegin(u8),
    StopEnd(u8, u8),
    NoStop(u8),
    Exec(u8, u8),
    NoExec(u8, u8),
    List(Vec<u8>),
    State(u8, Option<St>),
    Commands(Vec<(u8, u8)>),
    SetConfig(u8, u32),
    GetConfig(u8, Option<u32>),
    SetData(u8, u8, u32),
    GetData(u8, u8, Option<u32>),
}
#[derive(Clone, Hash, PartialEq, Eq, Default)]
struct M {
    st: BTreeMap<u8, St>,
    cmds: BTreeSet<(u8, u8)>,
    cfg: BTreeMap<u8, u32>,
    data: BTreeMap<(u8, u8), u32>,
}
impl Model for M {
    type Op = Rec;
    fn step(&self, r: &Rec, done: bool) -> Vec<M> {
        let mut m = self.clone();
        let ok = |b: bool, m: M| if b { vec![m] } else { vec![] };
        if !done {
            return vec![m];
        }
        match r {
            Rec::Load(e, deps, res) => {
                let can = deps.iter().all(|d| m.st.contains_key(d)) && !m.st.contains_key(e);
                if *res {
                    m.st.insert(*e, St::Un);
                }
                ok(can == *res, m)
            }
            Rec::InitBegin(e) => {
                let l = m.st.contains_key(e);
                m.st.insert(*e, St::Initing);
                ok(l, m)
            }
            Rec::InitEnd(e, end, n) => {
                match end {
                    0 => {
                        m.st.insert(*e, St::Active);
                        m.cmds.extend((0..*n).map(|c| (*e, c)));
                    }
                    1 => {
                        m.st.insert(*e, St::Error);
                    }
                    _ => {}
                }
                vec![m]
            }
            Rec::StopBegin(e) => {
                let l = m.st.contains_key(e);
                m.st.insert(*e, St::Stopping);
                ok(l, m)
            }
            Rec::AnyStopBegin(e) => {
                if let Some(s) = m.st.get_mut(e) {
                    *s = St::Stopping;
                }
                vec![m]
            }
            Rec::StopEnd(e, end) => {
                if *end == 0 {
                    m.st.remove(e);
                    m.cmds.retain(|c| c.0 != *e);
                    m.data.retain(|k, _| k.0 != *e);
                }
                vec![m]
            }
            Rec::NoInit(e) => ok(!m.st.contains_key(e), m),
            Rec::NoStop(e) => {
                // data stored under a name that is not loaded may be dropped or kept
                let mut n = m.clone();
                n.data.retain(|k, _| k.0 != *e);
                if m.st.contains_key(e) { vec![] } else { vec![m, n] }
            }
            Rec::AnyStopEnd(e) => {
                let mut n = m.clone();
                m.st.remove(e);
                m.data.retain(|k, _| k.0 != *e);
                if n.st.contains_key(e) { vec![m] } else { n.st.remove(e); vec![m, n] }
            }
            Rec::Exec(e, c) => ok(m.cmds.contains(&(*e, *c)), m),
            Rec::NoExec(e, c) => ok(!m.cmds.contains(&(*e, *c)), m),
            Rec::List(l) => ok(*l == m.st.keys().copied().collect::<Vec<_>>(), m),
            Rec::State(e, s) => ok(m.st.get(e) == s.as_ref(), m),
            Rec::Commands(l) => ok(*l == m.cmds.iter().copied().collect::<Vec<_>>(), m),
            Rec::SetConfig(k, v) => {
                m.cfg.insert(*k, *v);
                vec![m]
            }
            Rec::GetConfig(k, v) => ok(m.cfg.get(k) == v.as_ref(), m),
            Rec::SetData(e, k, v) => {
                m.data.insert((*e, *k), *v);
                vec![m]
            }
            Rec::GetData(e, k, v) => ok(m.data.get(&(*e, *k)) == v.as_ref(), m),
        }
    }
}
type Hist = &'static Shared<Vec<Call<Rec>>>;
/// Names that are prefixes of each other.
fn own(e: u8) -> String {
    format!("ext{}", "1".repeat(e as usize))
}
fn ename(e: u8, p: &Plan) -> String {
    match p.exts[e as usize].builtin {
        1 => "auto-complete".into(),
        2 => "syntax-highlight".into(),
        _ => own(e),
    }
}
fn key(k: u8) -> String {
    // the configuration keys the built-in extensions read
    ["autocomplete.max_suggestions", "syntax.max_tokens", "k2", "k3"][k as usize % 4].into()
}
fn cmd_names(e: u8, p: &Plan) -> Vec<String> {
    match p.exts[e as usize].builtin {
        1 => vec!["autocomplete.trigger".into(), "autocomplete.update_styles".into()],
        2 => vec![],
        _ => (0..p.exts[e as usize].cmds).map(|c| format!("{}.c{c}", own(e))).collect(),
    }
}

/// what the current callback run on this thread belongs to: entry and exit times
#[derive(Default)]
struct Span {
    entry: u64,
    exit: u64,
    end: u8,
    entered: bool,
}
struct Ext {
    e: u8,
    info: ExtensionInfo,
    spec: &'static Spec,
    plan: &'static Plan,
    busy: &'static Shared<i64>,
    cx: &'static Cx,
    hist: Hist,
    spans: &'static Shared<BTreeMap<i32, Span>>,
    stopped: bool,
}
impl Ext {
    fn act(&mut self, what: &str, s: &Script, ctx: &mut dyn ExtensionContext) -> ass_editor::Result<()> {
        let me = rt::self_id();
        let t = self.cx.log(format!("ext{} {what} begins", self.e));
        self.spans.with(|x| x.insert(me, Span { entry: t, exit: u64::MAX, end: 2, entered: true }));
        if self.stopped {
            self.cx.fail("extension:runs-after-unload", format!("ext{} runs {what} after a successful unload", self.e));
        }
        let n = self.busy.with(|b| {
            *b += 1;
            *b
        });
        if n != 1 {
            self.cx.fail("extension:overlapping-callbacks", format!("ext{} runs {what} while another of its callbacks runs", self.e));
        }
        for a in &s.acts {
            let inv = self.cx.stamp();
            let rec = match a {
                Act::GetConfig(k) => Some(Rec::GetConfig(*k, ctx.get_config(&key(*k)).map(|v| v.parse().unwrap_or(u32::MAX)))),
                Act::SetConfig(k, v) => {
                    self.cx.check(ctx.set_config(key(*k), v.to_string()).is_ok(), "extension:context-call-failed", || "set_config".into());
                    Some(Rec::SetConfig(*k, *v))
                }
                Act::GetData(e, k) => Some(Rec::GetData(*e, *k, ctx.get_extension_data(&ename(*e, self.plan), &key(*k)).map(|v| v.parse().unwrap_or(u32::MAX)))),
                Act::SetData(k, v) => {
                    self.cx.check(ctx.set_extension_data(key(*k), v.to_string()).is_ok(), "extension:context-call-failed", || "set_extension_data".into());
                    Some(Rec::SetData(self.e, *k, *v))
                }
                Act::Message => {
                    let _ = ctx.show_message("m", MessageLevel::Info);
                    None
                }
                Act::Command => {
                    let _ = ctx.register_command(ExtensionCommand::new("x".into(), "x".into(), "x".into()));
                    None
                }
                Act::Point => {
                    rt::point();
                    None
                }
                Act::Append(n) => {
                    if let Some(d) = ctx.current_document_mut() {
                        let at = Position::new(d.len());
                        self.cx.check(d.insert(at, &format!("<{n}>")).is_ok(), "extension:document-edit-failed", || format!("insert {n}"));
                    }
                    None
                }
            };
            let ret = self.cx.stamp();
            if let Some(op) = rec {
                self.hist.with(|h| h.push(Call { inv, ret, op }));
            }
        }
        self.busy.with(|b| *b -= 1);
        let t = self.cx.log(format!("ext{} {what} ends {}", self.e, s.end));
        self.spans.with(|x| {
            let s2 = x.get_mut(&me).unwrap();
            s2.exit = t;
            s2.end = s.end;
        });
        match s.end {
            0 => Ok(()),
            1 => Err(EditorError::CommandFailed { message: "injected".into() }),
            _ => {
                rt::fault(rt::F_CB_PANIC, 1);
                panic!("injected")
            }
        }
    }
}
impl EditorExtension for Ext {
    fn info(&self) -> &ExtensionInfo {
        &self.info
    }
    fn initialize(&mut self, c: &mut dyn ExtensionContext) -> ass_editor::Result<()> {
        let s = &self.spec.init;
        self.act("initialize", s, c)
    }
    fn shutdown(&mut self, c: &mut dyn ExtensionContext) -> ass_editor::Result<()> {
        let s = &self.spec.stop;
        let r = self.act("shutdown", s, c);
        self.stopped = r.is_ok();
        r
    }
    fn state(&self) -> ExtensionState {
        ExtensionState::Active
    }
    fn execute_command(&mut self, id: &str, _: &HashMap<String, String>, c: &mut dyn ExtensionContext) -> ass_editor::Result<ExtensionResult> {
        if !id.starts_with(&format!("{}.", own(self.e))) {
            self.cx.fail("extension:wrong-command", format!("ext{} was given {id}", self.e));
        }
        let s = &self.spec.exec;
        self.act("execute", s, c)?;
        Ok(ExtensionResult::success_with_message(id.to_string()))
    }
    fn commands(&self) -> Vec<ExtensionCommand> {
        (0..self.spec.cmds).map(|c| ExtensionCommand::new(format!("{}.c{c}", own(self.e)), "n".into(), "d".into())).collect()
    }
}

pub struct Lifecycle;
impl Scenario for Lifecycle {
    type Plan = Plan;
    fn name(&self) -> &'static str {
        "extension-lifecycle"
    }
    fn gen(&self, g: &mut Gen) -> Plan {
        let ne = g.range(1, 3) as u8;
        let mut v = 0u32;
        let mut acts = |g: &mut Gen, n: u64| -> Vec<Act> {
            (0..n)
                .map(|_| {
                    v += 1;
                    let (e, k) = (g.below(ne as u64) as u8, g.below(4) as u8);
                    match g.below(9) {
                        0 | 1 => Act::GetConfig(k),
                        2 => Act::SetConfig(k, v),
                        3 => Act::GetData(e, k % 2),
                        4 => Act::SetData(k % 2, v),
                        5 => Act::Append(v),
                        6 => {
                            if g.bool() {
                                Act::Message
                            } else {
                                Act::Command
                            }
                        }
                        _ => Act::Point,
                    }
                })
                .collect()
        };
        let faulty = g.chance(1, 2);
        let end = |g: &mut Gen| if faulty { *g.pick(&[0u8, 0, 0, 1, 1, 2]) } else { 0 };
        let mut exts: Vec<Spec> = vec![];
        let builtins = g.chance(1, 4);
        for i in 0..ne {
            let n = g.below(3);
            exts.push(Spec {
                deps: if i > 0 && g.chance(1, 2) { vec![g.below(i as u64) as u8] } else { vec![] },
                cmds: g.below(3) as u8,
                init: Script { acts: acts(g, n), end: end(g) },
                exec: Script { acts: acts(g, n), end: end(g) },
                stop: Script { acts: acts(g, n), end: end(g) },
                builtin: 0,
            });
            if builtins && i < 2 && g.bool() {
                let s = &mut exts[i as usize];
                *s = Spec { deps: vec![], cmds: 0, init: Script { acts: vec![], end: 0 }, exec: Script { acts: vec![], end: 0 }, stop: Script { acts: vec![], end: 0 }, builtin: i + 1 };
            }
        }
        let nc = g.range(2, 3);
        let mut w: Vec<u64> = (0..11).map(|_| *g.pick(&[0u64, 0, 1, 2])).collect();
        for k in [0, 1, 2, 3] {
            w[k] += g.below(3);
        }
        w[0] += 1;
        w[1] += 1;
        let total = g.range(4, 13);
        let mut n = 1000;
        let mut clients: Vec<Vec<Op>> = (0..nc)
            .map(|_| {
                (0..(total / nc).max(2))
                    .map(|_| {
                        n += 1;
                        let (e, k) = (g.below(ne as u64) as u8, g.below(4) as u8);
                        match g.weighted(&w) {
                            0 => Op::Load(e),
                            1 => Op::Init(e),
                            2 => Op::Unload(e),
                            3 => Op::Exec(e, k % 2),
                            4 => Op::List,
                            5 => Op::State(e),
                            6 => Op::Commands,
                            7 => Op::SetConfig(k, n),
                            8 => Op::GetConfig(k),
                            9 => Op::SetData(e, k % 2, n),
                            _ => Op::GetData(e, k % 2),
                        }
                    })
                    .collect()
            })
            .collect();
        // most runs start with something loaded and initialised
        for e in 0..ne {
            if g.chance(3, 4) {
                let c = g.idx(clients.len());
                clients[c].insert(0, Op::Init(e));
                clients[c].insert(0, Op::Load(e));
            }
        }
        Plan { exts, clients }
    }
    fn tune(&self, _: &Plan, _: &mut Gen, _: &mut Config) {}
    fn run(&self, plan: &'static Plan, cx: &'static Cx) {
        let m = ExtensionManager::new();
        let hist: Hist = Shared::new(vec![]);
        let spans: &'static Shared<BTreeMap<i32, Span>> = Shared::new(BTreeMap::new());
        for ops in plan.clients.iter() {
            let m = m.clone();
            cx.spawn("client", move || {
                let mut m = m;
                for op in ops {
                    exec(&mut m, op, plan, cx, hist, spans);
                    rt::point();
                }
            });
        }
        cx.wait();
        let mut m = m;
        for op in [Op::List, Op::Commands, Op::GetConfig(0), Op::GetConfig(1)] {
            exec(&mut m, &op, plan, cx, hist, spans);
        }
        for e in 0..plan.exts.len() as u8 {
            exec(&mut m, &Op::State(e), plan, cx, hist, spans);
        }
        hist.with(|h| {
            if h.len() > 64 {
                cx.probe("history_too_long");
                return;
            }
            h.sort_by_key(|c| c.inv);
            if h.windows(2).any(|w| w[1].inv < w[0].ret) {
                cx.nontrivial();
            }
            match lin::check(M::default(), h, |_| true, 300_000) {
                Ok(None) => {}
                Ok(Some(k)) => cx.fail("extension:not-linearizable", format!("no sequential order of the {} steps explains their results (at most {k} fit)", h.len())),
                Err(()) => cx.probe("lin_search_too_large"),
            }
        });
    }
}

fn exec(m: &mut ExtensionManager, op: &Op, plan: &'static Plan, cx: &'static Cx, hist: Hist, spans: &'static Shared<BTreeMap<i32, Span>>) {
    cx.doing(format!("{op:?}"));
    let me = rt::self_id();
    let inv = cx.log(format!("call {op:?}"));
    let push = |inv: u64, ret: u64, op: Rec| hist.with(|h| h.push(Call { inv, ret, op }));
    let idx = |s: &str| -> u8 {
        (0..plan.exts.len() as u8).find(|e| ename(*e, plan) == s).unwrap_or_else(|| cx.fail("extension:unknown-listed", format!("{s} is listed but was never loaded")))
    };
    match op {
        Op::Load(e) => {
            let spec = &plan.exts[*e as usize];
            let x: Box<dyn EditorExtension> = match spec.builtin {
                1 => Box::new(ass_editor::extensions::builtin::AutoCompleteExtension::new()),
                2 => Box::new(ass_editor::extensions::builtin::SyntaxHighlightExtension::new()),
                _ => {
                    let mut info = ExtensionInfo::new(ename(*e, plan), "1".into(), "a".into(), "d".into());
                    info.dependencies = spec.deps.iter().map(|d| ename(*d, plan)).collect();
                    Box::new(Ext { e: *e, info, spec, plan, busy: Shared::new(0), cx, hist, spans, stopped: false })
                }
            };
            let r = m.load_extension(x);
            let ret = cx.log(format!("ret  {}", r.is_ok()));
            push(inv, ret, Rec::Load(*e, spec.deps.clone(), r.is_ok()));
        }
        Op::Init(e) | Op::Unload(e) | Op::Exec(e, _) => {
            let spec = &plan.exts[*e as usize];
            spans.with(|s| s.insert(me, Span::default()));
            let mut doc = EditorDocument::from_content("").unwrap();
            let name = ename(*e, plan);
            let mut m2 = m.clone();
            let mut ctx = match m2.create_context(name.clone(), Some(&mut doc)) {
                Ok(c) => c,
                Err(x) => cx.fail("extension:create-context", x.to_string()),
            };
            let names = cmd_names(*e, plan);
            let cmd = match op {
                Op::Exec(_, c) => names.get(*c as usize).cloned().unwrap_or_else(|| "no.such".into()),
                _ => String::new(),
            };
            let r = cx.catch(|| match op {
                Op::Init(_) => m.initialize_extension(&name, ctx.as_mut()),
                Op::Unload(_) => m.unload_extension(&name, ctx.as_mut()),
                _ => m.execute_command(&cmd, &HashMap::new(), ctx.as_mut()).map(|_| ()),
            });
            drop(ctx);
            let ret = cx.log(format!("ret  {:?}", r.as_ref().map(|r| r.is_ok())));
            let r: Result<bool, ()> = match r {
                Ok(r) => Ok(r.is_ok()),
                Err(p) if p.starts_with("injected") => Err(()),
                Err(p) => cx.fail("extension:panic", p),
            };
            let sp = spans.with(|s| s.remove(&me)).unwrap();
            if spec.builtin != 0 {
                // its code runs inside the call: no entry and exit times, the outcome is fixed
                match (op, r) {
                    (Op::Init(_), Ok(true)) => {
                        push(inv, ret, Rec::InitBegin(*e));
                        push(inv, ret, Rec::InitEnd(*e, 0, 0));
                    }
                    (Op::Init(_), _) => push(inv, ret, Rec::NoInit(*e)),
                    (Op::Unload(_), Ok(true)) => {
                        push(inv, ret, Rec::AnyStopBegin(*e));
                        push(inv, ret, Rec::AnyStopEnd(*e));
                    }
                    (Op::Exec(..), _) => {}
                    (o, r) => cx.fail("extension:wrong-outcome", format!("{o:?} of a built-in returned {r:?}")),
                }
                return;
            }
            if sp.entered {
                let end = match r {
                    Ok(true) => 0,
                    Ok(false) => 1,
                    Err(()) => 2,
                };
                if end != sp.end {
                    cx.fail("extension:outcome-changed", format!("{op:?}: the extension ended with {} and the caller saw {end}", sp.end));
                }
                let exit = sp.exit.min(ret);
                match op {
                    Op::Init(_) => {
                        push(inv, sp.entry, Rec::InitBegin(*e));
                        push(exit, ret, Rec::InitEnd(*e, end, spec.cmds));
                    }
                    Op::Unload(_) => {
                        push(inv, sp.entry, Rec::StopBegin(*e));
                        push(exit, ret, Rec::StopEnd(*e, end));
                    }
                    Op::Exec(_, c) => push(inv, sp.entry, Rec::Exec(*e, *c)),
                    _ => {}
                }
                // what the extension wrote to the document is there
                let s = match op {
                    Op::Init(_) => &spec.init,
                    Op::Unload(_) => &spec.stop,
                    _ => &spec.exec,
                };
                let want: String = s.acts.iter().filter_map(|a| if let Act::Append(n) = a { Some(format!("<{n}>")) } else { None }).collect();
                cx.check(doc.text() == want, "extension:document-edit-lost", || format!("{op:?}: document is {:?}, the extension wrote {want:?}", doc.text()));
            } else {
                match (op, r) {
                    (Op::Init(_), Ok(false)) => push(inv, ret, Rec::NoInit(*e)),
                    (Op::Unload(_), Ok(true)) => push(inv, ret, Rec::NoStop(*e)),
                    (Op::Exec(_, c), Ok(false)) => push(inv, ret, Rec::NoExec(*e, *c)),
                    (o, r) => cx.fail("extension:wrong-outcome", format!("{o:?} returned {r:?} without running the extension")),
                }
            }
        }
        Op::List => {
            let mut l: Vec<u8> = m.list_extensions().iter().map(|s| idx(s)).collect();
            let ret = cx.log(format!("ret  {l:?}"));
            l.sort();
            push(inv, ret, Rec::List(l));
        }
        Op::State(e) => {
            let s = m.get_extension_state(&ename(*e, plan)).map(|s| match s {
                ExtensionState::Uninitialized => St::Un,
                ExtensionState::Initializing => St::Initing,
                ExtensionState::Active => St::Active,
                ExtensionState::Error => St::Error,
                ExtensionState::ShuttingDown => St::Stopping,
                _ => St::Other,
            });
            let ret = cx.log(format!("ret  {s:?}"));
            push(inv, ret, Rec::State(*e, s));
        }
        Op::Commands => {
            let l = m.list_commands();
            let ret = cx.log(format!("ret  {l:?}"));
            let mut v: Vec<(u8, u8)> = vec![];
            for c in l {
                if let Some((e, k)) = c.strip_prefix("ext").and_then(|r| r.split_once(".c")) {
                    v.push((e.len() as u8, k.parse().unwrap()));
                }
            }
            v.sort();
            push(inv, ret, Rec::Commands(v));
        }
        Op::SetConfig(k, v) => {
            m.set_config(key(*k), v.to_string());
            let ret = cx.log("ret");
            push(inv, ret, Rec::SetConfig(*k, *v));
        }
        Op::GetConfig(k) => {
            let v = m.get_config(&key(*k)).map(|v| v.parse().unwrap_or(u32::MAX));
            let ret = cx.log(format!("ret  {v:?}"));
            push(inv, ret, Rec::GetConfig(*k, v));
        }
        Op::SetData(e, k, v) => {
            m.set_extension_data(ename(*e, plan), key(*k), v.to_string());
            let ret = cx.log("ret");
            push(inv, ret, Rec::SetData(*e, *k, *v));
        }
        Op::GetData(e, k) => {
            let v = m.get_extension_data(&ename(*e, plan), &key(*k)).map(|v| v.parse().unwrap_or(u32::MAX));
            let ret = cx.log(format!("ret  {v:?}"));
            push(inv, ret, Rec::GetData(*e, *k, v));
        }
    }
}

pub fn check() -> Check {
    Check {
        id: "C06",
        real: "ExtensionManager, EditorContext, EditorDocument, both built-in extensions (compiled from the tree)",
        stub: "OS scheduler, futexes; generated extensions that call back into the manager, fail and panic",
        rule: "at least two steps overlapped in time",
        parts: vec![part(Lifecycle, 40_000, 2_000_000)],
    }
}
