//! Session manager: linearizable against a sequential model, under concurrent clients,
//! failing/panicking callbacks and a jumping clock.
use crate::engine::{part, Check, Cx, Scenario, Shared};
use crate::gen::Gen;
use crate::lin::{self, Call, Model};
use crate::rt::{self, Config};
use ass_editor::core::errors::EditorError;
use ass_editor::sessions::{EditorSessionManager, SessionConfig};
use ass_editor::{EditorDocument, Position};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::Duration;

const EPOCH_S: u64 = 1000;

#[derive(Clone, Debug, Serialize, Deserialize, Hash, PartialEq, Eq)]
pub enum Op {
    Create(u8),
    CreateDoc(u8, u32),
    Switch(u8),
    Remove(u8),
    Active,
    List,
    Stats,
    Write(u8, u32),
    WriteFail(u8, u32),
    WritePanic(u8, u32),
    Read(u8),
    /// advance the clock by this many epochs (1000 s each)
    Advance(u8),
    /// max age in half epochs: 2k+1 halves
    Cleanup(u8),
    ResetArena,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub max: usize,
    pub auto_cleanup: bool,
    pub clients: Vec<Vec<Op>>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Res {
    Unit,
    Err,
    NotFound,
    Limit(usize, usize),
    Session(String, usize, String),
    Active(Option<String>),
    List(Vec<String>),
    Stats(usize),
    Text(String),
    Panicked,
    Count(usize),
}
struct Rec {
    op: Op,
    res: Res,
    epoch0: u32,
}
#[derive(Clone, Hash, PartialEq, Eq, Debug)]
struct Sess {
    text: String,
    ops: usize,
    lo: u32,
    hi: u32,
}
#[derive(Clone, Hash, PartialEq, Eq, Debug)]
struct M {
    max: usize,
    auto: bool,
    epoch: u32,
    active: Option<u8>,
    s: BTreeMap<u8, Sess>,
    fresh: String,
}
fn sid(i: u8) -> String {
    format!("s{i}")
}
fn tok(n: u32) -> String {
    format!("<{n}>")
}
impl Model for M {
    type Op = Rec;
    fn step(&self, r: &Rec, _c: bool) -> Vec<M> {
        let mut m = self.clone();
        let e = m.epoch;
        let one = |ok: bool, m: M| if ok { vec![m] } else { vec![] };
        match &r.op {
            Op::Create(i) | Op::CreateDoc(i, _) => {
                let text = if let Op::CreateDoc(_, n) = &r.op { tok(*n) } else { m.fresh.clone() };
                let len = m.s.len();
                if m.s.contains_key(i) {
                    // refused, and the existing session is untouched
                    return one(matches!(r.res, Res::Err | Res::Limit(..)), m);
                }
                if len >= m.max {
                    return one(r.res == Res::Limit(len, m.max), m);
                }
                m.s.insert(*i, Sess { text, ops: 0, lo: r.epoch0.min(e), hi: e });
                if m.active.is_none() {
                    m.active = Some(*i);
                }
                one(r.res == Res::Unit, m)
            }
            Op::Switch(i) => match m.s.get_mut(i) {
                None => one(r.res == Res::NotFound, m),
                Some(x) => {
                    x.lo = r.epoch0.min(e);
                    x.hi = e;
                    m.active = Some(*i);
                    one(r.res == Res::Unit, m)
                }
            },
            Op::Remove(i) => match m.s.remove(i) {
                None => one(r.res == Res::NotFound, m),
                Some(x) => {
                    if m.active == Some(*i) {
                        m.active = None;
                    }
                    one(r.res == Res::Session(x.text, x.ops, sid(*i)), m)
                }
            },
            Op::Active => one(r.res == Res::Active(m.active.map(sid)), m),
            Op::List => one(r.res == Res::List(m.s.keys().map(|k| sid(*k)).collect()), m),
            Op::Stats => one(r.res == Res::Stats(m.s.len()), m),
            Op::Write(i, n) | Op::WriteFail(i, n) | Op::WritePanic(i, n) => match m.s.get_mut(i) {
                None => one(r.res == Res::NotFound, m),
                Some(x) => {
                    x.text.push_str(&tok(*n));
                    x.lo = r.epoch0.min(e);
                    x.hi = e;
                    match &r.op {
                        Op::Write(..) => {
                            x.ops += 1;
                            let t = x.text.clone();
                            one(r.res == Res::Text(t), m)
                        }
                        Op::WriteFail(..) => one(r.res == Res::Err, m),
                        _ => one(r.res == Res::Panicked, m),
                    }
                }
            },
            Op::Read(i) => match m.s.get_mut(i) {
                None => one(r.res == Res::NotFound, m),
                Some(x) => {
                    let t = x.text.clone();
                    // a read may or may not count as an access
                    x.hi = e;
                    one(r.res == Res::Text(t), m)
                }
            },
            Op::Advance(n) => {
                m.epoch += *n as u32;
                vec![m]
            }
            Op::ResetArena => one(r.res == Res::Unit, m),
            Op::Cleanup(k) => {
                let Res::Count(n) = r.res else { return vec![] };
                if !m.auto {
                    return one(n == 0, m);
                }
                let mut out = vec![];
                // max age is k + 1/2 epochs; the clock may have been read any time since invocation
                for now in r.epoch0.min(e)..=e {
                    let stale = |a: u32| now >= a && (now - a) as u64 > *k as u64;
                    let must: Vec<u8> = m.s.iter().filter(|(_, x)| stale(x.hi) && stale(x.lo)).map(|(i, _)| *i).collect();
                    let may: Vec<u8> = m.s.iter().filter(|(_, x)| stale(x.lo) != stale(x.hi)).map(|(i, _)| *i).collect();
                    for sub in 0..1u32 << may.len() {
                        let mut rm = must.clone();
                        rm.extend(may.iter().enumerate().filter(|(j, _)| sub >> j & 1 == 1).map(|(_, i)| *i));
                        if rm.len() != n {
                            continue;
                        }
                        let mut q = m.clone();
                        for i in &rm {
                            q.s.remove(i);
                            if q.active == Some(*i) {
                                q.active = None;
                            }
                        }
                        out.push(q);
                    }
                }
                out
            }
        }
    }
}

pub struct Sessions;
impl Scenario for Sessions {
    type Plan = Plan;
    fn name(&self) -> &'static str {
        "sessions"
    }
    fn gen(&self, g: &mut Gen) -> Plan {
        let ids = g.range(1, 4) as u8;
        let max = *g.pick(&[1usize, 2, 2, 3, 3, 50]);
        let nc = g.range(2, 4);
        let mut tokn = 0;
        let mut w: Vec<u64> = (0..14).map(|_| *g.pick(&[0u64, 1, 3])).collect();
        w[0] += 2;
        w[7] += 1;
        let clock = g.chance(2, 3);
        if !clock {
            w[11] = 0;
            w[12] = 0;
        } else {
            w[11] += 2;
            w[12] += 2;
        }
        let total = g.range(5, 18);
        let per = (total / nc).max(2);
        let clients = (0..nc)
            .map(|_| {
                (0..per)
                    .map(|_| {
                        tokn += 1;
                        let i = g.below(ids as u64) as u8;
                        match g.weighted(&w) {
                            0 => Op::Create(i),
                            1 => Op::CreateDoc(i, tokn),
                            2 => Op::Switch(i),
                            3 => Op::Remove(i),
                            4 => Op::Active,
                            5 => Op::List,
                            6 => Op::Stats,
                            7 => Op::Write(i, tokn),
                            8 => Op::WriteFail(i, tokn),
                            9 => Op::WritePanic(i, tokn),
                            10 => Op::Read(i),
                            11 => Op::Advance(g.range(1, 2) as u8),
                            12 => Op::Cleanup(g.below(3) as u8),
                            _ => Op::ResetArena,
                        }
                    })
                    .collect()
            })
            .collect();
        Plan { max, auto_cleanup: g.chance(9, 10), clients }
    }
    fn tune(&self, _p: &Plan, g: &mut Gen, c: &mut Config) {
        if g.chance(1, 4) {
            c.mono_granularity = 1_000_000;
        }
    }
    fn run(&self, plan: &'static Plan, cx: &'static Cx) {
        let mgr = EditorSessionManager::with_config(SessionConfig { max_sessions: plan.max, auto_cleanup: plan.auto_cleanup, ..SessionConfig::default() });
        let fresh = EditorDocument::new().text();
        let hist: &'static Shared<Vec<Call<Rec>>> = Shared::new(vec![]);
        let epoch: &'static Shared<u32> = Shared::new(0);
        for ops in plan.clients.iter() {
            let mut m = mgr.clone();
            cx.spawn("client", move || {
                for op in ops {
                    exec(&mut m, op, cx, hist, epoch);
                    rt::point();
                }
            });
        }
        cx.wait();
        // quiescent reads through the public interface close the history
        let mut m = mgr.clone();
        for op in [Op::List, Op::Active, Op::Stats] {
            exec(&mut m, &op, cx, hist, epoch);
        }
        for id in mgr.list_sessions().unwrap() {
            let i: u8 = id[1..].parse().unwrap();
            exec(&mut m, &Op::Read(i), cx, hist, epoch);
            exec(&mut m, &Op::Remove(i), cx, hist, epoch);
        }
        exec(&mut m, &Op::Stats, cx, hist, epoch);
        let init = M { max: plan.max, auto: plan.auto_cleanup, epoch: 0, active: None, s: BTreeMap::new(), fresh };
        hist.with(|h| {
            if h.windows(2).any(|w| w[1].inv < w[0].ret) {
                cx.nontrivial();
            }
            match lin::check(init, h, |_| true, 400_000) {
                Ok(None) => {}
                Ok(Some(k)) => {
                    cx.fail("sessions:not-linearizable", format!("no sequential order of the {} completed calls explains their results (at most {k} fit)", h.len()))
                }
                Err(()) => cx.probe("lin_search_too_large"),
            }
        });
    }
}
fn exec(m: &mut EditorSessionManager, op: &Op, cx: &'static Cx, hist: &'static Shared<Vec<Call<Rec>>>, epoch: &'static Shared<u32>) {
    let epoch0 = epoch.with(|e| *e);
    cx.doing(format!("{op:?}"));
    let inv = cx.log(format!("call {op:?}"));
    let map = |e: EditorError| match e {
        EditorError::DocumentNotFound { .. } => Res::NotFound,
        EditorError::SessionLimitExceeded { current, limit } => Res::Limit(current, limit),
        _ => Res::Err,
    };
    let res = match op {
        Op::Create(i) => m.create_session(sid(*i)).map(|_| Res::Unit).unwrap_or_else(map),
        Op::CreateDoc(i, n) => {
            let mut d = EditorDocument::from_content(&tok(*n)).unwrap();
            let _ = d.set_modified(false);
            m.create_session_with_document(sid(*i), d).map(|_| Res::Unit).unwrap_or_else(map)
        }
        Op::Switch(i) => m.switch_session(&sid(*i)).map(|_| Res::Unit).unwrap_or_else(map),
        Op::Remove(i) => m.remove_session(&sid(*i)).map(|s| Res::Session(s.document.text(), s.operation_count, s.id)).unwrap_or_else(map),
        Op::Active => Res::Active(m.active_session().unwrap()),
        Op::List => {
            let mut l = m.list_sessions().unwrap();
            l.sort();
            Res::List(l)
        }
        Op::Stats => Res::Stats(m.stats().active_sessions),
        Op::Write(i, n) => m
            .with_document_mut(&sid(*i), |d| {
                d.insert(Position::new(d.len()), &tok(*n))?;
                rt::point();
                Ok(d.text())
            })
            .map(Res::Text)
            .unwrap_or_else(map),
        Op::WriteFail(i, n) => m
            .with_document_mut(&sid(*i), |d| {
                d.insert(Position::new(d.len()), &tok(*n))?;
                Err::<(), _>(EditorError::CommandFailed { message: "injected".into() })
            })
            .map(|_| Res::Unit)
            .unwrap_or_else(map),
        Op::WritePanic(i, n) => {
            cx.probe("callback_panic");
            match cx.catch(|| {
                m.with_document_mut(&sid(*i), |d| {
                    d.insert(Position::new(d.len()), &tok(*n))?;
                    if true {
                        panic!("injected")
                    }
                    Ok(())
                })
            }) {
                Ok(r) => r.map(|_| Res::Unit).unwrap_or_else(map),
                Err(p) if p.starts_with("injected") => Res::Panicked,
                Err(p) => cx.fail("sessions:panic", p),
            }
        }
        Op::Read(i) => m.with_document(&sid(*i), |d| Ok(d.text())).map(Res::Text).unwrap_or_else(map),
        Op::Advance(n) => {
            let s = epoch.with(|e| {
                rt::advance(*n as u64 * EPOCH_S * 1_000_000_000);
                *e += *n as u32;
                cx.stamp()
            });
            hist.with(|h| h.push(Call { inv: s, ret: s, op: Rec { op: op.clone(), res: Res::Unit, epoch0 } }));
            return;
        }
        Op::Cleanup(k) => match m.cleanup_stale_sessions(Duration::from_millis(EPOCH_S * 500 * (2 * *k as u64 + 1))) {
            Ok(n) => {
                if n > 0 {
                    cx.probe("cleanup_removed");
                }
                Res::Count(n)
            }
            Err(e) => map(e),
        },
        Op::ResetArena => {
            m.reset_shared_arena();
            Res::Unit
        }
    };
    let ret = cx.log(format!("ret  {res:?}"));
    hist.with(|h| h.push(Call { inv, ret, op: Rec { op: op.clone(), res, epoch0 } }));
}

pub fn check() -> Check {
    Check {
        id: "C04",
        real: "EditorSessionManager, EditorSession, EditorDocument, parking_lot, std::time (all compiled from the tree)",
        stub: "OS scheduler, futexes, clocks (simulated)",
        rule: "at least two client calls overlapped in time",
        parts: vec![part(Sessions, 6000, 400_000)],
    }
}
