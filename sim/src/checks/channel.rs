//! Event channels under concurrent clients: handlers come and go, fail and panic at generated
//! points, while a receiver drains the asynchronous queue at its own pace.
use crate::engine::{part, Check, Cx, Scenario, Shared};
use crate::gen::Gen;
use crate::rt::{self, Config};
use ass_editor::core::errors::EditorError;
use ass_editor::events::{DocumentEvent, EventChannel, EventChannelConfig, EventFilter, EventHandler};
use ass_editor::{Position, Range};
use futures::channel::mpsc::UnboundedReceiver;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

const NAMES: [&str; 15] = [
    "TextInserted",
    "TextDeleted",
    "TextReplaced",
    "SelectionChanged",
    "CursorMoved",
    "DocumentSaved",
    "DocumentLoaded",
    "UndoPerformed",
    "RedoPerformed",
    "ValidationCompleted",
    "SearchCompleted",
    "ParsingCompleted",
    "ExtensionChanged",
    "ConfigChanged",
    "lint",
];
fn event(k: u8, n: u32) -> DocumentEvent {
    let (p, s) = (n as usize, n.to_string());
    let r = Range::new(Position::new(p), Position::new(p + 3));
    match k {
        0 => DocumentEvent::TextInserted { position: Position::new(p), text: s.clone(), length: s.len() },
        1 => DocumentEvent::TextDeleted { range: r, deleted_text: s },
        2 => DocumentEvent::TextReplaced { range: r, old_text: s.clone(), new_text: s },
        3 => DocumentEvent::SelectionChanged { old_selection: None, new_selection: Some(r) },
        4 => DocumentEvent::CursorMoved { old_position: Position::new(0), new_position: Position::new(p) },
        5 => DocumentEvent::DocumentSaved { file_path: s, save_as: n % 2 == 0 },
        6 => DocumentEvent::DocumentLoaded { file_path: s, size: p },
        7 => DocumentEvent::UndoPerformed { action_description: s, changes_count: p },
        8 => DocumentEvent::RedoPerformed { action_description: s, changes_count: p },
        9 => DocumentEvent::ValidationCompleted { issues_count: p, error_count: 1, warning_count: 2, validation_time_ms: 3 },
        10 => DocumentEvent::SearchCompleted { pattern: s, matches_count: p, hit_limit: n % 2 == 0, search_time_us: 1 },
        11 => DocumentEvent::ParsingCompleted { success: n % 2 == 0, sections_count: p, parse_time_ms: 1, error_message: None },
        12 => DocumentEvent::ExtensionChanged { extension_name: s, loaded: n % 2 == 0 },
        13 => DocumentEvent::ConfigChanged { key: s.clone(), old_value: None, new_value: s },
        _ => DocumentEvent::CustomEvent { event_type: "lint".into(), data: [("n".to_string(), s)].into_iter().collect() },
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Filter {
    include: Vec<u8>,
    exclude: Vec<u8>,
    modifications: Option<bool>,
    cursor: Option<bool>,
}
impl Filter {
    fn takes(&self, k: u8) -> bool {
        let edits = matches!(k, 0 | 1 | 2 | 7 | 8);
        let cursor = matches!(k, 3 | 4);
        !self.exclude.contains(&k)
            && (self.include.is_empty() || self.include.contains(&k))
            && self.modifications.is_none_or(|m| m == edits)
            && self.cursor.is_none_or(|c| c == cursor)
    }
    fn make(&self) -> EventFilter {
        let n = |v: &[u8]| v.iter().map(|k| NAMES[*k as usize].to_string()).collect::<Vec<_>>();
        let mut f = EventFilter::new();
        if !self.include.is_empty() {
            f = f.include_types(n(&self.include));
        }
        if !self.exclude.is_empty() {
            f = f.exclude_types(n(&self.exclude));
        }
        if let Some(m) = self.modifications {
            f = f.include_modifications(m);
        }
        if let Some(c) = self.cursor {
            f = f.include_cursor_events(c);
        }
        f
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ev {
    kind: u8,
    n: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Register { name: u32, filter: Filter, priority: i32 },
    /// the nth id handed out so far
    Unregister(u8),
    Bogus,
    Dispatch(Ev),
    Batch(Vec<Ev>),
    Queue(Ev),
    Attach,
    Hangup,
    Clear,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    max_handlers: usize,
    max_queue: usize,
    batching: bool,
    max_batch: usize,
    receive: bool,
    panics: bool,
    clients: Vec<Vec<Op>>,
    polls: u32,
}
/// what a handler did with an event
#[derive(Clone, Debug, PartialEq, Eq)]
struct Seen {
    who: u32,
    ev: DocumentEvent,
    failed: bool,
}
#[derive(Default)]
struct Logs {
    seen: Vec<Seen>,
    dropped: Vec<u32>,
    panicked: bool,
}
struct H {
    name: u32,
    filter: Filter,
    priority: i32,
    panics: bool,
    logs: &'static Shared<Logs>,
}
impl EventHandler for H {
    fn handle_event(&mut self, event: &DocumentEvent) -> ass_editor::core::errors::Result<()> {
        rt::point();
        let failed = rt::fault(rt::F_CB_ERR, 2) != 0;
        let boom = !failed && self.panics && rt::fault(rt::F_CB_PANIC, 2) != 0;
        self.logs.with(|l| {
            l.seen.push(Seen { who: self.name, ev: event.clone(), failed });
            l.panicked |= boom;
        });
        rt::advance(self.name as u64 * 1000);
        if boom {
            panic!("injected")
        }
        if failed {
            return Err(EditorError::CommandFailed { message: format!("injected {}", self.name) });
        }
        Ok(())
    }
    fn event_filter(&self) -> EventFilter {
        self.filter.make()
    }
    fn priority(&self) -> i32 {
        self.priority
    }
}
impl Drop for H {
    fn drop(&mut self) {
        let (l, n) = (self.logs, self.name);
        l.with(|l| l.dropped.push(n));
    }
}
struct Reg {
    id: usize,
    name: u32,
    filter: Filter,
    priority: i32,
}
#[derive(Default)]
struct Queue {
    sent: Vec<DocumentEvent>,
    got: usize,
    /// a receive call is under way
    polling: bool,
    hung_up: bool,
    cut_off: bool,
    finished: bool,
}
struct World {
    ch: EventChannel,
    regs: Vec<Reg>,
    ids: Vec<usize>,
    /// names of the handlers the channel has to let go, and has
    gone: Vec<u32>,
    dispatched: usize,
    filtered: usize,
    queued: usize,
    /// a dispatch failed: what it adds to the counts is open
    counts_open: bool,
    poisoned: bool,
    start: u64,
}
struct Receiving {
    rx: Option<UnboundedReceiver<DocumentEvent>>,
    current: usize,
}

pub struct Channel;
impl Scenario for Channel {
    type Plan = Plan;
    fn name(&self) -> &'static str {
        "event-channel"
    }
    fn gen(&self, g: &mut Gen) -> Plan {
        let mut n = 0u32;
        let hot: Vec<u8> = (0..g.range(2, 6)).map(|_| g.below(15) as u8).collect();
        let mut w: Vec<u64> = (0..9).map(|_| *g.pick(&[0u64, 1, 1, 2])).collect();
        w[0] += 3;
        w[3] += 3;
        w[8] = g.below(2);
        let steps = g.range(3, 12);
        let nc = g.range(1, 3);
        let prios: Vec<i32> = if g.bool() { vec![0] } else { vec![0, 0, 1, -1, 5, i32::MAX, i32::MIN] };
        let clients = (0..nc)
            .map(|_| {
                (0..steps)
                    .map(|_| {
                        let mut ev = |g: &mut Gen| {
                            n += 1;
                            Ev { kind: if g.chance(4, 5) { *g.pick(&hot) } else { g.below(15) as u8 }, n }
                        };
                        match g.weighted(&w) {
                            0 => {
                                let some = |g: &mut Gen| -> Vec<u8> { (0..g.below(4)).map(|_| *g.pick(&hot)).collect() };
                                let filter = if g.chance(1, 3) {
                                    Filter { include: vec![], exclude: vec![], modifications: None, cursor: None }
                                } else {
                                    Filter {
                                        include: if g.bool() { some(g) } else { vec![] },
                                        exclude: if g.chance(1, 3) { some(g) } else { vec![] },
                                        modifications: *g.pick(&[None, None, Some(true), Some(false)]),
                                        cursor: *g.pick(&[None, None, Some(true), Some(false)]),
                                    }
                                };
                                Op::Register { name: ev(g).n, filter, priority: *g.pick(&prios) }
                            }
                            1 => Op::Unregister(g.below(8) as u8),
                            2 => Op::Bogus,
                            3 => Op::Dispatch(ev(g)),
                            4 => Op::Batch((0..g.below(5)).map(|_| ev(g)).collect()),
                            5 => Op::Queue(ev(g)),
                            6 => {
                                if g.chance(1, 3) {
                                    Op::Attach
                                } else {
                                    Op::Queue(ev(g))
                                }
                            }
                            7 => {
                                if g.chance(1, 4) {
                                    Op::Hangup
                                } else {
                                    Op::Queue(ev(g))
                                }
                            }
                            _ => Op::Clear,
                        }
                    })
                    .collect()
            })
            .collect();
        Plan {
            max_handlers: if g.bool() { 100 } else { g.range(0, 4) as usize },
            max_queue: if g.chance(1, 4) { 1000 } else { g.range(1, 4) as usize },
            batching: g.bool(),
            max_batch: g.range(1, 4) as usize,
            receive: g.chance(3, 4),
            panics: g.chance(1, 5),
            clients,
            polls: g.range(4, 40) as u32,
        }
    }
    fn tune(&self, p: &Plan, g: &mut Gen, c: &mut Config) {
        if g.bool() {
            c.p_fault[rt::F_CB_ERR] = *g.pick(&[3000u32, 10000, 30000]);
        }
        if p.panics {
            c.p_fault[rt::F_CB_PANIC] = 6000;
        }
    }
    fn run(&self, plan: &'static Plan, cx: &'static Cx) {
        let logs: &'static Shared<Logs> = Shared::new(Logs::default());
        let queues: &'static Shared<Vec<Queue>> = Shared::new(vec![]);
        let receiving: &'static Shared<Receiving> = Shared::new(Receiving { rx: None, current: 0 });
        let ch = EventChannel::with_config(EventChannelConfig {
            max_handlers: plan.max_handlers,
            max_async_queue_size: plan.max_queue,
            enable_batching: plan.batching,
            max_batch_size: plan.max_batch,
            enable_logging: false,
        });
        let world = Arc::new(Mutex::new(World {
            ch,
            regs: vec![],
            ids: vec![],
            gone: vec![],
            dispatched: 0,
            filtered: 0,
            queued: 0,
            counts_open: false,
            poisoned: false,
            start: rt::mono(),
        }));
        if plan.receive {
            cx.spawn("receiver", move || {
                for _ in 0..plan.polls {
                    poll(cx, queues, receiving);
                    rt::point();
                }
            });
        }
        for ops in plan.clients.iter() {
            let world = world.clone();
            cx.spawn("client", move || {
                for op in ops {
                    let mut w = world.lock().unwrap_or_else(|e| e.into_inner());
                    exec(plan, &mut w, op, cx, logs, queues, receiving);
                    drop(w);
                    rt::point();
                }
            });
        }
        cx.wait();
        rt::calm();
        // what is still queued arrives once the receiver catches up
        loop {
            let more = queues.with(|q| q.iter().enumerate().any(|(i, q)| receiving.with(|r| r.rx.is_some() && r.current == i) && q.got < q.sent.len()));
            if !more {
                break;
            }
            let before: usize = queues.with(|q| q.iter().map(|q| q.got).sum());
            poll(cx, queues, receiving);
            let after: usize = queues.with(|q| q.iter().map(|q| q.got).sum());
            cx.check(after > before, "channel:queue-lost", || "a queued event never reaches the receiver".into());
        }
        let w = Arc::try_unwrap(world).ok().map(|m| m.into_inner().unwrap_or_else(|e| e.into_inner())).unwrap();
        let World { ch, regs, mut gone, .. } = w;
        drop(ch);
        gone.extend(regs.iter().map(|r| r.name));
        released(cx, logs, &mut gone, true);
    }
}
/// every handler the channel let go is released, once; no other is
fn released(cx: &'static Cx, logs: &'static Shared<Logs>, gone: &mut [u32], all: bool) {
    let mut d = logs.with(|l| l.dropped.clone());
    d.sort();
    gone.sort();
    cx.check(d == gone, "channel:handlers-released", || format!("handlers released {d:?}, handlers the channel let go{} {gone:?}", if all { " or held at its end" } else { "" }));
}
fn poll(cx: &'static Cx, queues: &'static Shared<Vec<Queue>>, receiving: &'static Shared<Receiving>) {
    let Some((mut rx, at)) = receiving.with(|r| r.rx.take().map(|x| (x, r.current))) else { return };
    queues.with(|q| q[at].polling = true);
    let r = rx.try_next();
    queues.with(|qs| {
        let q = &mut qs[at];
        q.polling = false;
        match r {
            Ok(Some(e)) => {
                cx.check(q.got < q.sent.len() && q.sent[q.got] == e, "channel:queue-order", || {
                    format!("received {e:?} as event {} of the queue, the queued ones are {:?}", q.got, q.sent)
                });
                q.got += 1;
                cx.probe("async_received");
            }
            Ok(None) => {
                cx.check(q.cut_off && q.got == q.sent.len(), "channel:queue-end", || format!("the receiver was told the queue ended after {} of {} events, {}", q.got, q.sent.len(), if q.cut_off { "another was set up" } else { "while the channel still uses it" }));
                q.finished = true;
            }
            Err(_) => {}
        }
    });
    receiving.with(|r| {
        if r.current == at && r.rx.is_none() && !queues.with(|q| q[at].hung_up || q[at].finished) {
            r.rx = Some(rx);
        }
    });
}
fn exec(
    plan: &'static Plan,
    w: &mut World,
    op: &Op,
    cx: &'static Cx,
    logs: &'static Shared<Logs>,
    queues: &'static Shared<Vec<Queue>>,
    receiving: &'static Shared<Receiving>,
) {
    cx.doing(format!("{op:?}"));
    cx.log(format!("{op:?}"));
    logs.with(|l| {
        l.seen.clear();
        l.panicked = false;
    });
    match op {
        Op::Register { name, filter, priority } => {
            let h = Box::new(H { name: *name, filter: filter.clone(), priority: *priority, panics: plan.panics, logs });
            match w.ch.register_handler(h) {
                Ok(id) => {
                    cx.check(!w.ids.contains(&id), "channel:id-reused", || format!("id {id} was handed out before"));
                    cx.check(w.regs.len() < plan.max_handlers, "channel:limit", || format!("handler {} of at most {} was accepted", w.regs.len() + 1, plan.max_handlers));
                    w.ids.push(id);
                    // before the first one of lower priority
                    let at = w.regs.iter().position(|r| r.priority < *priority).unwrap_or(w.regs.len());
                    w.regs.insert(at, Reg { id, name: *name, filter: filter.clone(), priority: *priority });
                }
                Err(e) => {
                    cx.check(w.poisoned || w.regs.len() >= plan.max_handlers, "channel:refused", || format!("a handler was refused with {} of {} registered: {e}", w.regs.len(), plan.max_handlers));
                    cx.probe("handler_limit");
                    w.gone.push(*name);
                }
            }
        }
        Op::Unregister(_) | Op::Bogus => {
            let id = match op {
                Op::Unregister(i) if !w.ids.is_empty() => w.ids[*i as usize % w.ids.len()],
                _ => w.ids.iter().max().map_or(0, |m| m + 1 + w.ids.len()),
            };
            let known = w.regs.iter().position(|r| r.id == id);
            match w.ch.unregister_handler(id) {
                Ok(r) => {
                    cx.check(r == known.is_some(), "channel:unregister", || format!("unregistering id {id} says {r}, the handler is {}", if known.is_some() { "registered" } else { "not registered" }));
                    if let Some(k) = known {
                        let r = w.regs.remove(k);
                        w.gone.push(r.name);
                        cx.nontrivial();
                    }
                }
                Err(e) => cx.check(w.poisoned, "channel:refused", || format!("unregistering id {id} failed: {e}")),
            }
        }
        Op::Clear => match w.ch.clear_handlers() {
            Ok(()) => {
                let n: Vec<u32> = w.regs.drain(..).map(|r| r.name).collect();
                w.gone.extend(n);
            }
            Err(e) => cx.check(w.poisoned, "channel:refused", || format!("clearing the handlers failed: {e}")),
        },
        Op::Dispatch(e) => {
            let r = cx.catch(|| w.ch.dispatch(event(e.kind, e.n)));
            delivered(cx, w, &[e.clone()], r, logs);
        }
        Op::Batch(es) => {
            let r = cx.catch(|| w.ch.dispatch_batch(es.iter().map(|e| event(e.kind, e.n)).collect()));
            delivered(cx, w, es, r, logs);
        }
        Op::Queue(e) => {
            let e = event(e.kind, e.n);
            let depth = |q: &Queue| q.sent.len() - q.got;
            let open = queues.with(|q| q.last().map(|q| (q.hung_up || q.finished, depth(q), q.polling)));
            // sent first: the receiver may get it before the call returns
            queues.with(|q| q.last_mut().map(|q| q.sent.push(e.clone())));
            let r = w.ch.dispatch_async(e);
            match (&r, open) {
                (Ok(()), Some((false, _, _))) => {
                    w.queued += 1;
                    let (d, p) = queues.with(|q| q.last().map(|q| (depth(q), q.polling)).unwrap());
                    cx.check(d <= plan.max_queue + p as usize, "channel:queue-size", || format!("{d} events are queued, the queue takes {}", plan.max_queue));
                    cx.nontrivial();
                }
                (Err(_), Some((hung, d, polling))) => {
                    queues.with(|q| q.last_mut().map(|q| q.sent.pop()));
                    cx.check(hung || d >= plan.max_queue || queues.with(|q| q.last().unwrap().hung_up), "channel:queue-refused", || {
                        format!("queueing failed with {d} events in a queue of {} (receiver busy: {polling})", plan.max_queue)
                    });
                    cx.probe(if hung { "queue_hung_up" } else { "queue_full" });
                }
                (Err(_), None) => {}
                (Ok(()), Some((true, _, _))) => {
                    queues.with(|q| {
                        let q = q.last_mut().unwrap();
                        q.sent.pop();
                        cx.check(!q.hung_up && !q.finished, "channel:queue-void", || "queueing to a receiver that is gone reports success".into());
                    });
                }
                (Ok(()), None) => cx.fail("channel:queue-void", "queueing without a receiver reports success"),
            }
        }
        Op::Attach => {
            queues.with(|q| {
                if let Some(l) = q.last_mut() {
                    l.cut_off = true;
                }
            });
            let rx = w.ch.setup_async();
            let old = receiving.with(|r| {
                r.current = queues.with(|q| {
                    q.push(Queue::default());
                    q.len() - 1
                });
                r.rx.replace(rx)
            });
            // the old one still holds what was queued, then ends
            if let Some(mut o) = old {
                queues.with(|qs| {
                    let k = qs.len() - 2;
                    let q = &mut qs[k];
                    let mut rest = vec![];
                    let mut end = false;
                    while rest.len() <= q.sent.len() {
                        match o.try_next() {
                            Ok(Some(e)) => rest.push(e),
                            Ok(None) => {
                                end = true;
                                break;
                            }
                            Err(_) => break,
                        }
                    }
                    cx.check(rest == q.sent[q.got..] && end, "channel:queue-replaced", || format!("after another receiver was set up the old one holds {rest:?} (ended: {end}), queued and not received are {:?}", &q.sent[q.got..]));
                    q.finished = true;
                });
            }
        }
        Op::Hangup => {
            let rx = receiving.with(|r| r.rx.take().map(|x| (x, r.current)));
            if let Some((rx, k)) = rx {
                queues.with(|q| q[k].hung_up = true);
                drop(rx);
            }
        }
    }
    let s = w.ch.stats();
    cx.check(s.handlers_count == w.regs.len(), "channel:stats-handlers", || format!("{} handlers counted, {} registered", s.handlers_count, w.regs.len()));
    cx.check(s.async_events_queued == w.queued, "channel:stats-queued", || format!("{} queued events counted, {} were queued", s.async_events_queued, w.queued));
    cx.check(w.counts_open || s.events_dispatched == w.dispatched, "channel:stats-dispatched", || format!("{} events counted, {} were dispatched", s.events_dispatched, w.dispatched));
    cx.check(w.counts_open || s.events_filtered == w.filtered, "channel:stats-filtered", || format!("{} filtered deliveries counted, {} happened", s.events_filtered, w.filtered));
    let total = (rt::mono() - w.start) / 1000;
    cx.check(s.avg_processing_time_us <= total, "channel:stats-time", || format!("average processing time {} us in a run of {total} us", s.avg_processing_time_us));
    released(cx, logs, &mut w.gone, false);
}
fn delivered(cx: &'static Cx, w: &mut World, es: &[Ev], r: Result<ass_editor::core::errors::Result<()>, String>, logs: &'static Shared<Logs>) {
    let (seen, panicked) = logs.with(|l| (l.seen.clone(), l.panicked));
    let mut it = seen.iter();
    let mut failed: Option<u32> = None;
    let was = w.poisoned;
    let mut stopped = false;
    for e in es {
        if was && r.is_ok_and_err() {
            // a handler panicked earlier and the channel refuses to go on
            stopped = true;
            break;
        }
        if failed.is_some() {
            // a batch may end at the first event that failed
            stopped = true;
            break;
        }
        w.dispatched += 1;
        for g in w.regs.iter() {
            if !g.filter.takes(e.kind) {
                w.filtered += 1;
                continue;
            }
            let Some(s) = it.next() else {
                if panicked {
                    break;
                }
                cx.fail(
                    if failed.is_some() { "channel:starved" } else { "channel:undelivered" },
                    format!("{:?} did not reach handler {} (priority {}){}", event(e.kind, e.n), g.name, g.priority, if failed.is_some() { ", an earlier one failed" } else { "" }),
                )
            };
            cx.check(s.who == g.name && s.ev == event(e.kind, e.n), "channel:delivery", || {
                format!("expected {:?} at handler {}, handler {} got {:?}", event(e.kind, e.n), g.name, s.who, s.ev)
            });
            if s.failed && failed.is_none() {
                failed = Some(s.who);
                cx.nontrivial();
            }
            cx.probe("delivered");
        }
        if panicked && it.len() == 0 {
            stopped = true;
            break;
        }
    }
    if stopped {
        w.counts_open = true;
    }
    // the rest of a batch may also be delivered
    cx.check(it.len() == 0 || (stopped && failed.is_some()), "channel:delivery-extra", || format!("unexpected deliveries {:?}", it.as_slice()));
    match r {
        Err(p) => {
            cx.check(panicked && p.starts_with("injected"), "channel:panic", || p.clone());
            w.poisoned = true;
            w.counts_open = true;
            cx.probe("handler_panic");
        }
        Ok(Ok(())) => cx.check(failed.is_none(), "channel:failure-hidden", || format!("handler {failed:?} failed and the dispatch reports success")),
        Ok(Err(e)) => {
            w.counts_open |= was;
            cx.check(
                was || failed.is_some_and(|f| e.to_string().contains(&format!("injected {f}"))),
                "channel:failure",
                || format!("the dispatch reports {e}, the handler that failed is {failed:?}"),
            );
        }
    }
}
trait Outcome {
    fn is_ok_and_err(&self) -> bool;
}
impl Outcome for Result<ass_editor::core::errors::Result<()>, String> {
    fn is_ok_and_err(&self) -> bool {
        matches!(self, Ok(Err(_)))
    }
}
pub fn check() -> Check {
    Check {
        id: "C11",
        real: "EventChannel (registry, filters, dispatch, batches, asynchronous queue), DocumentEvent, futures mpsc, std RwLock and clock (compiled from the tree)",
        stub: "handlers (generated; fail and panic), OS scheduler, locks, clock (simulated)",
        rule: "a handler was removed or failed, or an event was queued",
        parts: vec![part(Channel, 40_000, 2_000_000)],
    }
}
