//! Playback: the position is the playing time multiplied by the speed, and the picture shown belongs to
//! the loaded script and that position. The clock is simulated; it leaps and the font files fail to read.
use super::render::{any_script, mount_fonts, prepare_fonts, reference, Scr};
use crate::engine::{part, Check, Cx, Scenario, Shared};
use crate::gen::Gen;
use crate::rt::{self, Config};
use ass_renderer::{BackendType, DebugPlayer};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub op: String,
    pub a: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub scripts: Vec<Scr>,
    pub ops: Vec<Op>,
    pub shift: u32,
}
const DIMS: (u32, u32) = (96, 54);
const FRAME: u32 = 40;

/// What the player should do. `base` is exact; `since` holds the playing time after it, scaled.
struct Model {
    script: Option<usize>,
    end: u32,
    playing: bool,
    looping: bool,
    speed: f32,
    base: u32,
    gained: f64,
    from: u64,
    cached: bool,
}
impl Model {
    fn at(&self, now: u64) -> f64 {
        self.base as f64 + self.gained + if self.playing { (now - self.from) as f64 / 1e6 * self.speed as f64 } else { 0.0 }
    }
    fn tol(&self, now: u64) -> f64 {
        1.5 + 4e-6 * (self.at(now) - self.base as f64)
    }
    fn rebase(&mut self, at: u32, now: u64) {
        self.base = at;
        self.gained = 0.0;
        self.from = now;
    }
    fn set_speed(&mut self, s: f32, now: u64) {
        if self.playing {
            self.gained += (now - self.from) as f64 / 1e6 * self.speed as f64;
            self.from = now;
        }
        self.speed = s.clamp(0.1, 10.0);
    }
}
struct Rec {
    script: usize,
    ms: u32,
    exact: bool,
    data: Vec<u8>,
    at: u64,
}

fn length(s: &Scr) -> u32 {
    match s.events.iter().map(|e| e.end).max() {
        Some(m) if m > 0 => m.saturating_mul(10),
        _ => 10_000,
    }
}
fn drive(plan: &'static Plan, recs: &'static Shared<Vec<Rec>>, seen: &'static Shared<Vec<(usize, u32, bool)>>, cx: &'static Cx) {
    let mut p = rt::quiet(|| DebugPlayer::new(BackendType::Software, DIMS.0, DIMS.1).expect("player"));
    p.toggle_stats();
    let mut m = Model { script: None, end: 0, playing: false, looping: false, speed: 1.0, base: 0, gained: 0.0, from: rt::mono(), cached: true };
    let mut updates = 0;
    for o in &plan.ops {
        rt::point();
        let before = p.current_time();
        let now = rt::mono();
        cx.doing(format!("{} {}", o.op, o.a));
        let f0 = rt::io_failures();
        let mut shown = None;
        match o.op.as_str() {
            "wait" => {
                rt::advance(o.a * 1_000_000 + o.a % 7 * 130_000);
                cx.log(format!("wait {} ms", o.a));
                continue;
            }
            "load" => {
                let i = o.a as usize % plan.scripts.len();
                let r = p.load_script(&plan.scripts[i].text());
                cx.check(r.is_ok(), "load", || format!("script {i}: {r:?}"));
                m.script = Some(i);
                m.end = length(&plan.scripts[i]);
                cx.check(p.duration_ms() == m.end, "duration", || format!("{} ms, but the last line ends at {}", p.duration_ms(), m.end));
            }
            "play" => {
                p.play();
                if !m.playing {
                    m.rebase(before, now);
                    m.playing = true;
                }
            }
            "pause" => {
                p.pause();
                if m.playing {
                    let want = m.at(now).min(m.end as f64);
                    let (got, tol) = (p.current_time(), m.tol(now));
                    cx.check((got as f64 - want).abs() <= tol, "pause-position", || format!("paused at {got}, played to {want:.1}"));
                    m.playing = false;
                    m.rebase(got, now);
                }
            }
            "stop" => {
                p.stop();
                m.playing = false;
                m.rebase(0, now);
                cx.check(p.current_time() == 0, "stop", || format!("stopped at {}", p.current_time()));
            }
            "seek" => {
                let t = o.a as u32;
                p.seek(t);
                m.rebase(t.min(m.end), now);
                cx.check(p.current_time() == t.min(m.end), "seek", || format!("sought {t} of {}, now at {}", m.end, p.current_time()));
            }
            "forward" | "backward" => {
                let want = if o.op == "forward" {
                    p.step_forward();
                    before.saturating_add(FRAME).min(m.end)
                } else {
                    p.step_backward();
                    before.saturating_sub(FRAME)
                };
                m.rebase(want, now);
                cx.check(p.current_time() == want, "step", || format!("{} from {before} of {} went to {}", o.op, m.end, p.current_time()));
            }
            "speed" => {
                let s = o.a as f32 / 100.0;
                p.set_speed(s);
                m.set_speed(s, now);
            }
            "faster" => {
                p.increase_speed();
                m.set_speed((m.speed * 1.5).min(10.0), now);
            }
            "slower" => {
                p.decrease_speed();
                m.set_speed((m.speed / 1.5).max(0.1), now);
            }
            "loop" => {
                m.looping = o.a % 2 == 1;
                p.set_loop(m.looping);
            }
            "toggle-loop" => {
                m.looping = !m.looping;
                p.toggle_loop();
            }
            "cache" => {
                m.cached = o.a % 2 == 1;
                p.set_cache_enabled(m.cached);
            }
            "cache-size" => p.set_max_cache_size(o.a as usize),
            "update" => {
                let r = p.update(Duration::from_millis(o.a));
                let got = p.current_time();
                if !m.playing {
                    cx.check(matches!(r, Ok(None)) && got == before, "update-when-paused", || format!("{:?}, position {before} to {got}", r.as_ref().map(|f| f.is_some())));
                } else {
                    updates += 1;
                    let (want, tol) = (m.at(now), m.tol(now));
                    let (over, under) = (want + tol >= m.end as f64, want - tol < m.end as f64);
                    let ended = !p.is_playing();
                    let looped = m.looping && over && got == 0 && !ended;
                    let went_on = under && !ended && (got as f64 - want).abs() <= tol;
                    let finished = over && !m.looping && ended && got == m.end;
                    cx.check(went_on || looped || finished, "position", || {
                        format!("position {got} ({}) after playing to {want:.1} of {} ms from {} at {}x{}", if ended { "ended" } else { "playing" }, m.end, m.base, m.speed, if m.looping { ", looping" } else { "" })
                    });
                    if finished && !went_on {
                        cx.probe("finished");
                        m.playing = false;
                        m.rebase(m.end, now);
                        cx.check(matches!(r, Ok(None)), "finish", || "a frame after the end".into());
                    } else {
                        if looped && !went_on {
                            cx.probe("looped");
                            m.rebase(0, now);
                        }
                        match r {
                            Ok(Some(f)) => shown = Some(f),
                            Ok(None) => cx.fail("no-frame", format!("no frame at {got}")),
                            Err(e) => cx.check(m.script.is_none() || rt::io_failures() != f0, "render-error", || format!("at {got}: {e}")),
                        }
                    }
                }
            }
            "render" => match p.render_current_frame() {
                Ok(f) => shown = Some(f),
                Err(e) => cx.check(m.script.is_none() || rt::io_failures() != f0, "render-error", || format!("{e}")),
            },
            "test" => {
                if let Some(i) = m.script {
                    let pts: Vec<u32> = (0..3).map(|k| (o.a as u32).wrapping_mul(k + 1) % (m.end.saturating_add(200))).collect();
                    match p.run_automatic_test(pts.clone()) {
                        Ok(r) => {
                            let got: Vec<u32> = r.test_points.iter().map(|t| t.timestamp_ms).collect();
                            cx.check(got == pts && r.frames_with_content + r.frames_empty == pts.len(), "test-report", || format!("{got:?} for {pts:?}"));
                            for t in &r.test_points {
                                seen.with(|v| v.push((i, t.timestamp_ms / 10, t.has_visible_content)));
                            }
                        }
                        Err(e) => cx.check(rt::io_failures() != f0, "render-error", || format!("{e}")),
                    }
                }
            }
            _ => {}
        }
        if !matches!(o.op.as_str(), "update" | "pause" | "stop" | "seek" | "forward" | "backward") {
            cx.check(p.current_time() == before, "position-moved", || format!("{} moved the position from {before} to {}", o.op, p.current_time()));
        }
        cx.check(p.is_playing() == m.playing, "playing", || format!("is_playing is {} after {}", p.is_playing(), o.op));
        cx.log(format!("{} {} -> {} {}", o.op, o.a, p.current_time(), if m.playing { "playing" } else { "" }));
        if let (Some(f), Some(script)) = (shown, m.script) {
            let ms = p.current_time();
            cx.check(f.timestamp_ms == ms && f.frame_number == ms / FRAME && (f.frame.width(), f.frame.height()) == DIMS, "frame-header", || format!("frame for {} number {} at {ms}", f.timestamp_ms, f.frame_number));
            recs.with(|v| v.push(Rec { script, ms, exact: !m.cached, data: f.frame.data().to_vec(), at: cx.stamp() }));
        }
        cx.doing("");
    }
    if updates >= 2 {
        cx.nontrivial();
    }
}

pub struct Playback;
impl Scenario for Playback {
    type Plan = Plan;
    fn name(&self) -> &'static str {
        "playback"
    }
    fn prepare(&self) {
        prepare_fonts()
    }
    fn gen(&self, g: &mut Gen) -> Plan {
        let scripts: Vec<Scr> = (0..g.range(1, 3))
            .map(|_| {
                let mut s = any_script(g);
                if g.chance(1, 30) {
                    // a line that ends in days
                    s.events[0].end = *g.pick(&[400_000_000, 429_496_729, 429_496_730, 3_000_000_000]);
                }
                s
            })
            .collect();
        let end = scripts.iter().map(length).max().unwrap_or(0) as u64;
        let mut ops = vec![];
        if g.chance(9, 10) {
            ops.push(Op { op: "load".into(), a: 0 });
        }
        if g.chance(2, 3) {
            ops.push(Op { op: "play".into(), a: 0 });
        }
        for _ in 0..g.range(4, 40) {
            let k = g.weighted(&[10, 10, 3, 3, 1, 2, 1, 1, 3, 1, 1, 1, 1, 1, 1, 2, 2, 1]);
            let op = ["wait", "update", "play", "pause", "stop", "seek", "forward", "backward", "speed", "faster", "slower", "loop", "toggle-loop", "cache", "cache-size", "load", "render", "test"][k];
            let a = match op {
                "wait" => match g.below(12) {
                    0 => 0,
                    1 => g.below(20_000),
                    2 => 3_600_000 * g.below(20),
                    3 => end + g.below(3),
                    _ => g.below(400),
                },
                "update" => g.below(100),
                "seek" => match g.below(6) {
                    0 => end,
                    1 => end.saturating_sub(g.below(50)),
                    2 => u32::MAX as u64,
                    _ => g.below(end.min(4_000) + 1),
                },
                "speed" => *g.pick(&[100, 50, 200, 10, 1000, 5, 2000, 133]),
                "cache-size" => *g.pick(&[0, 1, 2, 5, 100]),
                _ => g.below(4_000),
            };
            ops.push(Op { op: op.into(), a });
            if op == "wait" && g.chance(2, 3) {
                ops.push(Op { op: "update".into(), a: 40 });
            }
        }
        Plan { scripts, ops, shift: *g.pick(&[0, 100, 5_999]) }
    }
    fn tune(&self, _p: &Plan, g: &mut Gen, cfg: &mut Config) {
        cfg.max_steps = 30_000_000;
        cfg.p_switch[rt::P_ALLOC] = 0;
        if g.chance(1, 3) {
            for k in [rt::F_OPEN, rt::F_READ_ERR] {
                cfg.p_fault[k] = *g.pick(&[0, 2000, 10000]);
            }
        }
    }
    fn run(&self, plan: &'static Plan, cx: &'static Cx) {
        mount_fonts();
        let recs = Shared::new(vec![]);
        let seen = Shared::new(vec![]);
        cx.spawn("player", move || drive(plan, recs, seen, cx));
        cx.wait();
        rt::calm();
        let all: Vec<Rec> = recs.with(std::mem::take);
        let seen = seen.with(std::mem::take);
        let refs: &'static Shared<BTreeMap<(usize, u32), Vec<u8>>> = Shared::new(BTreeMap::new());
        let draw = |i: usize, cs: u32| -> Vec<u8> {
            if plan.scripts[i].shown(cs).is_empty() {
                return vec![0; (DIMS.0 * DIMS.1 * 4) as usize];
            }
            if let Some(v) = refs.with(|m| m.get(&(i, cs)).cloned()) {
                return v;
            }
            cx.spawn("reference", move || {
                let shift = if plan.scripts[i].shown(cs).iter().any(|e| e.end > 300_000_000) { 0 } else { plan.shift };
                let v = reference(&plan.scripts[i], cs, shift, DIMS, false).unwrap_or_default();
                refs.with(|m| m.insert((i, cs), v));
            });
            cx.wait();
            refs.with(|m| m[&(i, cs)].clone())
        };
        let mut budget = 24; // simulated threads are not reused
        for r in &all {
            let own = r.ms / 10;
            let first = r.ms / FRAME * FRAME / 10;
            let mut ok = false;
            let mut todo = vec![own];
            if !r.exact {
                todo.extend((first..first + FRAME / 10).filter(|c| *c != own));
            }
            for c in todo {
                if budget == 0 {
                    ok = true;
                    break;
                }
                let known = plan.scripts[r.script].shown(c).is_empty() || refs.with(|m| m.contains_key(&(r.script, c)));
                budget -= !known as i32;
                if draw(r.script, c) == r.data {
                    ok = true;
                    break;
                }
            }
            cx.check(ok, "wrong-picture", || format!("#{} the frame shown at {} ms is not script {} at that time", r.at, r.ms, r.script));
        }
        for (i, c, visible) in seen {
            if budget == 0 {
                break;
            }
            budget -= 1;
            let v = draw(i, c).chunks(4).any(|p| p[3] != 0);
            cx.check(v == visible, "wrong-report", || format!("script {i} at {c} reported visible={visible}"));
        }
    }
}
pub fn check() -> Check {
    Check {
        id: "C16",
        real: "DebugPlayer, Renderer, software pipeline and backend, ass-core parser (compiled from the tree)",
        stub: "caller (generated), monotonic clock (simulated), font files' disk (simulated, failing)",
        rule: "at least two updates while playing",
        parts: vec![part(Playback, 40_000, 3_000_000)],
    }
}
