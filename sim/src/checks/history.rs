//! One editor document driven by long random operation histories with failing commands,
//! bad arguments, clock leaps and history limits. Four oracles look at the same runs:
//! undo/redo (C07), all-or-nothing (C08), change events (C05) and validation freshness (C13).
use super::script;
use crate::engine::{Cx, Scenario};
use crate::gen::Gen;
use crate::rt::{self, Config};
use ass_editor::commands::*;
use ass_editor::core::errors::EditorError;
use ass_editor::{
    DocumentEvent, EditorDocument, EventBuilder, Position, Range, StyleBuilder, UndoStackConfig, ValidationSeverity, ValidatorConfig, LazyValidator,
};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::mpsc;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Oracle {
    Undo,
    Atomic,
    Events,
    Validation,
}
pub struct History(pub Oracle);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub op: String,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub s: String,
    pub s2: String,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub text: String,
    pub max_entries: u32,
    pub max_memory: u32,
    pub interval_ms: u32,
    pub ops: Vec<Op>,
}

const OPS: &[(&str, u64)] = &[
    ("insert", 10), ("delete", 8), ("replace", 8), ("undo", 22), ("redo", 14),
    ("edit_incremental", 6), ("insert_incremental", 4), ("delete_incremental", 4), ("edit_safe", 2), ("edit_event_incremental", 2), ("long_incremental", 3),
    ("cmd_insert", 3), ("cmd_delete", 3), ("cmd_replace", 3), ("batch", 5), ("flaky", 6), ("nested_batch", 2),
    ("fl_insert", 1), ("fl_delete", 1), ("fl_replace", 1),
    ("split", 2), ("merge", 2), ("timing", 2), ("toggle", 2), ("effect", 2), ("del_event", 2), ("del_events", 2), ("del_query", 1),
    ("style_create", 2), ("style_edit", 2), ("style_delete", 2), ("style_clone", 2), ("style_apply", 2),
    ("tag_insert", 2), ("tag_remove", 2), ("tag_replace", 2), ("tag_wrap", 2),
    ("kar_gen", 1), ("kar_split", 1), ("kar_adjust", 1), ("kar_apply", 1),
    ("info_set", 3), ("info_del", 1), ("api_info_set", 1), ("api_event_text", 2), ("by_index", 2), ("by_builder", 2), ("add_event_line", 1), ("add_style_line", 1), ("edit_style_line", 1),
    ("font_add", 1), ("font_del", 1), ("font_clear", 1), ("gfx_add", 1), ("gfx_del", 1), ("gfx_clear", 1),
    ("at_insert", 1), ("at_delete", 1), ("at_backspace", 1), ("at_line_replace", 1), ("sel_wrap", 1), ("sel_indent", 2), ("sel_unindent", 1),
    ("apply_delta", 1), ("validate", 6), ("force_validate", 2), ("is_valid", 3), ("set_validator", 1), ("read", 2), ("inc_ins_cmd", 1), ("inc_rep_cmd", 1), ("inc_ev_cmd", 1), ("search_replace", 2),
];
pub fn gen_op(g: &mut Gen, or: Oracle) -> Op {
    let w: Vec<u64> = OPS
        .iter()
        .map(|(n, w)| match (or, *n) {
            (Oracle::Validation, "validate" | "is_valid" | "set_validator") => w * 4,
            (Oracle::Atomic, "flaky" | "batch" | "nested_batch") => w * 3,
            _ => *w,
        })
        .collect();
    let n = OPS[g.weighted(&w)].0;
    let s = match n {
        "split" | "timing" => script::time(g),
        "tag_insert" | "tag_wrap" | "tag_replace" | "tag_remove" => g.pick(&["\\b1", "\\i1", "{\\u1}", "\\c&H0000FF&", "b", "\\pos(1,2)", "", "\\k20"]).to_string(),
        "style_create" | "style_edit" | "style_delete" | "style_clone" | "style_apply" | "edit_style_line" => g.pick(&["Default", "Alt", "New", "Défaut", "", "Missing"]).to_string(),
        "info_set" | "info_del" | "api_info_set" => g.pick(&["Title", "PlayResX", "Nope", "Subtitle", "WrapStyle", "t"]).to_string(),
        "font_add" | "font_del" | "gfx_add" | "gfx_del" => g.pick(&["a.ttf", "p.png", "new.ttf", "é.ttf"]).to_string(),
        "add_event_line" => script::event_line(g),
        "add_style_line" => script::style_line(g, "Added"),
        "long_incremental" => {
            let n = g.range(1, 6);
            let mut t = String::new();
            for _ in 0..n {
                t += &script::event_line(g);
                t += "\n";
            }
            t
        }
        _ => script::frag(g),
    };
    Op { op: n.into(), a: g.u64() as u32, b: g.u64() as u32, c: g.u64() as u32, s, s2: script::frag(g) }
}

/// Position selector: mostly a character boundary, sometimes inside one, rarely out of bounds.
fn pos(text: &str, a: u32, mode: u32) -> usize {
    let p = a as usize % (text.len() + 1);
    match mode % 16 {
        0 => text.len() + 1 + (a as usize % 5),
        1 | 2 => p,
        _ => script::floor(text, p),
    }
}
fn range(text: &str, o: &Op) -> Range {
    let a = pos(text, o.a, o.c);
    let len = match o.c >> 8 & 7 {
        0 => 0,
        7 => o.b as usize % (text.len() + 3),
        6 => o.b as usize % 200,
        _ => o.b as usize % 30,
    };
    let mut e = a + len;
    if o.c >> 4 & 15 != 0 {
        e = e.min(text.len()).max(a);
        if o.c >> 12 & 7 != 0 {
            e = script::floor(text, e).max(a);
        }
    }
    Range::new(Position::new(a), Position::new(e))
}

/// A user command that edits the document through several APIs and may give up at any step.
#[derive(Debug)]
struct Flaky {
    a: u32,
    b: u32,
    c: u32,
    s: String,
}
static GAVE_UP: AtomicBool = AtomicBool::new(false);
impl EditorCommand for Flaky {
    fn execute(&self, d: &mut EditorDocument) -> ass_editor::Result<CommandResult> {
        let steps = self.c % 4 + 1;
        for i in 0..steps {
            let f = rt::fault(rt::F_CB_ERR, 3);
            if f > 0 {
                GAVE_UP.store(true, Ordering::Relaxed);
                return if f == 1 { Err(EditorError::CommandFailed { message: "injected".into() }) } else { Ok(CommandResult::failure("injected".into())) };
            }
            let t = d.text();
            let p = script::floor(&t, (self.a.wrapping_mul(i + 1)) as usize % (t.len() + 1));
            let e = script::floor(&t, (p + self.b as usize % 20).min(t.len())).max(p);
            let r = Range::new(Position::new(p), Position::new(e));
            match (self.c >> (4 + 4 * i)) & 7 {
                0 => d.insert(Position::new(p), &self.s)?,
                1 => d.delete(r)?,
                2 => d.replace(r, &self.s)?,
                3 => {
                    InsertTextCommand::new(Position::new(p), self.s.clone()).execute(d)?;
                }
                4 => {
                    d.edit_incremental(r, &self.s)?;
                }
                5 => {
                    d.execute_command(&DeleteTextCommand::new(r))?;
                }
                6 => {
                    d.info().set("Title", &self.s.replace('\n', " "))?;
                }
                _ => {
                    let _ = d.undo();
                }
            }
        }
        let mut r = CommandResult::success();
        r.content_changed = self.c >> 20 & 1 == 1;
        if self.c >> 21 & 1 == 1 {
            r = CommandResult::success_with_change(Range::new(Position::new(0), Position::new(0)), Position::new(0));
        }
        Ok(r)
    }
    fn description(&self) -> &str {
        "flaky batch"
    }
}

/// Kinds of outcome the oracles need.
pub struct Did {
    r: Result<(), String>,
    /// may have recorded more than one undo step
    multi: bool,
}
impl Did {
    pub fn outcome(&self) -> String {
        match &self.r {
            Ok(()) => "ok".into(),
            Err(e) => format!("refused: {e}"),
        }
    }
    pub fn refused(&self) -> bool {
        self.r.is_err()
    }
}
type R = Result<(), EditorError>;

fn sub_batch(o: &Op, t: &str, depth: u32) -> BatchCommand {
    let mut b = BatchCommand::new(if o.c & 1 == 0 { "Multiple edits".into() } else { "x".into() });
    for i in 0..(o.c >> 16 & 3) + 1 {
        let r = range(t, &Op { a: o.a.wrapping_mul(2 * i + 1), b: o.b.wrapping_add(i), c: if i == 0 { o.c | 0xf3 } else { o.c.rotate_right(i * 3) | 0x3 }, ..o.clone() });
        b = match o.c.rotate_right(3 * i + 5) & 7 {
            0 => b.add_command(Box::new(DeleteTextCommand::new(r))),
            1 => b.add_command(Box::new(ReplaceTextCommand::new(r, o.s.clone()))),
            2 => b.add_command(Box::new(SetScriptInfoCommand::new("Title".into(), "T2".into()))),
            3 => b.add_command(Box::new(DeleteEventCommand::new((o.a % 5) as usize))),
            4 if depth == 0 => b.add_command(Box::new(sub_batch(&Op { a: o.b, b: o.a, ..o.clone() }, t, 1))),
            5 => b.add_command(Box::new(Flaky { a: o.a, b: o.b, c: o.c.rotate_left(7), s: o.s2.clone() })),
            _ => b.add_command(Box::new(InsertTextCommand::new(r.start, o.s.clone()))),
        };
    }
    b
}

pub fn apply(d: &mut EditorDocument, o: &Op) -> Did {
    let t = d.text();
    let r = range(&t, o);
    let p = Position::new(pos(&t, o.a, o.c));
    let i = (o.a % 6) as usize;
    let j = (o.b % 6) as usize;
    let idx = || -> Vec<usize> {
        match o.c % 4 {
            0 => vec![],
            1 => vec![i],
            2 => vec![i, j],
            _ => vec![j, i, i + 1],
        }
    };
    let mut multi = false;
    fn u<T>(r: Result<T, EditorError>) -> R {
        r.map(|_| ())
    }
    let res: R = match o.op.as_str() {
        "insert" => d.insert(p, &o.s),
        "delete" => d.delete(r),
        "replace" => d.replace(r, &o.s),
        "undo" => u(d.undo()),
        "redo" => u(d.redo()),
        "edit_incremental" => u(d.edit_incremental(r, &o.s)),
        "long_incremental" => u(d.edit_incremental(r, &o.s)),
        "insert_incremental" => u(d.insert_incremental(p, &o.s)),
        "delete_incremental" => u(d.delete_incremental(r)),
        "edit_safe" => d.edit_safe(r, &o.s),
        "edit_event_incremental" => u(d.edit_event_incremental(script::WORDS[i], &o.s)),
        "cmd_insert" => u(d.execute_command(&InsertTextCommand::new(p, o.s.clone()))),
        "cmd_delete" => u(d.execute_command(&DeleteTextCommand::new(r))),
        "cmd_replace" => u(d.execute_command(&ReplaceTextCommand::new(r, o.s.clone()))),
        "batch" | "nested_batch" => {
            let b = sub_batch(o, &t, if o.op == "batch" { 1 } else { 0 });
            match d.execute_command(&b) {
                Ok(r) if !r.success => Err(EditorError::CommandFailed { message: "reported failure".into() }),
                x => u(x),
            }
        }
        "flaky" => match d.execute_command(&Flaky { a: o.a, b: o.b, c: o.c, s: o.s.clone() }) {
            Ok(r) if !r.success => Err(EditorError::CommandFailed { message: "reported failure".into() }),
            x => u(x),
        },
        "fl_insert" => u(d.command().at(p).insert(&o.s)),
        "fl_delete" => u(d.delete_range(r)),
        "fl_replace" => u(d.command().range(r).replace(&o.s)),
        "split" => u(d.events().split(i, &o.s)),
        "merge" => u(d.events().merge(i, j).with_separator(&o.s2.replace('\n', " ")).apply()),
        "timing" => {
            let x = (o.b % 3000) as i32 - 1500;
            match o.c >> 3 & 3 {
                0 => u(d.events().timing().events(idx()).shift(x)),
                1 => u(d.events().timing().events(idx()).shift_start(x)),
                2 => u(d.events().timing().events(idx()).scale_duration((o.b % 40) as f64 / 10.0)),
                _ => u(d.events().timing().events(idx()).shift_end(x)),
            }
        }
        "toggle" => u(d.events().toggle_type().events(idx()).apply()),
        "effect" => {
            let e = d.events().effects().events(idx());
            let s = o.s.replace(['\n', '\r', ','], " ");
            match o.c >> 3 & 3 {
                0 => u(e.set(&s)),
                1 => u(e.clear()),
                2 => u(e.append(&s)),
                _ => u(e.prepend(&s)),
            }
        }
        "del_event" => u(d.events().delete(i)),
        "del_events" => u(d.events().delete_multiple(idx())),
        "del_query" => {
            let q = d.events().delete_query();
            match o.c & 3 {
                0 => u(q.dialogues()),
                1 => u(q.with_style("Alt")),
                2 => u(q.containing("o")),
                _ => u(q.comments()),
            }
        }
        "style_create" => u(d.styles().create(&o.s, StyleBuilder::new().font("Arial").size(o.b % 90))),
        "style_edit" => u(d.styles().edit(&o.s).size(o.b % 90).bold(o.c & 1 == 1).apply()),
        "style_delete" => u(d.styles().delete(&o.s)),
        "style_clone" => u(d.styles().clone(&o.s, if o.c & 1 == 0 { "Copy" } else { "Alt" })),
        "style_apply" => u(d.styles().apply(&o.s, "Renamed").apply()),
        "tag_insert" => u(if o.c & 1 == 0 { d.tags().at(p).insert(&o.s) } else { d.tags().at(p).insert_raw(&o.s) }),
        "tag_remove" => u(if o.c & 1 == 0 { d.tags().in_range(r).remove_all() } else { d.tags().in_range(r).remove_pattern(&o.s) }),
        "tag_replace" => u(if o.c & 1 == 0 { d.tags().in_range(r).replace(&o.s, "\\i0") } else { d.tags().in_range(r).replace_all(&o.s, "\\i0") }),
        "tag_wrap" => u(if o.c & 1 == 0 { d.tags().in_range(r).wrap(&o.s) } else { d.tags().in_range(r).wrap_with(&o.s, "\\r") }),
        "kar_gen" => u(d.karaoke().in_range(r).generate(o.b % 100).execute()),
        "kar_split" => u(d.karaoke().in_range(r).split(vec![i, i + j]).execute()),
        "kar_adjust" => match o.b & 3 {
            0 => u(d.karaoke().in_range(r).adjust().scale((o.a % 50) as f32 / 10.0)),
            1 => u(d.karaoke().in_range(r).adjust().offset((o.a % 200) as i32 - 100)),
            2 => u(d.karaoke().in_range(r).adjust().set_all(o.a % 100)),
            _ => u(d.karaoke().in_range(r).adjust().custom(vec![1, 2, o.a % 100])),
        },
        "kar_apply" => match o.b % 3 {
            0 => u(d.karaoke().in_range(r).apply().equal(o.a % 100, KaraokeType::Fill)),
            1 => u(d.karaoke().in_range(r).apply().pattern(vec![10, 20], KaraokeType::Standard)),
            _ => u(d.karaoke().in_range(r).apply().import_from(i)),
        },
        "info_set" => u(d.info().set(&o.s, &o.s2.replace(['\n', '\r'], " "))),
        "info_del" => u(d.info().delete(&o.s)),
        "api_info_set" => d.set_script_info_field(&o.s, "v"),
        "api_event_text" => d.edit_event_text(script::WORDS[i], &o.s),
        "by_index" => {
            let s = o.s.replace(['\n', '\r'], " ");
            let bad = o.c & 7 == 0;
            u(d.edit_event_by_index(i, move |_| if bad { vec![("text", s.clone()), ("nope", s)] } else { vec![("text", s)] }))
        }
        "by_builder" => {
            let s = o.s.replace(['\n', '\r'], " ");
            u(d.edit_event_with_builder(i, move |b: EventBuilder| b.text(s)))
        }
        "add_event_line" => d.add_event_line(&o.s),
        "add_style_line" => d.add_style_line(&o.s),
        "edit_style_line" => d.edit_style_line(&o.s, "Style: Edited,Arial,20"),
        "font_add" => u(d.fonts().add(&o.s, vec!["ABCD".into(), "EF".into()])),
        "font_del" => u(d.fonts().remove(&o.s)),
        "font_clear" => u(d.fonts().clear()),
        "gfx_add" => u(d.graphics().add_binary(&o.s, &[1, 2, 3, o.a as u8])),
        "gfx_del" => u(d.graphics().remove(&o.s)),
        "gfx_clear" => u(d.graphics().clear()),
        "at_insert" => u(d.at_pos(p).insert_text(&o.s)),
        "at_delete" => u(d.at_pos(p).delete(j)),
        "at_backspace" => u(d.at_pos(p).backspace(j)),
        "at_line_replace" => match d.at_line(i + 1) {
            Ok(x) => u(x.replace_to_line_end(&o.s)),
            Err(e) => Err(e),
        },
        "sel_wrap" => u(d.select(r).wrap_with_tag("{\\b1}", "{\\b0}")),
        "sel_indent" => {
            multi = true;
            u(d.select(r).indent(j))
        }
        "sel_unindent" => {
            multi = true;
            u(d.select(r).unindent(j))
        }
        "search_replace" => {
            use ass_editor::utils::search::{DocumentSearch, DocumentSearchImpl, SearchOptions};
            multi = true;
            let mut s = DocumentSearchImpl::new();
            match s.build_index(d) {
                Ok(()) => match s.find_replace(d, script::WORDS[i], &o.s, &SearchOptions::default()) {
                    Ok(_) => Ok(()),
                    Err(e) => Err(e),
                },
                Err(e) => Err(e),
            }
        }
        "apply_delta" => d.apply_script_delta(ass_core::parser::ScriptDeltaOwned {
            added: if o.c & 1 == 0 { vec!["[Extra]\nk: v".into()] } else { vec![] },
            modified: if o.c & 2 == 0 { vec![(i % 3, "[Script Info]\nTitle: D".into())] } else { vec![] },
            removed: if o.c & 4 == 0 { vec![j % 3] } else { vec![] },
            new_issues: vec![],
        }),
        "inc_ins_cmd" => u(IncrementalInsertCommand::new(p, o.s.clone()).execute_with_delta(d)),
        "inc_rep_cmd" => u(IncrementalReplaceCommand::new(r, o.s.clone()).execute_with_delta(d)),
        "inc_ev_cmd" => u(IncrementalEventEditCommand::new(script::WORDS[i].into(), o.s.clone()).execute_with_delta(d)),
        "validate" => u(d.validate_comprehensive()),
        "force_validate" => u(d.force_validate()),
        "is_valid" => u(d.is_valid_cached()),
        "set_validator" => {
            d.set_validator_config(vcfg(o));
            Ok(())
        }
        _ => {
            let _ = (d.len(), d.len_lines(), d.events_count(), d.position_to_line_column(p), d.text_range(r));
            Ok(())
        }
    };
    Did { r: res.map_err(|e| e.to_string()), multi }
}
pub fn vcfg(o: &Op) -> ValidatorConfig {
    let mut c = ValidatorConfig::default();
    c.min_validation_interval = Duration::from_millis(if o.a & 1 == 0 { 0 } else { 500 });
    c.max_issues = [0, 1, 3, 100][(o.b & 3) as usize];
    c.severity_threshold = [ValidationSeverity::Info, ValidationSeverity::Warning, ValidationSeverity::Error][(o.c % 3) as usize];
    c.enable_performance_hints = o.c & 8 == 0;
    c.enable_accessibility_checks = o.c & 16 == 0;
    c.enable_spec_compliance = o.c & 32 == 0;
    c.enable_unicode_checks = o.c & 64 == 0;
    c
}
fn is_read(op: &str) -> bool {
    matches!(op, "validate" | "force_validate" | "is_valid" | "set_validator" | "read")
}

/// What is known of the text at each undo depth; `None` for an intermediate state of a
/// multi-step operation that was not observed.
struct UndoModel {
    states: Vec<Option<String>>,
    depth: usize,
}

impl Scenario for History {
    type Plan = Plan;
    fn name(&self) -> &'static str {
        match self.0 {
            Oracle::Undo => "history-undo",
            Oracle::Atomic => "history-atomic",
            Oracle::Events => "history-events",
            Oracle::Validation => "history-validation",
        }
    }
    fn gen(&self, g: &mut Gen) -> Plan {
        let text = script::any_text(g);
        let n = match g.below(4) {
            0 => g.range(2, 8),
            1 => g.range(60, 160),
            _ => g.range(8, 50),
        };
        let limited = g.chance(1, 3);
        let mut ops: Vec<Op> = vec![];
        // bursts of undo/redo reach deep stacks
        while (ops.len() as u64) < n {
            if g.chance(1, 12) {
                let k = g.range(2, 12);
                let name = if g.bool() { "undo" } else { "redo" };
                for _ in 0..k {
                    ops.push(Op { op: name.into(), a: 0, b: 0, c: 0, s: String::new(), s2: String::new() });
                }
            }
            let o = gen_op(g, self.0);
            if !(limited && matches!(o.op.as_str(), "sel_indent" | "sel_unindent" | "search_replace")) {
                ops.push(o);
            }
        }
        Plan {
            text,
            max_entries: if limited { *g.pick(&[1, 2, 3, 7]) } else { 0 },
            max_memory: if limited && g.chance(1, 3) { *g.pick(&[300, 1000, 4000]) } else { 0 },
            interval_ms: *g.pick(&[0, 100, 500]),
            ops,
        }
    }
    fn tune(&self, _p: &Plan, g: &mut Gen, c: &mut Config) {
        c.p_fault[rt::F_CB_ERR] = *g.pick(&[0, 8000, 20000]);
        if self.0 == Oracle::Validation {
            c.p_fault[rt::F_CLOCK_MONO] = *g.pick(&[0, 4000, 30000]);
        }
    }
    fn run(&self, plan: &'static Plan, cx: &'static Cx) {
        let or = self.0;
        let mut d = match EditorDocument::from_content(&plan.text) {
            Ok(d) => d,
            Err(_) => return cx.probe("unparseable_start"),
        };
        let limited = plan.max_entries > 0;
        if limited {
            d.undo_manager_mut().set_config(UndoStackConfig { max_entries: plan.max_entries as usize, max_memory: plan.max_memory as usize, arena_reset_interval: (plan.interval_ms / 100) as usize, ..Default::default() });
        } else {
            d.undo_manager_mut().set_config(UndoStackConfig { max_entries: 100_000, max_memory: 1 << 30, arena_reset_interval: (plan.interval_ms / 100) as usize, ..Default::default() });
        }
        let mut vc = ValidatorConfig::default();
        vc.min_validation_interval = Duration::from_millis(plan.interval_ms as u64);
        d.set_validator_config(vc.clone());
        let mut lv = LazyValidator::with_config(vc.clone());
        let (tx, rx) = mpsc::channel();
        d.set_event_channel(tx);
        let mut mirror = plan.text.clone();
        let mut um = UndoModel { states: vec![Some(plan.text.clone())], depth: 0 };
        for (n, o) in plan.ops.iter().enumerate() {
            let before = d.text();
            let st0 = d.undo_manager().stats();
            let mod0 = d.is_modified();
            cx.doing(format!("{} {}", o.op, n));
            GAVE_UP.store(false, Ordering::Relaxed);
            let got = cx.catch(|| apply(&mut d, o));
            let did = match got {
                Ok(x) => x,
                Err(p) => {
                    if or == Oracle::Atomic {
                        cx.fail(format!("panic:{}", o.op), format!("op {n} {o:?} panicked: {p}\ntext before: {before:?}"))
                    }
                    cx.probe("panicked_run_abandoned");
                    return;
                }
            };
            let after = d.text();
            let st = d.undo_manager().stats();
            cx.log(format!("{n} {} -> {} len {} undo {} redo {}", o.op, if did.r.is_ok() { "ok" } else { "err" }, after.len(), st.undo_count, st.redo_count));
            let ctx = || format!("op {n} {o:?}\nresult {:?}\nbefore: {before:?}\nafter:  {after:?}\nundo/redo entries {}/{} -> {}/{}", did.r, st0.undo_count, st0.redo_count, st.undo_count, st.redo_count);
            if did.r.is_err() {
                cx.probe("failed_op");
            } else {
                cx.probe("ok_op");
                if after != before && !matches!(o.op.as_str(), "undo" | "redo") {
                    cx.probe("edit");
                    cx.nontrivial();
                }
            }
            match or {
                Oracle::Atomic => atomic(cx, o, &did, &before, &after, (st0.undo_count, st0.redo_count), (st.undo_count, st.redo_count), mod0, d.is_modified(), ctx),
                Oracle::Undo => undo(cx, &mut um, o, &did, &before, &after, &d, (st0.undo_count, st0.redo_count), limited, ctx),
                Oracle::Events => {
                    let evs: Vec<DocumentEvent> = rx.try_iter().collect();
                    events(cx, o, &did, &mut mirror, &before, &after, evs, ctx)
                }
                Oracle::Validation => {
                    if o.op == "set_validator" {
                        vc = vcfg(o);
                    }
                    if o.op == "set_validator" {
                        lv.set_config(vc.clone());
                    }
                    validation(cx, &mut d, &mut lv, o, &vc, &after, ctx)
                }
            }
            if or != Oracle::Events {
                while rx.try_recv().is_ok() {}
            }
            if or == Oracle::Undo && n + 1 == plan.ops.len() {
                drain(cx, &mut d, &mut um);
            }
            if after.len() > 60_000 {
                return;
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn atomic(cx: &'static Cx, o: &Op, did: &Did, before: &str, after: &str, st0: (usize, usize), st: (usize, usize), m0: bool, m: bool, ctx: impl Fn() -> String) {
    if GAVE_UP.load(Ordering::Relaxed) {
        cx.probe("step_of_command_failed");
        cx.check(did.r.is_err(), &format!("failed-step-reported-success:{}", o.op), || format!("a step failed but the whole succeeded\n{}", ctx()));
    }
    if did.r.is_err() {
        cx.check(after == before, &format!("failed-op-changed-text:{}", o.op), || format!("a failed operation changed the text\n{}", ctx()));
        cx.check(st == st0, &format!("failed-op-changed-history:{}", o.op), || format!("a failed operation changed the undo history\n{}", ctx()));
        cx.check(m == m0, &format!("failed-op-modified-flag:{}", o.op), || format!("a failed operation changed the modified flag\n{}", ctx()));
    } else if is_read(&o.op) {
        cx.check(after == before && st == st0 && m == m0, &format!("read-changed-state:{}", o.op), || format!("a read-only operation changed the document\n{}", ctx()));
    } else if after != before {
        cx.check(m, &format!("edit-not-modified:{}", o.op), || format!("the text changed but the document does not report unsaved changes\n{}", ctx()));
    }
}

#[allow(clippy::too_many_arguments)]
fn undo(cx: &'static Cx, um: &mut UndoModel, o: &Op, did: &Did, before: &str, after: &str, d: &EditorDocument, st0: (usize, usize), limited: bool, ctx: impl Fn() -> String) {
    let s = d.undo_manager().stats();
    let st = (s.undo_count, s.redo_count);
    cx.check(d.can_undo() == (st.0 > 0) && d.can_redo() == (st.1 > 0), "can-undo-wrong", || ctx());
    match o.op.as_str() {
        "undo" | "redo" => {
            let is_undo = o.op == "undo";
            let avail = if is_undo { st0.0 } else { st0.1 };
            if avail == 0 {
                cx.check(did.r.is_err() && after == before, &format!("{}-of-nothing", o.op), || ctx());
                return;
            }
            cx.check(did.r.is_ok(), &format!("{}-failed", o.op), || format!("an available {} failed\n{}", o.op, ctx()));
            let nd = if is_undo { um.depth - 1 } else { um.depth + 1 };
            let want = if is_undo { (st0.0 - 1, st0.1 + 1) } else { (st0.0 + 1, st0.1 - 1) };
            if limited && st != want {
                // a redo may evict old entries under a memory limit
                cx.check(!is_undo && st.1 == want.1 && st.0 <= want.0, "undo-counts", || ctx());
                let drop = want.0 - st.0;
                let drop = drop.min(nd);
                um.states.drain(..drop);
                um.depth = nd - drop;
            } else {
                cx.check(st == want, "undo-counts", || format!("undo/redo entry counts are wrong\n{}", ctx()));
                um.depth = nd;
            }
            match &um.states[um.depth] {
                Some(t) => {
                    cx.probe(if is_undo { "undo_checked" } else { "redo_checked" });
                    cx.check(t == after, &format!("{}-wrong-text", o.op), || format!("{} did not restore the text\nexpected: {t:?}\n{}", o.op, ctx()))
                }
                None => um.states[um.depth] = Some(after.to_string()),
            }
        }
        _ if did.r.is_err() => cx.check(after == before && st == st0, &format!("failed-op-changed:{}", o.op), || ctx()),
        _ => {
            if is_read(&o.op) || !limited && after == before && st == st0 {
                return;
            }
            if limited && after == before {
                // whether a step was recorded is invisible once entries are evicted
                um.states = vec![None; st.0 + st.1 + 1];
                um.depth = st.0;
                um.states[st.0] = Some(after.to_string());
                return;
            }
            if limited {
                cx.check(st.1 == 0, &format!("redo-kept-after-edit:{}", o.op), || ctx());
                um.states.truncate(um.depth + 1);
                um.states.push(Some(after.to_string()));
                cx.check(st.0 < um.states.len(), &format!("undo-entries:{}", o.op), || format!("one edit recorded several undo steps\n{}", ctx()));
                cx.check(st.0 > 0 || (s.memory_usage == 0), &format!("edit-not-recorded:{}", o.op), || ctx());
                let extra = um.states.len() - (st.0 + 1);
                um.states.drain(..extra);
                um.depth = st.0;
                return;
            }
            let changed = after != before;
            cx.check(!changed || st.0 > st0.0, &format!("edit-not-recorded:{}", o.op), || format!("the text changed but no undo step was recorded\n{}", ctx()));
            cx.check(st.0 >= st0.0, &format!("undo-steps-lost:{}", o.op), || format!("an edit removed undo steps\n{}", ctx()));
            cx.check(did.multi || st.0 <= st0.0 + 1, &format!("undo-entries:{}", o.op), || format!("one operation recorded several undo steps\n{}", ctx()));
            if st.0 > st0.0 {
                cx.check(st.1 == 0, &format!("redo-kept-after-edit:{}", o.op), || ctx());
                um.states.truncate(um.depth + 1);
                for _ in 0..st.0 - st0.0 {
                    um.states.push(None);
                }
                um.depth = st.0;
                um.states[st.0] = Some(after.to_string());
            } else {
                cx.check(st.1 == st0.1, &format!("redo-lost:{}", o.op), || ctx());
            }
        }
    }
}
/// Undo everything, redo everything, undo everything: all known texts must come back.
fn drain(cx: &'static Cx, d: &mut EditorDocument, um: &mut UndoModel) {
    for pass in ["undo", "redo", "undo"] {
        loop {
            let ok = if pass == "undo" { d.can_undo() } else { d.can_redo() };
            if !ok {
                break;
            }
            cx.doing(format!("{pass} drain"));
            let r = if pass == "undo" { d.undo() } else { d.redo() };
            cx.check(r.is_ok(), &format!("{pass}-failed"), || format!("{pass} failed while draining: {:?}", r.err()));
            let n = d.undo_manager().stats().undo_count;
            if n >= um.states.len() {
                cx.fail("undo-counts", "more undo steps than were recorded");
            }
            let t = d.text();
            match &um.states[n] {
                Some(x) => cx.check(*x == t, &format!("{pass}-wrong-text"), || format!("draining with {pass} to depth {n}: expected {x:?}\ngot {t:?}")),
                None => um.states[n] = Some(t),
            }
        }
    }
    cx.probe("drained");
}

#[allow(clippy::too_many_arguments)]
fn events(cx: &'static Cx, o: &Op, did: &Did, mirror: &mut String, before: &str, after: &str, evs: Vec<DocumentEvent>, ctx: impl Fn() -> String) {
    let full = |e: &[DocumentEvent]| format!("events: {e:?}\n{}", ctx());
    if did.r.is_err() {
        cx.check(evs.is_empty() || o.op == "sel_indent", &format!("event-for-failed-op:{}", o.op), || full(&evs));
    }
    let mut n_undo = 0;
    for e in &evs {
        cx.probe("event");
        let ok = match e {
            DocumentEvent::TextInserted { position, text, length } => {
                *length == text.len() && mirror.is_char_boundary(position.offset.min(mirror.len())) && position.offset <= mirror.len() && {
                    mirror.insert_str(position.offset, text);
                    true
                }
            }
            DocumentEvent::TextDeleted { range, deleted_text } => splice(mirror, range, deleted_text, ""),
            DocumentEvent::TextReplaced { range, old_text, new_text } => splice(mirror, range, old_text, new_text),
            DocumentEvent::UndoPerformed { .. } => {
                n_undo += 1;
                *mirror = after.to_string();
                o.op == "undo"
            }
            DocumentEvent::RedoPerformed { .. } => {
                n_undo += 1;
                *mirror = after.to_string();
                o.op == "redo"
            }
            _ => true,
        };
        cx.check(ok, &format!("event-wrong:{}", o.op), || format!("an event does not describe an edit of the current text\n{}", full(&evs)));
    }
    if matches!(o.op.as_str(), "undo" | "redo") && did.r.is_ok() {
        cx.check(n_undo == 1 && evs.len() == 1, &format!("event-missing:{}", o.op), || full(&evs));
    }
    cx.check(after == before || !evs.is_empty(), &format!("event-missing:{}", o.op), || format!("the text changed without an event\n{}", full(&evs)));
    cx.check(mirror == after, &format!("mirror-diverged:{}", o.op), || format!("replaying the events gives {mirror:?}\n{}", full(&evs)));
}
fn splice(m: &mut String, r: &Range, old: &str, new: &str) -> bool {
    if m.get(r.start.offset..r.end.offset) != Some(old) {
        return false;
    }
    m.replace_range(r.start.offset..r.end.offset, new);
    true
}

fn validation(cx: &'static Cx, d: &mut EditorDocument, lv: &mut LazyValidator, o: &Op, vc: &ValidatorConfig, text: &str, ctx: impl Fn() -> String) {
    let fresh = || {
        let mut f = EditorDocument::from_content(text).ok()?;
        f.set_validator_config(vc.clone());
        f.force_validate().ok()
    };
    let key = |r: &ass_editor::ValidationResult| format!("{:?} valid {} w {} e {}", r.issues, r.is_valid, r.warning_count, r.error_count);
    // the cached result, if any, describes the current text
    if let Some(r) = d.validation_result() {
        cx.probe("cached_result_checked");
        let k = key(r);
        let f = fresh().map(|f| key(&f));
        cx.check(f.as_deref() == Some(k.as_str()), &format!("stale-cached-result:{}", o.op), || format!("the cached result {k}\nis not the result for the current text {f:?}\n{}", ctx()));
    }
    if matches!(o.op.as_str(), "validate" | "force_validate" | "is_valid") {
        let f = fresh();
        let r = d.validate_comprehensive().ok();
        cx.check(r.as_ref().map(key) == f.as_ref().map(key), &format!("validation-wrong:{}", o.op), || format!("validation gave {:?}\nfresh validation gives {:?}\n{}", r.as_ref().map(key), f.as_ref().map(key), ctx()));
        let v = d.is_valid_cached().ok();
        cx.check(v == f.as_ref().map(|x| x.is_valid), "is-valid-wrong", || ctx());
        if let Ok(x) = EditorDocument::from_content(text) {
            let a = lv.validate(&x).ok().map(key);
            cx.check(a == f.as_ref().map(key), "standalone-validation-wrong", || format!("a validator used on successive texts gave {a:?}\nfresh validation gives {:?}\n{}", f.as_ref().map(key), ctx()));
        }
        cx.probe("validation_checked");
    }
}
