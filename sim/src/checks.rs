//! One module per property; `all` lists them.
use crate::engine::{part, Check};
pub mod history;
pub mod script;
pub mod sessions;
pub mod extensions;
pub mod shared;
pub mod storage;
pub mod structured;
pub mod render;
pub mod player;
pub mod damage;
pub mod lookup;
pub mod inplace;
pub mod inline;
pub mod channel;
pub mod reparse;
use history::{History, Oracle};
pub fn all() -> Vec<Check> {
    let ed = "EditorDocument, all commands, fluent API, undo stack, incremental parser, validator, ass-core parser/analysis (compiled from the tree)";
    let mut v = vec![
        sessions::check(),
        Check { id: "C05", real: ed, stub: "callers (generated), clocks", rule: "at least one operation changed the text", parts: vec![part(History(Oracle::Events), 80_000, 4_000_000)] },
        Check { id: "C07", real: ed, stub: "callers (generated), clocks", rule: "at least one operation changed the text", parts: vec![part(History(Oracle::Undo), 80_000, 4_000_000)] },
        Check { id: "C08", real: ed, stub: "callers (generated), clocks", rule: "at least one operation changed the text", parts: vec![part(History(Oracle::Atomic), 80_000, 4_000_000)] },
        Check { id: "C13", real: ed, stub: "callers (generated), clocks", rule: "at least one operation changed the text", parts: vec![part(History(Oracle::Validation), 80_000, 4_000_000)] },
    ];
    v.extend(shared::checks());
    v.push(extensions::check());
    v.push(structured::check());
    v.push(storage::documents());
    v.push(storage::formats());
    v.push(render::check());
    v.push(player::check());
    v.extend(damage::checks());
    v.push(lookup::check());
    v.push(reparse::check());
    v.push(inplace::check());
    v.push(inline::check());
    v.push(channel::check());
    v
}
