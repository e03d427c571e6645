prop("C01", "A document shared between threads behaves as if calls ran one at a time",
 "When several threads use one shared document handle (blocking, try-, scoped and asynchronous variants), the results and texts they observe are those of some sequential order of their calls that respects real time. A read sees the effect of whole calls only; a command that fails, reports failure or panics part-way leaves no partial edit. Every call returns once the calls it waits for have returned; after a panic inside a write, later calls report the broken lock instead of exposing a half-made edit.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of 2 to 4 client threads at every atomic operation, lock, allocation and callback; every sequence of reads, edits, commands, undo and redo; failures and panics at any command step",
 "Existing tests call the wrappers from one thread, or spawn a few threads whose order the OS picks; they cannot cover interleavings of failing commands with readers.",
 [ED+"core/thread_safety/sync_document.rs", ED+"core/thread_safety/async_document.rs", ED+"core/thread_safety/scoped_lock.rs"],
 ["RwLock around the document", "poisoning turned into ThreadSafetyError", "execute_command through the document's undo-recording path"],
 "deterministic simulation: seeded thread schedules with failing and panicking commands; linearizability against a sequential model",
 "2 to 4 clients, up to about 18 calls per run; PCT and random scheduling; SyncDocument, ScopedDocumentLock and AsyncDocument real, executor and OS stubbed")
prop("C03", "Documents in a pool never collide, get lost or answer for each other",
 "Every document added to a pool gets an id no other document has, whatever the clock does: repeats, is coarse, or steps back. Until it is removed, that id leads every thread to that document and to no other; after it is removed the id is unknown. Listing and counting agree with some moment during the call.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of 2 to 4 threads adding, finding, editing, listing and removing; every realtime clock behaviour (coarse, frozen, stepping back)",
 "Ids come from the clock; tests run on one machine with a fine clock and one thread, so no two ids can meet.",
 [ED+"core/thread_safety/document_pool.rs", ED+"core/document/constructors.rs"],
 ["id from realtime clock and counter", "pool map behind RwLock"],
 "deterministic simulation: seeded schedules and realtime clock faults; linearizability against a map model",
 "2 to 4 clients, up to 18 calls; clock granularities 1 ns to 100 ms, backward steps")
prop("C04", "Sessions are isolated, counted, expire only when idle, and switch consistently",
 "Calls on one session manager from several threads give results explained by some sequential order of: create, get, activate, edit, remove, list, clean up and read statistics. A session disappears only by being removed or by a clean-up that finds it idle for longer than the timeout; one that was just used is never removed as stale, whatever the clock does. A failed call (limit reached, unknown or duplicate id, failing or panicking edit) leaves every session and the active session as they were.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of 2 to 4 threads; clock leaps around the idle timeout at every call; failing and panicking edit callbacks; session limits",
 "Tests are single-threaded and never move the clock, so races between use and clean-up and expiry itself are never run.",
 [ED+"sessions/manager.rs", ED+"sessions/access.rs", ED+"sessions/lifecycle.rs", ED+"sessions/session.rs"],
 ["RwLock map of sessions", "last access time against monotonic clock", "active session id", "statistics counters"],
 "deterministic simulation: seeded schedules, clock leaps and failing callbacks; linearizability against a session model",
 "2 to 4 clients, up to about 20 calls; monotonic clock leaps up to hours")
prop("C05", "Replaying a document's change events reproduces its text",
 "A listener that starts with the document's text and applies each change event it receives has exactly the document's text after every operation, whichever of the editing interfaces made the change. Events carry the removed and the inserted text and the position at which it happened; undo and redo are announced once each. A failed operation announces nothing.",
 ["histories", "inputs", "fault_sequences"], "every sequence of edits, commands, batches, fluent operations, incremental edits, deltas, undo and redo with any position, range and text, failing at any step",
 "Tests check single events of single edits; the guarantee is about arbitrary sequences mixing all editing interfaces.",
 [ED+"core/document/editing.rs", ED+"core/document/editing_raw.rs", ED+"core/document/undo_redo.rs", ED+"core/document/incremental_edit.rs", ED+"core/document/delta_apply.rs"],
 ["event sender set on the document", "emission after each text change"],
 "deterministic simulation: random operation histories with injected command failures; replayed-mirror refinement check after every step",
 "one document, histories of 2 to 160 operations over about 75 operation kinds")
prop("C06", "Extensions run one callback at a time, can use the editor, and leave no residue",
 "Loading, initialising, running commands of and unloading extensions from several threads gives results explained by some sequential order; an extension is listed exactly while loaded, its commands exist exactly from a successful initialisation until it is unloaded, and a dependency must be loaded first. While its code runs it may read and write configuration, shared data and the document it was given, and it is never entered twice at once nor after a successful unload. A callback that fails or panics leaves the manager usable and the extension in the state its lifecycle prescribes.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of 2 or 3 threads over 1 to 3 extensions with dependencies; callbacks that call back into the manager, fail or panic at any point",
 "Tests never let the manager run an extension that uses its context (this deadlocked), and are single-threaded.",
 [ED+"extensions/manager.rs", ED+"extensions/manager_access.rs", ED+"extensions/manager_lifecycle.rs", ED+"extensions/manager_loading.rs", ED+"extensions/context.rs"],
 ["manager mutex", "per-extension lock", "state, command, configuration and data maps"],
 "deterministic simulation: seeded schedules with re-entrant, failing and panicking extension callbacks; linearizability against a lifecycle model; deadlock detection",
 "2 or 3 clients, up to about 20 steps; both built-in extensions and generated ones")
prop("C07", "Undo and redo are exact inverses over any history of edits",
 "Each successful operation that changes the text adds exactly one undo step; undoing it restores the previous text byte for byte and redoing it restores the later text, at any depth and in any mixture of undo and redo. A new edit discards what could be redone and nothing else. When history limits apply, only the oldest steps are forgotten and the remaining ones stay exact.",
 ["histories", "inputs", "configurations"], "every sequence of editing operations through every editing interface, undo and redo, with any text including multi-byte characters, and any history limits",
 "Tests undo one or two edits of one kind; wrong inverses only show in mixtures, for replacements of different length, or when limits evict entries.",
 [ED+"core/document/undo_redo.rs", ED+"core/history/stack_impl.rs", ED+"core/history/operation.rs", ED+"core/history/manager.rs", ED+"core/document/editing.rs"],
 ["operation records with old and new text", "undo and redo stacks with entry and memory limits"],
 "deterministic simulation: random operation histories with injected command failures; refinement against a stack of texts",
 "one document, histories of 2 to 160 operations, limits of 1 to 100000 entries; full drain in both directions at the end of each run")
prop("C08", "Editing never panics and a failed operation changes nothing",
 "Whatever the document text and the arguments (out-of-range positions, positions inside characters, missing sections, empty or foreign text), every editing operation either succeeds or returns an error. When it returns an error, or a command reports failure at any step of a batch, the text, the undo history and the unsaved-changes flag are what they were before. Read-only operations change nothing, and every successful text change marks the document as having unsaved changes.",
 ["histories", "inputs", "fault_sequences"], "every sequence of about 75 editing operations with arbitrary arguments on well-formed, damaged and random documents; a failure injected at every step of compound commands",
 "Tests use well-formed documents and valid arguments, and no test makes the middle of a batch fail after visible edits.",
 [ED+"core/document/editing.rs", ED+"core/document/editing_raw.rs", ED+"core/document/undo_redo.rs", ED+"commands", ED+"core/fluent"],
 ["range validation before editing", "command rollback", "modified flag"],
 "deterministic simulation: random operation histories with injected failures at every command step; state comparison after each operation",
 "one document, histories of 2 to 160 operations; documents include damaged and random text")
prop("C12", "Reparsing after an edit equals parsing the whole text",
 "After any history of edits, the script, issues, version and formats given by incremental reparsing equal those of parsing the new text from scratch, with every section's spans and line numbers. The deltas of calculate_delta, parse_partial and the editor's incremental parser say exactly which sections were added, changed and removed, whether the parser's cache is fresh, primed, dropped or stale because an edit went by unseen, and whatever its reparse threshold. A range that does not lie in the text is refused.",
 ["inputs", "histories", "fault_sequences"], "random histories of edits inside a line, across lines, headers, formats and section borders; edits the parser is not told of, is told wrongly, or is told after its cache was dropped or primed",
 "Tests edit one word in a tidy script and compare counts; the shortcut of reparsing one section goes wrong only for edits that create, remove or merge headers, change formats or versions, or move line numbers of later sections.",
 [CO+"parser/script", CO+"parser/incremental", CO+"parser/main", ED+"core/incremental"],
 ["which section an edit touches", "shifting of spans and lines", "cached text and script of the editor's parser", "delta between two section lists"],
 "deterministic simulation: random edit histories with lost and wrong notifications to the caching parser; differential check against parsing the whole text after every step",
 "texts up to some 4 kB; the empty delta that a document's fast path returns by design is not claimed")
prop("C13", "Validation results always describe the current text",
 "After any operation, a cached validation result, if the document offers one, is the result a fresh document with the same text and validator settings would give. Asking for validation gives that fresh result even when edits, undo, configuration changes and validations follow each other faster than the throttling interval or the clock leaps. The validity flag agrees with it.",
 ["histories", "fault_sequences", "configurations"], "every sequence of edits through every interface, validations and configuration changes; any clock behaviour around the throttling interval",
 "Tests validate once after one edit; staleness needs an edit path that forgets to drop the cache, or a particular time between calls.",
 [ED+"core/document/validation.rs", ED+"utils/validator/lazy_validator.rs", ED+"utils/validator/core_validation.rs"],
 ["cached result keyed by content hash", "minimum interval between validations"],
 "deterministic simulation: random operation histories with monotonic clock leaps; differential check against a freshly built validator",
 "one document, histories of 2 to 160 operations, throttling interval 0 to 500 ms")
prop("C14", "Structured operations change exactly the lines they name",
 "Viewed as a script (properties, styles, events, embedded fonts and graphics, comments, headers, in order), each command and fluent operation changes exactly the items it addresses, by index or exact name, in the documented way, and leaves every other item, comment and header as it was, whatever they are called and whatever text the events contain. Addressing something that does not exist fails and changes nothing; queries report what is in the script and change nothing. Queries and edits count the same events, of every kind; a file embedded from bytes reads back as those bytes; the range a command reports covers what it changed. After any sequence of them the parser and the editor agree on the script's contents.",
 ["histories", "inputs", "fault_sequences"], "every sequence of 1 to 24 structured operations (event delete, toggle, timing, effect, split, merge, edit; style create, edit, delete, clone, apply; script info; fonts and graphics; batches; undo and redo; queries) on generated scripts with look-alike names, comments, blank lines, reordered sections and no final newline",
 "Tests run one command on a tidy script where a textual search happens to find the right line.",
 [ED+"commands/event_commands", ED+"commands/style_commands", ED+"commands/script_info_commands", ED+"commands/fonts_graphics_commands", ED+"core/fluent", ED+"core/document/ass_api.rs", ED+"core/document/section_lines.rs"],
 ["commands locating lines in the text", "event and style line rewriting", "fluent queries over the parsed script"],
 "deterministic simulation: random histories of structured operations with injected failures; refinement against an executable script model after every step",
 "one document, scripts of up to about 8 events, 6 styles, 5 properties, 4 embedded files; failing batch members injected")
prop("C09", "Saving and loading store exactly the document, or fail and lose nothing",
 "A save that reports success has stored exactly the document's text at that path, clears the unsaved-changes flag and remembers the path; a load that reports success has the stored bytes as its text, never a part of them, and is unmodified. A save or load that fails (open, read or write errors, full disk, text that is not UTF-8, missing directory) says so and leaves the document's text, undo history, path and unsaved-changes flag as they were; short or interrupted transfers are not failures. No other file is touched and no descriptor stays open. After a crash at any point during a save, the target holds its old content or a beginning of the new one, every other file is intact, and whatever is there loads exactly or is refused. Once faults stop, saving and loading work again.",
 ["fault_sequences", "crash_points", "histories", "inputs"], "every sequence of edits, undo, saves, loads, exports to files; disk errors, short and interrupted transfers, full disk, damaged stored bytes; process death at any system call, then restart",
 "Tests save once to a healthy disk; no test makes a system call fail, interrupt or stop part-way.",
 [ED+"core/document/constructors.rs", ED+"core/document/metadata.rs", ED+"utils/formats/file_io.rs"],
 ["file helpers of EditorDocument", "modified flag and file path", "std::fs"],
 "deterministic simulation: in-memory disk with injected faults and crash and restart; comparison of every stored byte with the document",
 "1 or 2 processes' worth of clients, 11 files each, up to 24 operations; no power loss (bytes written survive), saving is not claimed to be atomic")
prop("C10", "Import and export keep every cue, over any transport and any damage",
 "Importing or exporting a subtitle file (ASS, SRT, WebVTT, plain text) gives the same document, bytes and report from memory, from a file and through any reader or writer, however it chops and interrupts the transfer; when the transport fails the operation fails and never yields a part as if it were the whole; exporting never changes the document. Well-formed SRT and WebVTT files (byte order mark, CRLF, cue settings, notes, identifiers, short times) keep every cue, its times to 10 ms, its lines and basic styling, in order, through import and through export in either format. Damaged or arbitrary bytes are imported or refused, never a panic.",
 ["inputs", "fault_sequences", "crash_points"], "every chopping, interruption and failure of readers, writers and files; every generated cue list written in every supported way; arbitrarily damaged files",
 "Tests import short literal strings from memory; none uses a reader that returns less than asked, or a damaged file.",
 [ED+"formats", ED+"utils/formats"],
 ["FormatImporter and FormatExporter over Read and Write", "FormatRegistry", "FormatConverter", "import_from_file and export_to_file"],
 "deterministic simulation: faulty readers, writers and disk; differential check against the in-memory result; cue conservation against an independent reader",
 "up to 24 operations per client; cues of plain text with b, i and u; times to 30 hours")
RD="crates/ass-renderer/src/"
prop("C15", "What is drawn depends on the script, the time and the frame size alone",
 "A frame, a bitmap list or an incremental frame drawn for a script at a time is, pixel for pixel, what a new renderer in a fresh thread draws, whatever the same or other renderers drew before: other scripts (also ones replaced in memory, or differing in one letter, time, style or header), other times in any order, other sizes, other output kinds, frames that failed because a font could not be read. Lines not shown at that time, and moving the script in time, make no difference. Frames carry the requested time and size and do not change once returned; the bitmap list composites to the frame. When fonts fail to be read the call fails or the picture is right, and later pictures are right.",
 ["histories", "inputs", "schedules", "fault_sequences"], "every sequence of render calls, script replacements and size changes on several renderers and threads; generated scripts with about 40 override tags, drawings, karaoke, animations, overlapping layers, missing styles and fonts; font reads that fail",
 "Tests render one script with a new renderer; wrong cache keys, leftovers of earlier frames and stale scratch buffers need two particular pictures in one order.",
 [RD+"renderer", RD+"pipeline", RD+"backends/software", RD+"backends/coverage", RD+"backends/blur.rs"],
 ["static frame cache, time index, shape, coverage, blur tile and glyph caches", "reused pixmap and scratch pixmap", "thread-local emit sink and dirty box", "incremental rendering from the previous frame"],
 "deterministic simulation: random histories of render calls on several threads with failing font files; differential check of every picture against a from-scratch rendering of the reduced, time-shifted script",
 "frames of up to 128x72 pixels, up to 4 scripts of up to 6 lines; embedded fonts excluded; visual agreement with libass is not claimed; CPU backend only")
prop("C16", "Playback shows the loaded script at the time that has been played",
 "While playing, the position is where playback began plus the time that passed multiplied by the speed in force at each moment, through any mixture of pausing, resuming, seeking, stepping, changing the speed and updating at any intervals; it does not move otherwise. At the end playback stops there, or starts again when looping; seeking, stepping and stopping go exactly where they say, within the script's length, which is when its last line ends. Every frame handed out carries the position and is the picture of the script loaded now at that position, to the 40 ms of the frame cache, and exactly when the cache is off.",
 ["histories", "fault_sequences", "inputs"], "every sequence of player calls with any time between them, from none to days, at any speed; script replacement while playing; cache settings; clock leaps; unreadable fonts",
 "Tests cannot control the clock; they call play and update at once, so the position never has to be right.",
 [RD+"debug/player", RD+"renderer"],
 ["playback_start_instant, playback_start_time_ms and accumulated_time_ms", "frame cache by 40 ms steps"],
 "deterministic simulation: random histories of player calls under a simulated clock; refinement against an integral of speed over playing time, differential check of each frame",
 "one player, up to about 80 calls, frames of 96x54; position compared to 1.5 ms plus 4 parts per million")
CO="crates/ass-core/"
prop("C17", "Any file is read or refused, and damage stays where it is",
 "Whatever bytes a subtitle file holds after flipped bits, lost, repeated or mixed-up blocks, torn writes, wrong encodings or absurd numbers and tags, loading, parsing, tokenising, analysing, linting, serialising, streaming, reparsing, decoding embedded files and converting it each give an answer or an error, without panicking, hanging or taking unbounded memory. Every span, line number and field reported lies in the text and holds what it is said to hold, and issues name the line they are about; a stream is read the same whatever pieces it arrives in. Garbling one event or style line leaves what every other line, property and embedded file is read as unchanged.",
 ["inputs", "fault_sequences"], "every combination of up to about 8 kinds of damage to generated ASS, SSA, SRT and WebVTT files, followed by up to 5 reading operations with arbitrary arguments; short, interrupted and failing reads",
 "Tests parse tidy or slightly broken literals; offsets inside characters, overflowing times, torn lines and quadratic blow-ups need damage nobody wrote down.",
 [CO+"parser", CO+"tokenizer", CO+"analysis", CO+"utils", CO+"plugin", ED+"formats", ED+"utils/formats"],
 ["hand-written scanners over byte offsets", "error recovery in the parser", "fixed-width time arithmetic"],
 "deterministic simulation: generated files on a disk that damages them, then read by every reader under memory, step and CPU limits; metamorphic check that a garbled line changes nothing else",
 "files up to 400 kB, 1 GiB of memory, 20 s of CPU per run; that a damaged line itself is read sensibly is not claimed")
prop("C18", "Any text can be edited, searched, completed and highlighted",
 "A document holding any text, however damaged, answers every editing command, query, search, completion, highlighting, validation and event-filter request with a result or an error, without panicking, hanging or taking unbounded memory, at any position, also one inside a character or past the end. A refused edit leaves the text as it was. Every match, token and issue reported lies in the text, on character boundaries.",
 ["inputs", "histories", "fault_sequences"], "every damaged file as in C17 followed by histories of editing commands, fluent operations, undo, redo, searches, completion and highlighting with arbitrary arguments",
 "Tests use tidy documents and positions at the start of a word.",
 [ED+"core", ED+"commands", ED+"extensions/builtin", ED+"utils/search", ED+"utils/indexing", ED+"utils/validator"],
 ["byte positions into UTF-8 text", "textual search for lines", "word index"],
 "deterministic simulation: damaged documents under random histories of commands and queries, under memory, step and CPU limits; bounds of every reported place checked",
 "documents up to 400 kB; what commands do on readable scripts is C14, that results are right is not claimed here")
prop("C19", "Any script draws in bounded time and memory, and leaves no trace",
 "Whatever a script contains (damaged lines, headers and styles, absurd sizes, scales, borders, blurs, positions, times, tags cut short, drawings without end), drawing it at any time and frame size, as a frame, a bitmap list, an incremental frame or in the player, gives a picture of the requested size and time or an error, without panicking, hanging or taking unbounded memory. Afterwards the renderer draws a sound script exactly as a new one would, and garbling a line that is not shown changes no pixel.",
 ["inputs", "fault_sequences", "histories"], "every combination of kinds of damage to generated scripts with about 40 override tags; times up to the end of the clock; frames from 1x1 to 320x180",
 "Tests render sensible tags at sensible sizes; overflows in tile sizes, positions and times, and caches poisoned by a failed picture, need absurd values and a second picture.",
 [RD+"pipeline", RD+"backends", RD+"renderer", RD+"debug/player"],
 ["tile and blur buffer sizing", "glyph, coverage and blur tile caches", "override tag parsing", "fixed-width time arithmetic"],
 "deterministic simulation: generated scripts on a disk that damages them, drawn under memory, step and CPU limits; differential check of a sound script afterwards",
 "1 GiB of memory and 20 s of CPU per run of up to 6 times; what a damaged line looks like is not claimed; arithmetic inside tiny-skia is not checked for overflow; GPU backend not run")
prop("C20", "Search, highlighting and completion describe the text as it is",
 "Search finds exactly the places where the pattern stands in the text, under every combination of case, whole-word, regular-expression, scope and result-limit options, with their line, column and text, and replacing changes those places alone. The indexes answer for the text they were last told of. Highlighting and completion after any history of edits, and from several threads, are those of a new session on the same text: tokens are in order, hold the words they name, and completions fit what stands before the cursor.",
 ["inputs", "histories", "schedules"], "random scripts with CRLF, non-ASCII and repeated words; random edits between queries, index updates and several threads using one searcher, highlighter and completer",
 "Tests search one ASCII word in one fixed text; scopes, limits, stale caches, CRLF and multi-byte offsets need combinations and histories.",
 [ED+"utils/search", ED+"utils/indexing", ED+"extensions/builtin/syntax_highlight", ED+"extensions/builtin/auto_complete"],
 ["word index over byte positions", "token and completion caches", "scope filtering", "replacement from the end"],
 "deterministic simulation: seeded schedules of threads that edit, search, highlight and complete; reference search over the text and comparison with a fresh instance",
 "fuzzy index search is taken to mean: words that hold the pattern's letters in order; regular expressions are compared with the regex crate; letters whose case depends on context are left out")
prop("C21", "A script edited in place says exactly what was asked",
 "Updating lines by their place, adding and removing sections, styles and events, and applying batches to a parsed script change what was asked and nothing else; a refused call and an atomic batch that fails change nothing. The change tracker holds exactly the updates and section changes made while it was on, the diff between two scripts exactly what differs, and the script written out reads back as it was.",
 ["inputs", "histories", "fault_sequences"], "random histories of in-place updates, batches with bad members, and tracker switches over random scripts with any field order, header case and line ends",
 "Tests update one line and look at one field; wrong places, lost fields and half-applied batches need histories and unusual formats.",
 [CO+"parser/script", CO+"parser/ast"],
 ["line lookup by byte offset", "spans after a replacement", "batch rollback", "field order when writing"],
 "deterministic simulation: random histories of operations with injected bad members against a model of the sections",
 "add_style and add_event are not recorded by the tracker by design; spans of added lines are not claimed")
prop("C22", "Edits inside the text rewrite exactly the text they address",
 "Inserting, deleting, replacing, indenting and selecting text, adding, removing, replacing and wrapping with override tags, and generating, splitting, retiming and applying karaoke change the addressed range in the way that was asked and nothing else. What a viewer reads is never lost or repeated by a tag or karaoke edit; tags and notes that were not named, and blocks that were never closed, stay as they are; karaoke durations change by what was asked, each once and in order. The range and cursor a command reports lie in the new text and cover what changed; places given by line, column or byte name the same spot and convert back. An edit that fails, or a batch in which one fails, leaves the text as it was.",
 ["inputs", "histories", "fault_sequences"], "random event texts with about 50 override tags, notes and unfinished blocks, CRLF, non-ASCII and repeated words; histories of up to about 12 edits with arbitrary ranges and arguments, batches with failing members",
 "Tests edit `{\\\\b1}Hello`; tags that share a prefix, text before an unfinished block, notes between tags and characters of several bytes need combinations nobody wrote down.",
 [ED+"commands/tag_commands", ED+"commands/karaoke_commands", ED+"commands", ED+"core/fluent", ED+"core/position"],
 ["hand-written brace scanning", "prefix matching of tag names", "byte, character and line arithmetic", "reported ranges"],
 "deterministic simulation: random histories of edits with injected failures against a small reference reading of override blocks",
 "nested braces are not judged, nor is removing or replacing by a pattern that is the beginning of another tag's name; structured edits are C14")
prop("C11", "Every event reaches each handler registered for it, once",
 "An event channel holds at most the configured number of handlers, each under an id of its own, from its registration until it is unregistered, cleared or the channel ends, and releases it then. Dispatching an event calls each registered handler whose filter takes it exactly once, in order of priority and then of registration, also when an earlier one fails; the caller gets the first failure. A batch delivers its events in order. What is queued asynchronously reaches the receiver once and in order, never more than the configured number waiting; what cannot be queued is refused. The counts the channel reports agree with what happened.",
 ["histories", "schedules", "fault_sequences"], "every history of registrations with arbitrary filters and priorities, removals, dispatches, batches and queued events by up to 3 threads, with handlers that fail or panic and a receiver that polls, lags, leaves or is replaced at any point",
 "Tests dispatch one event to one or two handlers that succeed; failing handlers, full queues, ties in priority and removals in between need histories.",
 [ED+"events"],
 ["handler list sorted by priority", "filter evaluated at dispatch", "unbounded queue with a configured bound", "counters updated on the way"],
 "deterministic simulation: seeded schedules of clients and a receiver, with handlers that fail and panic at chosen calls, against a model of the handler list and queue",
 "after a handler panicked the channel may refuse every later call; a batch may stop at the first event that failed; counts after a batch that stopped are not claimed")
