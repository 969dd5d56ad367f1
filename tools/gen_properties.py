#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
NET = "Every interpreter test connects to a public server and so does not run offline; even where it runs it samples "

p("C01", "Scalar arithmetic, rounding, trigonometric and logic reporters are exact",
  "For every pair of numbers, numeric-looking texts and booleans, each arithmetic, rounding, power, root, logarithm, trigonometric and logic reporter block yields the value its mathematical definition gives (modulo takes the sign of the divisor, rounding is to nearest with halves away from zero, trigonometry is in degrees). Text counts as a number exactly when it spells one (decimal, scientific, or 0x/0o/0b integer, with surrounding whitespace allowed). A block applied to something that is not of the type it needs, or whose result would be NaN or infinite, ends the script with an error and never produces a value.",
  ["inputs", "programs"], "all scalar operands (numbers over the whole double range incl. signed zero, subnormals, huge; numeric and non-numeric text; booleans; other kinds), all nestings of the blocks",
  NET + "a handful of operand pairs per block.",
  ["src/process.rs", "src/runtime.rs", "src/util.rs", "src/bytecode.rs"],
  [("binary and unary scalar operators", "process.rs mod ops: binary_op/unary_op scalar cases"), ("coercions", "runtime.rs Value::as_number / as_text / as_bool"), ("operator selection", "bytecode.rs ByteCodeBuilder::append_expr")],
  ["value of the variable a script stores the result into", "error returned by stepping the script"])

p("C02", "Operators broadcast over lists, matrices and cycles elementwise",
  "A unary or binary operator block applied to lists works elementwise: list with list zips to the shorter, list with scalar pairs the scalar with every element, nested lists recurse, and a table paired with a flat row combines the row with every row of the table. The result is a fresh list that mirrors the operands' sharing and cycles, and the operands themselves are never modified. If any leaf operation fails, the whole operation fails with that error.",
  ["inputs"], "all operand shapes: scalars, ragged/empty/nested lists, shared sublists, cyclic lists, and all operators that broadcast",
  NET + "a few small regular shapes; sharing and cyclic operands combine unboundedly.",
  ["src/process.rs"], [("binary_op_impl / unary_op_impl with identity cache", "process.rs mod ops")],
  ["result value graph (values plus which list is which)", "operands after the operation"])

p("C03", "Comparison and equality blocks obey one total, consistent relation",
  "Less-than, greater-than, at-most, at-least, equal, not-equal, min and max agree with one relation: booleans only with booleans, numbers (and numeric texts) numerically, other texts ignoring case, lists lexicographically. Equality never fails on differing kinds while ordering differing kinds is an error, negations and swapped operands are always consistent, and the identity block is true exactly for the same list object, the same other object, or the same primitive of the same type. Comparing genuinely cyclic lists is reported as an error rather than looping forever.",
  ["inputs"], "all pairs of values, including nested, shared and cyclic lists, closures, entities and media",
  NET + "fixed pairs; transitivity/consistency laws quantify over all pairs and triples.",
  ["src/process.rs", "src/runtime.rs"], [("cmp / check_eq / identical", "process.rs mod ops and runtime.rs Value::identical"), ("min/max reduction", "process.rs BinaryOp/VariadicOp handling")],
  ["boolean or error produced by each comparison block"])

p("C04", "Text blocks count, index, split and join by visible characters",
  "Length, letter-of, and letter splitting treat a text as its sequence of grapheme clusters, so that joining the letters always gives the text back; splitting by a separator and re-joining with it restores the text, and the whitespace, line, word and tab/CR splits follow their definitions for every Unicode text. Character code and code-to-character are mutually inverse on all Unicode scalar values. Joining shows every value in its display form, and out-of-range or fractional letter positions and invalid codes are errors.",
  ["inputs"], "all Unicode texts (combining marks, emoji sequences, CRLF, empty, separators that overlap), all indices",
  NET + "a few ASCII strings.",
  ["src/process.rs", "src/runtime.rs"], [("text operations", "process.rs mod ops split/index/unicode"), ("display of values", "runtime.rs impl Display for Value")],
  ["value of the reporter block", "error of the script"])

p("C05", "In-place list blocks change exactly the addressed items, or nothing",
  "For every list, insert-at, add-last, replace-item, delete-item, delete-last and delete-all change exactly the addressed positions (a position may be a 1-based number, or a possibly nested list of positions that counts each position once) and every alias of the list sees the change, while copies and other lists do not. Item, last and random item read without changing the list. An invalid position (fractional, out of range, wrong type, empty list) is an error and leaves the list as it was.",
  ["inputs", "histories"], "all sequences of list operations on aliased and nested lists with all index values, including lists used as their own index",
  NET + "single operations on small lists; aliasing histories are unbounded.",
  ["src/process.rs"], [("list instructions", "process.rs ListInsert*/ListAssign*/ListRemove*/ListGet* cases"), ("prep_index / prep_rand_index / index sets", "process.rs mod ops")],
  ["list contents through every alias after every operation"])

p("C06", "List reporters build the specified new list and leave sources intact",
  "Ranges, cons, all-but-first, length, rank, dimensions, is-empty, contains, find, flatten, transpose, reshape, combinations, append, reverse, slices of items and item lookup with index lists return exactly the list their definition gives for every input, including ragged, empty, nested, shared and cyclic ones. The result's outer list is always a new object, sources are never modified, and elements are shared by reference where the definition copies shallowly. Inputs with no defined result (bad sizes, empty sources, cyclic sources) are errors.",
  ["inputs"], "all list shapes and arguments up to memory",
  NET + "a few shapes per block.",
  ["src/process.rs", "src/bytecode.rs"], [("list reporters", "process.rs mod ops (flatten, dimensions, reshape, cartesian_product, ...)"), ("compilation of list blocks", "bytecode.rs ListKind and list ExprKinds")],
  ["value graph of the result", "sources after the operation"])

p("C07", "Higher-order blocks and rings call the ring once per item, in order",
  "Map, keep, find-first, fold and for-each apply the ring to each element present, in order, with the element (or accumulator and element) bound to the ring's parameters, and yield respectively the results, the kept elements, the first match or empty text, and the left fold. A ring captures the variables of its creator by reference, so that assignments on either side remain visible on the other for as long as either lives, and calling it with a wrong number of inputs is an error. Calling a ring evaluates its inputs before entering it and returns exactly the value it reports, or empty text.",
  ["programs"], "all programs built from rings, nested rings, captured variables, ring factories, and list arguments mutated while being iterated",
  NET + "a few fixed programs.",
  ["src/process.rs", "src/bytecode.rs"], [("closure creation, captures, CallClosure", "process.rs MakeClosure/CallClosure"), ("map/keep/find/fold/foreach code generation", "bytecode.rs append_expr / append_stmt"), ("free-variable search", "bytecode.rs ScriptInfo/closure holes")],
  ["variables after the run", "ordered trace of host-visible effects"])

p("C08", "Structured control flow executes exactly the blocks the script spells",
  "For every nesting of if, if-else, conditional reporters, and/or short-circuit, repeat, for, for-each, until, forever, custom-block calls, early report and stop-block, the script performs exactly the effects of a direct reading of its blocks, in order and no others. Loop counts and bounds are evaluated as defined (repeat count once, for bounds once and in either direction, until condition before every pass) and inputs are evaluated left to right. A loop variable and the values being computed around a block are unaffected by what the block's body does.",
  ["programs"], "all programs over the structured statements and expressions",
  NET + "dozens of fixed projects; nestings are unbounded.",
  ["src/bytecode.rs", "src/process.rs"], [("statement code generation with jumps", "bytecode.rs append_stmt*"), ("jump and call execution", "process.rs ProcessStep loop"), ("peephole and relocation passes", "bytecode.rs link/optimize/finalize")],
  ["ordered trace of host-visible effects", "final variables", "result or error of the script"])

p("C09", "Variable names resolve to the innermost scope, and scopes never leak",
  "A variable name always denotes the script/block/ring local of that name if one is in scope, else the sprite's field, else the project global, and reads of an unknown name and writes are handled accordingly. Parameters and declared script variables are fresh for each call or declaration, recursion and concurrent runs never see each other's locals, by-reference (upvar) parameters alias exactly the named caller variable, and rings keep their captured variables alive. A watcher shows the current value of exactly the variable it was opened on for as long as that variable is reachable.",
  ["programs", "histories"], "all programs with shadowing, recursion, redeclaration, upvars, captures and watchers",
  NET + "a few fixed projects.",
  ["src/process.rs", "src/runtime.rs", "src/bytecode.rs", "src/vecmap.rs"], [("lookup context", "runtime.rs LookupGroup / SymbolTable / Shared"), ("frames", "process.rs call frames, DeclareLocal, captures"), ("upvar handling", "process.rs Call/InitUpvar")],
  ["values stored by scripts", "watcher notifications"])

p("C10", "Errors unwind to the innermost live handler and nowhere else",
  "An error raised anywhere inside a try block - directly, in a called block, in a ring, or while inputs are being evaluated - resumes at that block's handler with the error text in its variable, in the variable scope of that block, and with every enclosing loop and partially evaluated expression exactly as it was on entry; a user-thrown text arrives verbatim. An error inside a handler, after the try block has ended, or after leaving it by report or stop-block goes to the next enclosing handler, and with none left ends only that script with that error. Host-defined per-process state is wound back to the point of the handler or the call in the same way.",
  ["programs", "fault_sequences"], "all nestings of try/throw/call/ring/report/loops with errors injected at any block, including host-raised errors",
  NET + "about three fixed programs; unwinding depends on stack heights at arbitrary points.",
  ["src/process.rs", "src/bytecode.rs"], [("handler stack and unwinding", "process.rs PushHandler/PopHandler/Throw and Process::step error path"), ("Unwindable", "runtime.rs trait Unwindable")],
  ["trace of effects", "error ending the process", "host process state"])

p("C11", "Scripts switch only at loop iterations and waits, and warp never does",
  "A running script gives up control exactly at the end of each pass of a loop or when it waits (for time, a condition, an answer, a message or a host), and at no other point; thus code between two such points is atomic with respect to other scripts. Inside a warp block no loop pass gives up control, for the full dynamic extent of the warp, and after leaving it by any route - normal end, report, stop-block, or an error caught outside - normal switching resumes. Every loop, even an empty or nested one, gives up control each pass so that other scripts keep running.",
  ["schedules", "programs"], "all sets of concurrently running scripts with loops, warps and calls",
  NET + "few interleavings; the yield points are observable only by interleaved scripts.",
  ["src/process.rs", "src/bytecode.rs", "src/project.rs"], [("Yield instruction and warp counter", "process.rs Instruction::Yield/Warp"), ("loop code generation", "bytecode.rs append_stmt")],
  ["interleaving of effects from several scripts", "step results of a single process"])

p("C12", "Runaway recursion ends in a call-depth error at the configured limit",
  "However blocks and rings call each other, a script never holds more active calls than the configured maximum call depth: the call that would exceed it fails with the call-depth error, which can be caught like any other and which leaves the caller able to continue. Recursion that stays within the limit is never cut short, and returning from calls makes the depth available again.",
  ["programs", "configurations"], "all call patterns (direct, mutual, through rings, methods) and all limits",
  "The repository has one recursion test, network bound, at the default limit.",
  ["src/process.rs", "src/runtime.rs"], [("call depth check", "process.rs Instruction::Call"), ("Settings::max_call_depth", "runtime.rs")],
  ["error kind and deepest call reached"])

p("C13", "No project, input or host reply can crash the VM; errors stay in one script",
  "Whatever project is loaded and whatever events, messages, host replies and API calls arrive, loading either succeeds or reports an error and running never panics or corrupts state. A script that fails reports exactly one error and ends; every other script, all variables and all sprites continue exactly as if it had simply stopped there. The project remains usable afterwards.",
  ["programs", "histories", "fault_sequences"], "all well-formed projects with untyped (frequently ill-typed) blocks, all event histories, all host replies",
  NET + "only non-failing programs, or single expected errors.",
  ["src/process.rs", "src/project.rs", "src/bytecode.rs", "src/runtime.rs"], [("Result-returning instruction execution", "process.rs Process::step_impl"), ("per-process error reporting", "project.rs Project::step"), ("compile errors", "bytecode.rs ByteCode::compile")],
  ["panic / error / step results", "state of other scripts"])

p("C14", "A script behaves the same wherever it lands in the compiled program",
  "What a script does is a function of its blocks and the project's state only: adding, removing or reordering other sprites' scripts, unused custom blocks, other constants or dead code, or running it standalone rather than within the project never changes its effects. The compiled program is well formed at every size: all jumps and calls, across any distance, reach the block they were compiled for.",
  ["programs"], "all programs up to sizes that require multi-byte relocated operands, with random unrelated padding before and after",
  "Existing tests compile small projects only, so relocation widths and shared constant data are barely exercised.",
  ["src/bytecode.rs"], [("relocation, variable-width integers, string pool sharing", "bytecode.rs ByteCodeBuilder::link / finalize / BinPool"), ("peephole optimisation", "bytecode.rs optimize"), ("disassembler", "bytecode.rs ByteCode::dump_code / dump_data")],
  ["effects of the padded and unpadded program", "entry positions reported by compilation", "dump output"])

p("C15", "Reported error locations are the failing block and its callers",
  "When a script fails, the reported location is the collaboration id of the block that was executing (or of the nearest enclosing block of the same script, custom block or ring that has one) and the trace lists, innermost last, the calling blocks that were active, each with its own location. The variables listed with each trace entry are the ones in scope there with their values at the time of failure. Blocks without location information never produce a wrong one; a caller for which nothing has one is left out of the trace.",
  ["programs"], "all programs with arbitrary assignment of location ids, errors raised at any depth of calls, rings and nested inputs",
  NET + "one project; locations are assigned by position lookup over the whole program.",
  ["src/bytecode.rs", "src/runtime.rs", "src/process.rs", "src/util.rs"], [("location table", "bytecode.rs Locations"), ("error summary", "runtime.rs ErrorSummary::extract"), ("called_from/return positions", "process.rs frames")],
  ["ErrorSummary trace and globals/fields/locals"])

p("C16", "Compiled programs survive serialisation unchanged",
  "Serialising compiled code and initial state and deserialising them gives a program that behaves identically to the original in every run. The serialised form of a re-loaded program equals that of the original.",
  ["programs"], "all compiled projects, through the crate's serde support",
  "No test serialises compiled code.",
  ["src/bytecode.rs"], [("serde derives", "bytecode.rs ByteCode, InitInfo, InitValue, ... cfg_attr(feature = serde)")],
  ["effects of the re-loaded program", "second serialisation"])

p("C17", "A loaded project starts in exactly the state its source describes",
  "After loading, every global, field, list (including shared and cyclic ones), costume, sound, position, direction, size, colour, visibility and script has exactly the value or presence stated in the project, and shared references in the source are the same object at run time. Loading twice gives two independent projects. Scripts with supported hats react to their event and hat-less scripts never run by themselves.",
  ["inputs", "programs"], "all project descriptions, incl. reference graphs among lists, media and duplicate names across sprites",
  NET + "a few fixtures and never inspects most of the initial state.",
  ["src/bytecode.rs", "src/runtime.rs", "src/project.rs"], [("initial info extraction", "bytecode.rs extract_init_info / register_value"), ("instantiation", "runtime.rs GlobalContext::from_init, project.rs Project::from_init")],
  ["globals/fields/entity properties after load"])

p("C18", "Runnable scripts are scheduled fairly, in order, and idleness is truthful",
  "Ready scripts take turns in a fixed cyclic order, each running until it gives up control, finishes or fails; a newly started script joins at the back, so every ready script runs again before any other runs twice. Stepping the project reports idle only when no script is runnable and reports each yield, termination (with its result) and error of a script exactly once; the idle helper acts after exactly the set number of steps without work in a row. The whole run is a deterministic function of the project, the inputs and the host's answers.",
  ["schedules", "histories"], "all sets of scripts, start times and lengths, and all orders of events",
  NET + "final results only, never the schedule.",
  ["src/project.rs", "src/slotmap.rs"], [("process queue", "project.rs State / process_queue / step"), ("Script scheduling", "project.rs Script::schedule / consume_context")],
  ["sequence of step results", "interleaving of effects"])

p("C19", "Each input event starts exactly the scripts listening for it",
  "A start event (re)starts every flag script; a key press starts exactly the scripts waiting for that key or any key that are not already running; a custom event starts exactly the scripts of that event, restarting, queueing or ignoring those already running as its options say, with the event's data bound to the script's variables; a new clone runs exactly its own sprite's clone scripts. Events nobody listens for, and repeated or interleaved events, never disturb other scripts.",
  ["histories"], "all sequences of input events interleaved with running scripts",
  NET + "single-event runs.",
  ["src/project.rs", "src/bytecode.rs"], [("Project::input", "project.rs"), ("event keys from hats", "bytecode.rs extract_init_info")],
  ["started scripts seen by effects", "bound locals"])

p("C20", "Local broadcasts restart every receiver once, and broadcast-wait waits for all",
  "Broadcasting a message (to everyone or to chosen sprites) restarts, exactly once each, all and only the scripts receiving that message (or any message) on the targeted sprites, with the message available to them, including when the broadcaster itself is a receiver. Broadcast-and-wait resumes the sender only after every script run it started has finished, failed or been stopped, and never later than the next scheduling round after that. Messages with no receiver do nothing.",
  ["schedules", "histories", "programs"], "all numbers of receivers and senders, receivers that loop, fail, stop, rebroadcast, or are restarted while being waited for",
  NET + "a few fixed projects.",
  ["src/project.rs", "src/process.rs", "src/runtime.rs"], [("Broadcast request handling", "project.rs Project::step ProcessStep::Broadcast"), ("Barrier", "runtime.rs Barrier/BarrierCondition"), ("SendLocalMessage", "process.rs")],
  ["interleaving of effects", "panic freedom"])

p("C21", "Every network message is handled once, in order, by each matching script",
  "Each incoming message starts every script listening for that message type once with its fields bound to the script's variables (fields missing from the message are 0), and messages arriving while the script is busy are handled later in arrival order, none lost, duplicated or mixed. Outgoing messages carry exactly the type, fields and recipients the block states. A script run that handles a message replies to it at most once, and to the sender that asked, and a script waiting for a reply gets that reply or the empty text.",
  ["histories", "schedules", "programs"], "all sequences of incoming messages, busy receivers, replies, timeouts",
  NET + "one or two echo exchanges with a real server.",
  ["src/project.rs", "src/process.rs", "src/std_system.rs"], [("message dispatch and context queue", "project.rs step / Script::schedule"), ("SendNetworkMessage / SendNetworkReply", "process.rs"), ("System message API", "runtime.rs trait System")],
  ["calls received by the host system", "effects of receivers"])

p("C22", "Stop blocks and stop events end exactly the scripts they name",
  "Stop-all and the stop event end every running or queued script run; stop-this-script ends only itself; stop-others ends every other running one; stop-other-scripts-in-sprite ends only the other running ones of the same sprite (both leave messages still queued to be handled); and the stopping script continues or ends accordingly. Ended scripts have no further effect of any kind, waiting senders are released, and scripts can afterwards be started afresh by new events.",
  ["histories", "schedules"], "all moments of stopping relative to other scripts' progress, queued messages, waits and clones",
  NET + "two or three fixed projects.",
  ["src/project.rs", "src/process.rs"], [("AbortMode handling", "project.rs Project::step ProcessStep::Abort"), ("Input::Stop", "project.rs")],
  ["effects after the stop", "idleness"])

p("C23", "Clones are independent copies that live until deleted",
  "A clone starts with its source's current variable values, costume and properties, and from then on changes to either never affect the other (values that are shared lists remain shared), while globals remain common. The clone's scripts - its own copies of all scripts of the sprite - react to events just as the original's do, and deleting a clone ends them all and only them; originals cannot be deleted. Asking for an entity by name or for itself always designates the right one.",
  ["histories", "programs"], "all sequences of cloning (incl. clones of clones), mutation, events and deletions",
  NET + "a couple of fixed projects.",
  ["src/runtime.rs", "src/project.rs", "src/process.rs"], [("clone creation", "process.rs Clone / project.rs CreatedClone"), ("deletion", "process.rs DeleteClone / project.rs DeletedClone"), ("EntityKind::Clone", "runtime.rs")],
  ["fields of each entity", "effects of each clone's scripts"])

p("C24", "Host calls return to the right script once, whatever their latency",
  "Every RPC, service call, question, syscall and property command reaches the host exactly once with the block's arguments, and its answer is delivered to exactly the script run that issued it, whatever other calls complete before it; the calling script waits and all others keep running. An error answer raises a script error or sets the last-error text according to the configured scheme, and a success clears it. The results of a program do not depend on how long the host takes. The host's own state for a script run is created once per run, knowing the sprite it runs on and the run (if any) that launched it, broadcast to it or made its clone, as that run stood at that moment.",
  ["schedules", "configurations", "fault_sequences"], "all assignments of completion delays and failures to concurrently pending host calls, all error schemes",
  NET + "calls to a real server answered one at a time.",
  ["src/process.rs", "src/runtime.rs"], [("deferred requests", "process.rs Defer / pending request polling"), ("error schemes", "process.rs push_syscall/push_rpc results, Settings"), ("Config overrides", "runtime.rs Config/Request/Command")],
  ["host's request log", "variables after the run"])

p("C25", "Concurrent script runs share only globals, fields and referenced lists",
  "Any number of runs of the same or different scripts may be in progress: each has its own locals, parameters, temporary values, error handlers, last answer, last error, timers of waits and warp state. Running scripts that touch disjoint data concurrently gives each exactly the outcome it has when run alone. Two loaded projects never influence each other.",
  ["schedules", "programs"], "all sets of data-disjoint scripts and all interleavings the scheduler can produce",
  NET + "single scripts mostly.",
  ["src/process.rs", "src/project.rs", "src/runtime.rs"], [("per-process state", "process.rs Process fields"), ("context passed on start", "project.rs ProcContext")],
  ["per-script results alone versus together"])

p("C26", "Waits end at the first turn after their time, and the timer reads true",
  "A wait of t seconds lets the script continue at its first turn at which at least t seconds (to the millisecond) have passed since it began, never before; zero or negative waits just give up one turn, and non-numeric waits are errors. The timer reports seconds since it was last reset or the project was created, and wall-clock reporters report the host's time fields; on a host without that kind of clock such a block is an error a program can catch, and all else works. Wait-until resumes at the first turn at which its condition holds.",
  ["schedules", "inputs"], "all wait durations, resets and clock advances between turns",
  NET + "one real-time measurement.",
  ["src/process.rs", "src/runtime.rs", "src/std_util.rs"], [("Sleep", "process.rs Instruction::Sleep / Defer::Sleep"), ("timer", "process.rs ResetTimer / GetTimer, runtime.rs GlobalContext::timer_start"), ("Clock", "std_util.rs")],
  ["order of effects against the virtual clock"])

p("C27", "Garbage collection never changes what a program computes",
  "Running collections of any kind at any points between steps never changes any result, effect or reachable value, including values reachable only from suspended scripts, pending host calls, queued messages, rings, clones or cycles. Data that is no longer reachable is eventually reclaimed, so that a program with bounded live data runs in bounded memory.",
  ["schedules", "histories"], "all placements of collections between steps of all programs",
  "No test varies collection points; tests mostly never collect.",
  ["src/runtime.rs", "src/process.rs", "src/project.rs", "src/slotmap.rs", "src/vecmap.rs"], [("Collect implementations", "derive(Collect) and manual unsafe impls"), ("write barriers", "RefLock::borrow_mut / Gc::new uses"), ("IdleAction / arena collection", "std_util.rs, cli.rs")],
  ["results with and without forced collections", "total allocation after loops"])

p("C28", "Plain data converts to JSON and back without loss",
  "Every acyclic value made of booleans, numbers, texts and lists converts to JSON and back to an equal value, and every JSON document made of those converts to a value and back to the same document; objects become lists of key/value pairs. Values that cannot be represented (cyclic lists, rings, sprites, media) and JSON that cannot be (out-of-range numbers, null) are reported as errors. The conversion never aliases the result to its source.",
  ["inputs"], "all values and all JSON documents",
  "Tests convert a handful of documents.",
  ["src/runtime.rs"], [("SimpleValue / to_simple / from_simple / into_json / from_json", "runtime.rs")],
  ["converted value and document"])

p("C29", "NetsBlox wire values round-trip, including media",
  "Every acyclic value made of booleans, numbers, texts, lists, images and sounds converts to the NetsBlox wire form and back to an equal value (media keep bytes, name and rotation centre), apart from booleans and numbers arriving as texts where the wire form has no such types. Wire texts that are not media markup stay plain text, and malformed media markup is an error or plain text, never a crash.",
  ["inputs"], "all values, all wire documents incl. adversarial almost-markup texts",
  "One round-trip test on two fixed media values.",
  ["src/runtime.rs"], [("from_netsblox_json / into_netsblox_json", "runtime.rs SimpleValue")],
  ["converted value and wire document"])

p("C30", "Numbers print shortest-exact and parse back to the same number",
  "The text of every finite number is its shortest decimal form that parses back to the identical number (integers without a fraction part, zero without a sign), and reading that text as a number always gives the original. A number object never holds NaN or infinity: constructing one from such a value is an error and no text reads as one.",
  ["inputs"], "all finite doubles and all texts",
  "One test with about ten numbers.",
  ["src/runtime.rs"], [("Number / NumberChecker", "runtime.rs"), ("parse_number / as_text", "runtime.rs Value")],
  ["as_text / as_number results"])

p("C31", "CSV and JSON text blocks are exact inverses on the data they cover",
  "Writing any table or row of texts and numbers as CSV and splitting the result as CSV gives back the same texts for every content, including separators, quotes and line breaks; a single row splits to a table of that row. Writing any plain value as JSON text and splitting it as JSON gives back an equal value. Splitting malformed JSON, or converting data that has no CSV or JSON form, is an error.",
  ["inputs"], "all tables and all plain values; all texts for the splitting direction",
  NET + "a few tables.",
  ["src/process.rs", "src/runtime.rs"], [("to_csv / from_csv", "process.rs mod ops"), ("ListJson / SplitJson", "process.rs")],
  ["value graph after the round trip"])

p("C32", "Sprite properties behave as a bounded register file",
  "Starting from any state, any sequence of set/change/get operations on position, heading, size, visibility, pen and colour effects yields what a simple model predicts: headings and hues stay in [0,360), saturation-like values in [0,100], sizes never negative, numeric change equals get-add-set, pen colour round-trips through its components. Motion uses compass headings (0 up, 90 right): forward moves by exactly the given distance along the heading, turning adds, and pointing towards a place makes forward go there.",
  ["histories", "inputs"], "all sequences of property operations and all numeric arguments",
  NET + "a few fixed motions.",
  ["src/runtime.rs", "src/process.rs"], [("Properties / perform_get/set/change_property", "runtime.rs"), ("motion commands", "runtime.rs Properties::perform_*")],
  ["values read back from getters after each operation"])

p("C33", "Colours convert between all representations within one unit",
  "For every colour, packing to a 32-bit value and unpacking is the identity, and converting RGB to HSV and back reproduces every channel within rounding (one unit), with hue in [0,360) and saturation, value and alpha in [0,1]. Converting HSV to RGB agrees with the textbook definition for every hue, including out-of-range hues taken modulo 360.",
  ["inputs"], "all 2^24 RGB colours (all 2^32 packed values) and all HSVA quadruples",
  "One test samples 32 values per channel in one direction.",
  ["src/runtime.rs"], [("Color::{from_argb,to_argb,from_hsva,to_hsva}", "runtime.rs")],
  ["converted components"])

p("C34", "Notes parse, print and sound consistently",
  "Every note name accepted parses to one MIDI number and spelling, tells whether the name carried an accidental sign, printing that note in sharp or flat form and parsing it again gives the same MIDI number, and names outside the MIDI range or malformed are rejected, whatever their length. The frequency of a note is 440 * 2^((midi-69)/12) Hz whatever its spelling. The play block turns numbers and names, alone or in chords, into exactly those notes, and rejects invalid ones as errors.",
  ["inputs"], "all texts up to arbitrary length and all MIDI numbers",
  "One test lists fixed names.",
  ["src/runtime.rs", "src/process.rs"], [("Note::{from_name,from_midi,get_name,get_frequency}", "runtime.rs"), ("note preparation", "process.rs mod ops prep_note")],
  ["notes handed to the host", "note accessors"])

p("C35", "Internal collections behave as the abstract maps they implement",
  "The keyed slot store behaves as a map with never-confused keys: keys of removed items never resolve again, even after slots are reused, and iteration visits exactly the live items. The ordered small map behaves as a map under any sequence of insertions, lookups, in-place updates and iteration, with correct ordering and serialisation. Both report sizes, and hand out references, consistently with that.",
  ["histories"], "all operation sequences",
  "Tests run one or two scripted sequences.",
  ["src/slotmap.rs", "src/vecmap.rs"], [("SlotMap generations and free list", "slotmap.rs"), ("VecMap sorted/unsorted storage", "vecmap.rs")],
  ["results of each operation"])

p("C36", "Random blocks stay in range, hit everything and use only the host's source",
  "A random number between two integers is an integer between them inclusive, in either order, and every such integer occurs; otherwise it is any real between them inclusive. Random items and letters are drawn from the existing ones only, a random place is any existing one, and all of it is a function of the host's random source, so equal sources give equal runs.",
  ["inputs", "schedules"], "all endpoint pairs, all lists and texts, all random streams",
  NET + "a few ranges with an unseeded generator.",
  ["src/process.rs", "src/runtime.rs"], [("Random / ListGetRandom / StrGetRandom", "process.rs"), ("System::rand", "runtime.rs")],
  ["distribution and range of produced values"])

p("C37", "Disassembly and size reports cover the program exactly",
  "The textual disassembly of any compiled program shows every byte of code exactly once as consecutive instructions, ends without failing, and lists every constant datum, byte by byte and with printable characters shown as themselves; every entry point reported by compilation is the start of an instruction. Reported code sizes equal the serialised sizes.",
  ["programs"], "all compiled programs",
  "Only two fixed projects have their sizes checked.",
  ["src/bytecode.rs"], [("dump_code / dump_data / total_size", "bytecode.rs")],
  ["dump text", "entry positions"])

p("C38", "The standard host carries calls, answers, messages, time and settings faithfully",
  "With the standard host, a remote call reaches the addressed service and procedure with exactly the arguments given, and the program gets exactly what the server answered: JSON as the corresponding value, other text as text, image or audio content with its bytes, a failure status as an error with the server's own text, an unreachable server or unreadable answer as an error. Messages reach exactly the addressed targets with all their fields; incoming messages arrive once each, in order, in the scripts waiting for their type and only with values a program can hold; a reply goes to its asker once, and a question that nobody answers ends with an empty answer after the set time and not before. Handlers of the embedding program come first, then those of the layers below in their order, then the default. The clock never runs backwards and its readings are as precise as asked; a pending operation is completed once and consumed once.",
  ["inputs", "schedules", "histories"], "all calls, all server answers at all moments, all packet histories, all layerings of configuration",
  "No test touches the host, its configuration layers or its networking.",
  ["src/std_system.rs", "src/std_util.rs", "src/runtime.rs"], [("StdSystem::new_async / call_rpc_async / message tasks / receive_message / poll_reply", "std_system.rs"), ("Clock / AsyncKey / NetsBloxContext", "std_util.rs"), ("Config::fallback", "runtime.rs")],
  ["HTTP requests and websocket packets", "values, errors and log of the program", "clock readings"])

p("C39", "The execution server runs what it was given, in order, and reports all of it",
  "The execution server applies loads, starts, stops and pauses in the order received. Every line of output and every error is reported exactly once, in the order it happened, whatever the moments at which the client pulls; errors carry their entity, place and variables. A project that cannot be loaded is refused with a report and changes nothing: the previous one goes on. While paused nothing runs; resuming continues where it stopped, starting resumes too, a project can pause itself, and the running flag tells the truth. The project handed back is the one loaded last. Malformed requests are refused without effect.",
  ["histories", "schedules"], "all sequences of commands and pulls, at all moments of the run",
  "No test starts the server.",
  ["src/cli.rs", "src/main.rs", "src/project.rs"], [("run_server: command queue, tee output, Status", "cli.rs"), ("ProjectStep::Pause", "project.rs"), ("nb start", "main.rs")],
  ["HTTP answers of the server", "output and error stream"])

p("C40", "The file calls of the command line program behave as files",
  "The file calls of the command line program read and write real files: opening for reading needs the file to exist, for writing empties it, for appending keeps what is there; lines are written in order with their ends, read back in order and whole until the file ends, and everything written is in the file once it is closed; if it cannot be kept, closing or writing says so. Reading through a writing handle, using a closed handle, unknown modes, wrong arguments and unknown calls are refused with an error a program can catch and touch no file. Closing is idempotent.",
  ["histories", "inputs"], "all sequences of file calls on any number of handles, any texts",
  "No test runs a file call.",
  ["src/main.rs", "src/cli.rs"], [("open / close / readLine / writeLine system calls", "main.rs"), ("syscall menu", "cli.rs")],
  ["results in the program", "contents of the files"])

p("C41", "The editor script of the execution server is faithful both ways",
  "The script that the execution server hands to the editor is a valid program for every server address, menu of system calls and list of omitted elements, and pages of any origin may load it and talk to the server. It adds exactly the given menu to the editor: every label and value as given, nested as given. It uploads the editor's project with every omitted element left out and nothing else changed. While its terminal is open it asks for the status at the given interval, shows all output of the server once and in order (the last mebibyte of it), whatever requests fail in between, and shows each reported error with its cause and variables at every block its trace names, whatever else the project and the report contain; an error gives way only to a later one that reaches one of its blocks. The buttons send exactly the commands they stand for, and the pause button tells the truth.",
  ["inputs", "histories"], "all menus and settings, all role documents, all histories of reports, failures and user actions",
  "One test formats five menus; no test runs the script.",
  ["src/template.rs", "src/assets/extension.js", "src/cli.rs"], [("ExtensionArgs::render / SyscallMenu::format", "template.rs"), ("cleanXML, updateLoop, comments, buttons", "assets/extension.js"), ("GET /extension.js, Cors", "cli.rs")],
  ["requests sent", "text of the terminal", "comments at blocks", "menu"])

p("C42", "The command line program runs or dumps exactly the role it was asked for",
  "Given a project file, the command line program takes the role that is named, or the only one; a missing file, a malformed project, a role that is not there, no role at all, or several of them without a choice are refused with the reason on the error stream and a failing exit status, before anything runs, is printed, or is told to the server. A dump is the disassembly of that role: its instructions, its data and its total size. A run announces itself under the name of the project, starts the flag scripts, and prints every line said and every error exactly once, each script's in its order, whether into a pipe or on a terminal. On a terminal each key starts the scripts listening for it, in order; while a question is open, what is typed is edited in the status line at the bottom of the screen, whatever size that has, and the finished line answers the oldest open question and nothing else; escape ends all scripts and with them their questions; control-C ends the program and leaves the terminal as it was.",
  ["inputs", "histories"], "all project documents, choices of role and programs; all histories of keys, answers, escapes and changes of size",
  "No test runs the command line program.",
  ["src/cli.rs", "src/main.rs"], [("open_project / Mode", "cli.rs"), ("run_proj_tty / run_proj_non_tty / dump", "cli.rs")],
  ["standard output and error", "exit status", "what is drawn on the terminal", "terminal modes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
