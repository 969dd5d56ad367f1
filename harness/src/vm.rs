//! Host system used to drive the real VM, plus snapshots of VM values.
use crate::tape::Rng;
use netsblox_vm as nb;
use nb::gc::*;
use nb::runtime::*;
use nb::process::*;
use nb::bytecode::*;
use nb::project::*;
use nb::json::Json;
use nb::vecmap::VecMap;
use nb::compact_str::{CompactString, format_compact};
use rand::Rng as _;
use rand::distr::uniform::{SampleUniform, SampleRange};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque, HashMap};
use std::rc::Rc;

pub use nb::ast;
pub type Val<'gc> = Value<'gc, C, Sys>;
pub type Proc<'gc> = Process<'gc, C, Sys>;
pub type Ent<'gc> = Entity<'gc, C, Sys>;
pub type Cause = ErrorCause<C, Sys>;

// ---------------------------------------------------------------- snapshots

/// Owned picture of a value graph. Reference identities are numbered in order of first visit,
/// so that two pictures are equal exactly when the graphs are isomorphic (values plus sharing).
#[derive(Clone, Debug)]
pub enum Snap {
    Bool(bool),
    Num(f64),
    Text(String),
    Image { name: String, content: Vec<u8>, center: Option<(f64, f64)>, id: usize },
    Audio { name: String, content: Vec<u8>, id: usize },
    Native(u32),
    List(usize, Vec<Snap>),
    /// a list seen before within the same picture
    Back(usize),
    Closure(usize),
    Entity(u32),
}
pub fn num_eq(a: f64, b: f64) -> bool {
    if a == b { return true }
    if a.is_nan() || b.is_nan() { return a.is_nan() && b.is_nan() }
    let d = (a - b).abs();
    d <= 1e-9 * a.abs().max(b.abs()) || d < 1e-300
}
impl PartialEq for Snap {
    fn eq(&self, o: &Snap) -> bool {
        match (self, o) {
            (Snap::Bool(a), Snap::Bool(b)) => a == b,
            (Snap::Num(a), Snap::Num(b)) => num_eq(*a, *b),
            (Snap::Text(a), Snap::Text(b)) => a == b,
            (Snap::Image { name: a, content: b, center: c, id: d }, Snap::Image { name: e, content: f, center: g, id: h }) => a == e && b == f && c == g && d == h,
            (Snap::Audio { name: a, content: b, id: d }, Snap::Audio { name: e, content: f, id: h }) => a == e && b == f && d == h,
            (Snap::Native(a), Snap::Native(b)) => a == b,
            (Snap::List(a, x), Snap::List(b, y)) => a == b && x == y,
            (Snap::Back(a), Snap::Back(b)) => a == b,
            (Snap::Closure(a), Snap::Closure(b)) => a == b,
            (Snap::Entity(a), Snap::Entity(b)) => a == b,
            _ => false,
        }
    }
}
impl std::fmt::Display for Snap {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Snap::Bool(x) => write!(f, "{x}"),
            Snap::Num(x) => write!(f, "{x:?}"),
            Snap::Text(x) => write!(f, "{x:?}"),
            Snap::Image { name, id, .. } => write!(f, "image#{id}({name:?})"),
            Snap::Audio { name, id, .. } => write!(f, "audio#{id}({name:?})"),
            Snap::Native(x) => write!(f, "native({x})"),
            Snap::List(id, xs) => { write!(f, "L{id}[")?; for (i, x) in xs.iter().enumerate() { if i > 0 { write!(f, ", ")?; } write!(f, "{x}")?; } write!(f, "]") }
            Snap::Back(id) => write!(f, "L{id}"),
            Snap::Closure(id) => write!(f, "ring#{id}"),
            Snap::Entity(id) => write!(f, "entity#{id}"),
        }
    }
}
impl Snap {
    pub fn list_of(xs: Vec<Snap>) -> Snap { Snap::List(0, xs) }
    pub fn n(x: f64) -> Snap { Snap::Num(x) }
    pub fn t(x: &str) -> Snap { Snap::Text(x.into()) }
    /// Renumbers nothing; true if any sharing or cycle shows in the picture.
    pub fn has_back(&self) -> bool { match self { Snap::Back(_) => true, Snap::List(_, xs) => xs.iter().any(|x| x.has_back()), _ => false } }
}
#[derive(Default)]
pub struct SnapCtx { ids: HashMap<usize, usize> }
impl SnapCtx {
    /// (number, already seen)
    pub fn id(&mut self, key: usize) -> (usize, bool) {
        let n = self.ids.len();
        match self.ids.entry(key) {
            std::collections::hash_map::Entry::Occupied(e) => (*e.get(), true),
            std::collections::hash_map::Entry::Vacant(e) => { e.insert(n); (n, false) }
        }
    }
    pub fn snap<'gc>(&mut self, v: &Val<'gc>) -> Snap {
        match v {
            Value::Bool(x) => Snap::Bool(*x),
            Value::Number(x) => Snap::Num(x.get()),
            Value::Text(x) => Snap::Text(x.as_str().into()),
            Value::Image(x) => Snap::Image { name: x.name.as_str().into(), content: x.content.clone(), center: x.center.map(|c| (c.0.get(), c.1.get())), id: self.id(Rc::as_ptr(x) as *const () as usize).0 },
            Value::Audio(x) => Snap::Audio { name: x.name.as_str().into(), content: x.content.clone(), id: self.id(Rc::as_ptr(x) as *const () as usize).0 },
            Value::Native(x) => Snap::Native(x.0),
            Value::List(x) => {
                let (id, seen) = self.id(Gc::as_ptr(*x) as *const () as usize);
                if seen { return Snap::Back(id) }
                let items = x.borrow();
                Snap::List(id, items.iter().map(|x| self.snap(x)).collect())
            }
            Value::Closure(x) => Snap::Closure(self.id(Gc::as_ptr(*x) as *const () as usize).0),
            Value::Entity(x) => Snap::Entity(x.borrow().state.uid),
        }
    }
}
/// Whether printing the value (a tree, whatever it shares) stays within a bound.
pub fn printable<'gc>(v: &Val<'gc>, left: &mut i64, path: &mut Vec<usize>) -> bool {
    *left -= 1;
    if *left < 0 { return false }
    if let Value::List(x) = v {
        let k = Gc::as_ptr(*x) as *const () as usize;
        if path.contains(&k) { return true }
        path.push(k);
        let ok = x.borrow().iter().all(|y| printable(y, left, path));
        path.pop();
        return ok
    }
    true
}
pub fn snap1<'gc>(v: &Val<'gc>) -> Snap { SnapCtx::default().snap(v) }

/// Error kinds, without the internal payload that the statements do not promise.
pub fn cause_kind(c: &Cause) -> &'static str {
    match c {
        ErrorCause::UndefinedVariable { .. } => "UndefinedVariable",
        ErrorCause::UndefinedCostume { .. } => "UndefinedCostume",
        ErrorCause::UndefinedSound { .. } => "UndefinedSound",
        ErrorCause::UndefinedEntity { .. } => "UndefinedEntity",
        ErrorCause::UpvarAtRoot => "UpvarAtRoot",
        ErrorCause::ConversionError { .. } => "ConversionError",
        ErrorCause::VariadicConversionError { .. } => "VariadicConversionError",
        ErrorCause::Incomparable { .. } => "Incomparable",
        ErrorCause::EmptyList => "EmptyList",
        ErrorCause::InvalidListLength { .. } => "InvalidListLength",
        ErrorCause::IndexOutOfBounds { .. } => "IndexOutOfBounds",
        ErrorCause::IndexNotInteger { .. } => "IndexNotInteger",
        ErrorCause::NoteNotInteger { .. } => "NoteNotInteger",
        ErrorCause::NoteNotMidi { .. } => "NoteNotMidi",
        ErrorCause::InvalidSize { .. } => "InvalidSize",
        ErrorCause::InvalidUnicode { .. } => "InvalidUnicode",
        ErrorCause::CallDepthLimit { .. } => "CallDepthLimit",
        ErrorCause::ClosureArgCount { .. } => "ClosureArgCount",
        ErrorCause::CyclicValue => "CyclicValue",
        ErrorCause::NotCsv { .. } => "NotCsv",
        ErrorCause::NotJson { .. } => "NotJson",
        ErrorCause::ToSimpleError { .. } => "ToSimpleError",
        ErrorCause::IntoJsonError { .. } => "IntoJsonError",
        ErrorCause::FromJsonError { .. } => "FromJsonError",
        ErrorCause::FromNetsBloxJsonError { .. } => "FromNetsBloxJsonError",
        ErrorCause::NumberError { .. } => "NumberError",
        ErrorCause::NotSupported { .. } => "NotSupported",
        ErrorCause::Promoted { .. } => "Promoted",
        ErrorCause::Custom { .. } => "Custom",
    }
}
/// Error as compared with the reference: kind, and the text for errors whose text is user visible.
#[derive(Clone, Debug, PartialEq)]
pub struct Err { pub kind: &'static str, pub msg: Option<String> }
impl Err {
    pub fn of(c: &Cause) -> Self {
        let msg = match c {
            ErrorCause::Custom { msg } => Some(crate::mval::norm_text(msg)),
            ErrorCause::Promoted { error } => Some(crate::mval::norm_text(error)),
            ErrorCause::UndefinedVariable { name } | ErrorCause::UndefinedEntity { name } | ErrorCause::UndefinedCostume { name } | ErrorCause::UndefinedSound { name } => Some(crate::mval::norm_text(name)),
            ErrorCause::ClosureArgCount { expected, got } => Some(format!("{expected}/{got}")),
            ErrorCause::CallDepthLimit { limit } => Some(format!("{limit}")),
            _ => None,
        };
        Err { kind: cause_kind(c), msg }
    }
}
impl std::fmt::Display for Err {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match &self.msg { Some(m) => write!(f, "{}({m:?})", self.kind), None => write!(f, "{}", self.kind) }
    }
}

// ---------------------------------------------------------------- custom types

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct NType;
#[derive(Debug)]
pub struct NVal(pub u32);
impl GetType for NVal { type Output = NType; fn get_type(&self) -> NType { NType } }

pub enum Inter { Simple(SimpleValue), Native(u32) }
impl From<SimpleValue> for Inter { fn from(x: SimpleValue) -> Self { Inter::Simple(x) } }

thread_local! { static NEXT_UID: Cell<u32> = const { Cell::new(0) }; static NEXT_PID: Cell<u32> = const { Cell::new(0) }; }
/// Must be called before each program is instantiated.
pub fn get_ids() -> (u32, u32) { (NEXT_UID.with(|x| x.get()), NEXT_PID.with(|x| x.get())) }
pub fn set_ids(v: (u32, u32)) { NEXT_UID.with(|x| x.set(v.0)); NEXT_PID.with(|x| x.set(v.1)); }
pub fn reset_ids() { NEXT_UID.with(|x| x.set(0)); NEXT_PID.with(|x| x.set(0)); }

pub struct EState { pub uid: u32, pub props: Properties, pub is_clone: bool, pub parent: Option<u32> }
impl From<EntityKind<'_, '_, C, Sys>> for EState {
    fn from(k: EntityKind<'_, '_, C, Sys>) -> Self {
        let uid = NEXT_UID.with(|x| { let v = x.get(); x.set(v + 1); v });
        match k {
            EntityKind::Stage { props } | EntityKind::Sprite { props } => EState { uid, props, is_clone: false, parent: None },
            EntityKind::Clone { parent } => EState { uid, props: parent.state.props, is_clone: true, parent: Some(parent.state.uid) },
        }
    }
}
/// Host-defined per-process state: a stack of marks that scripts push through a syscall.
pub struct PState { pub pid: u32, pub marks: Vec<u32>, /** the script's sprite, then those of the scripts that set it off, with how many marks they had */ pub line: String }
/// A new script's line, given that of the script that set it off.
pub fn new_line(ent: &str, from: Option<(&str, usize)>) -> String {
    match from { None => ent.into(), Some((line, marks)) => format!("{ent}<{marks}*{}", line.split('<').take(3).collect::<Vec<_>>().join("<")) }
}
impl From<ProcessKind<'_, '_, C, Sys>> for PState {
    fn from(k: ProcessKind<'_, '_, C, Sys>) -> Self {
        let line = new_line(k.entity.borrow().name.as_str(), k.dispatcher.map(|d| (d.state.line.as_str(), d.state.marks.len())));
        PState { pid: NEXT_PID.with(|x| { let v = x.get(); x.set(v + 1); v }), marks: vec![], line }
    }
}
impl Unwindable for PState {
    type UnwindPoint = usize;
    fn get_unwind_point(&self) -> usize { self.marks.len() }
    fn unwind_to(&mut self, p: &usize) { self.marks.truncate(*p); }
}
pub struct C;
impl CustomTypes<Sys> for C {
    type NativeValue = NVal;
    type Intermediate = Inter;
    type EntityState = EState;
    type ProcessState = PState;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, v: Inter) -> Val<'gc> {
        match v { Inter::Simple(x) => Value::from_simple(mc, x), Inter::Native(x) => Value::Native(Rc::new(NVal(x))) }
    }
}

pub struct ReqKey(pub Rc<RefCell<AsyncResult<Result<Inter, CompactString>>>>, pub Cell<u32>);
impl Key<Result<Inter, CompactString>> for ReqKey { fn complete(self, v: Result<Inter, CompactString>) { assert!(self.0.borrow_mut().complete(v).is_ok()) } }
pub struct CmdKey(pub Rc<RefCell<AsyncResult<Result<(), CompactString>>>>, pub Cell<u32>);
impl Key<Result<(), CompactString>> for CmdKey { fn complete(self, v: Result<(), CompactString>) { assert!(self.0.borrow_mut().complete(v).is_ok()) } }

// ---------------------------------------------------------------- host events

pub fn json_snap(j: &Json) -> Snap {
    match j {
        Json::Null => Snap::Text("<null>".into()),
        Json::Bool(x) => Snap::Bool(*x),
        Json::Number(x) => Snap::Num(x.as_f64().unwrap()),
        Json::String(x) => Snap::Text(x.clone()),
        Json::Array(x) => Snap::List(0, x.iter().map(json_snap).collect()),
        Json::Object(x) => Snap::List(1, x.iter().map(|(k, v)| Snap::List(2, vec![Snap::Text(k.clone()), json_snap(v)])).collect()),
    }
}
/// Everything the host sees, in order.
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Print { ent: u32, style: &'static str, value: Option<Snap> },
    Request { ent: u32, name: String, args: Vec<Snap> },
    Command { ent: u32, name: String, args: Vec<Snap> },
    Send { msg: String, values: Vec<(String, Snap)>, targets: Vec<String>, wait: bool },
    Reply { src: String, req: String, value: Snap },
    /// scheduler-level events added by the driver
    Yield,
    Done { ent: u32, result: Snap },
    Fail { ent: u32, err: Err },
    Watch { create: bool, ent: Option<u32>, name: String, value: Option<Snap> },
    Pause,
    Mark(String),
}
impl std::fmt::Display for Ev {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        fn l(xs: &[Snap]) -> String { xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ") }
        match self {
            Ev::Print { ent, style, value } => match value { Some(v) => write!(f, "e{ent} {style} {v}"), None => write!(f, "e{ent} {style} (clear)") },
            Ev::Request { ent, name, args } => write!(f, "e{ent} request {name}({})", l(args)),
            Ev::Command { ent, name, args } => write!(f, "e{ent} command {name}({})", l(args)),
            Ev::Send { msg, values, targets, wait } => write!(f, "send {msg:?} {{{}}} to {targets:?} wait={wait}", values.iter().map(|x| format!("{}={}", x.0, x.1)).collect::<Vec<_>>().join(", ")),
            Ev::Reply { src, req, value } => write!(f, "reply to {src}/{req}: {value}"),
            Ev::Yield => write!(f, "yield"),
            Ev::Done { ent, result } => write!(f, "e{ent} done {result}"),
            Ev::Fail { ent, err } => write!(f, "e{ent} failed {err}"),
            Ev::Watch { create, ent, name, value } => write!(f, "watch {create} {ent:?} {name} {:?}", value.as_ref().map(|x| x.to_string())),
            Ev::Pause => write!(f, "pause"),
            Ev::Mark(m) => write!(f, "-- {m}"),
        }
    }
}
pub fn show_trace(t: &[Ev]) -> String { t.iter().map(|e| format!("    {e}\n")).collect() }

/// Deterministic answers of the host, shared with the reference model.
#[derive(Clone, Debug, PartialEq)]
pub enum HostAns {
    Val(SimpleValue),
    Native(u32),
    Soft(String),
    /// refused synchronously
    Unsupported,
    /// custom hard error raised synchronously by the host
    Hard(String),
    /// process-state marks
    MarkPush(u32),
    MarkCount,
    Line,
}
pub fn snap_to_simple(s: &Snap) -> SimpleValue {
    match s {
        Snap::Bool(x) => SimpleValue::Bool(*x),
        Snap::Num(x) => SimpleValue::Number(Number::new(*x).unwrap()),
        Snap::Text(x) => SimpleValue::Text(x.as_str().into()),
        Snap::List(_, xs) => SimpleValue::List(xs.iter().map(snap_to_simple).collect()),
        other => SimpleValue::Text(format_compact!("{other}")),
    }
}
pub fn simple_to_snap(v: &SimpleValue, next: &mut usize) -> Snap {
    match v {
        SimpleValue::Bool(x) => Snap::Bool(*x),
        SimpleValue::Number(x) => Snap::Num(x.get()),
        SimpleValue::Text(x) => Snap::Text(x.to_string()),
        SimpleValue::Image(x) => { let id = *next; *next += 1; Snap::Image { name: x.name.to_string(), content: x.content.clone(), center: x.center.map(|c| (c.0.get(), c.1.get())), id } }
        SimpleValue::Audio(x) => { let id = *next; *next += 1; Snap::Audio { name: x.name.to_string(), content: x.content.clone(), id } }
        SimpleValue::List(xs) => { let id = *next; *next += 1; Snap::List(id, xs.iter().map(|x| simple_to_snap(x, next)).collect()) }
    }
}
/// The host's behaviour for syscalls, RPCs, questions and unknown blocks.
pub fn host_answer(kind: &str, name: &str, args: &[Snap], seq: usize) -> HostAns {
    match (kind, name) {
        ("syscall", "fail") | ("rpc", "svc.fail") => HostAns::Soft(format!("host failure {}", args.first().map(|x| x.to_string()).unwrap_or_default())),
        ("syscall", "unsupported") | ("rpc", "svc.unsupported") | ("unknown", "unsupported") => HostAns::Unsupported,
        ("syscall", "hard") => HostAns::Hard("host says no".into()),
        ("syscall", "seq") => HostAns::Val(SimpleValue::Number(Number::new(seq as f64).unwrap())),
        ("syscall", "native") => HostAns::Native(7),
        ("syscall", "mark") => HostAns::MarkPush(args.len() as u32),
        ("syscall", "marks") => HostAns::MarkCount,
        ("syscall", "line") => HostAns::Line,
        ("syscall", "first") => HostAns::Val(args.first().map(snap_to_simple).unwrap_or(SimpleValue::Text("none".into()))),
        ("ask", _) if matches!(args.first(), Some(Snap::Text(x)) if x == "refuse this") => HostAns::Soft("nobody there".into()),
        ("ask", _) if matches!(args.first(), Some(Snap::Text(x)) if x == "refuse at once") => HostAns::Hard("no questions".into()),
        ("ask", _) => HostAns::Val(SimpleValue::Text(format_compact!("answer to {}", args.first().map(|x| x.to_string()).unwrap_or("nothing".into())))),
        _ => {
            let mut items = vec![SimpleValue::Text(format_compact!("{kind}:{name}"))];
            items.extend(args.iter().map(snap_to_simple));
            HostAns::Val(SimpleValue::List(items))
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TimeMode { Timeless, Arbitrary, Real }

pub struct SysState {
    pub rng: Rng,
    pub now: u64,
    pub time_mode: TimeMode,
    pub utc_base_ms: i64,
    pub offset_s: i32,
    pub trace: Vec<Ev>,
    /// polls each request/command stays pending, cyclically by issue order
    pub latency: Vec<u32>,
    pub issued: usize,
    pub inbox: VecDeque<IncomingMessage>,
    /// reply per request id (in order of sends): (polls before it is there, value)
    pub replies: Vec<(u32, Option<Json>)>,
    pub sent: usize,
    pub pending_replies: BTreeMap<String, (u32, Option<Json>, bool)>,
    pub log_props: bool,
    pub overrides: Overrides,
    pub polls: usize,
}
#[derive(Default)]
pub struct Overrides {
    /// answers by (kind, name); falls back to `host_answer`
    pub answer: Option<Box<dyn Fn(&str, &str, &[Snap], usize) -> Option<HostAns>>>,
    pub send_unsupported: bool,
}
pub struct Sys { pub st: RefCell<SysState> }
impl Sys {
    pub fn new(seed: u64) -> Self {
        Sys { st: RefCell::new(SysState {
            rng: Rng::new(seed), now: 1_000_000, time_mode: TimeMode::Arbitrary, utc_base_ms: 1_600_000_000_000, offset_s: 0, trace: vec![], latency: vec![0], issued: 0,
            inbox: VecDeque::new(), replies: vec![], sent: 0, pending_replies: BTreeMap::new(), log_props: true, overrides: Default::default(), polls: 0,
        }) }
    }
    fn push(&self, e: Ev) { self.st.borrow_mut().trace.push(e); }
    fn next_latency(&self) -> u32 {
        let mut st = self.st.borrow_mut();
        let i = st.issued; st.issued += 1;
        st.latency[i % st.latency.len()]
    }
}
pub fn cur_ent<'gc>(proc: &Proc<'gc>) -> u32 { proc.get_call_stack().last().unwrap().entity.borrow().state.uid }

impl System<C> for Sys {
    type RequestKey = ReqKey;
    type CommandKey = CmdKey;

    fn rand<T: SampleUniform, R: SampleRange<T>>(&self, range: R) -> T { self.st.borrow_mut().rng.random_range(range) }
    fn time(&self, _: Precision) -> SysTime {
        let st = self.st.borrow();
        match st.time_mode {
            TimeMode::Timeless => SysTime::Timeless,
            TimeMode::Arbitrary => SysTime::Arbitrary { ms: st.now },
            TimeMode::Real => SysTime::Real { local: nb::real_time::OffsetDateTime::from_unix_timestamp_nanos((st.utc_base_ms as i128 + st.now as i128) * 1_000_000).unwrap().to_offset(time::UtcOffset::from_whole_seconds(st.offset_s).unwrap()) },
        }
    }
    fn perform_request<'gc>(&self, _mc: &Mutation<'gc>, request: Request<'gc, C, Self>, proc: &mut Proc<'gc>) -> Result<ReqKey, Cause> {
        let ent = cur_ent(proc);
        let mut cx = SnapCtx::default();
        let feature = request.feature();
        let (kind, name, args) = match &request {
            Request::Property { prop } => {
                let key = ReqKey(Rc::new(RefCell::new(AsyncResult::new())), Cell::new(self.next_latency()));
                let handle = ReqKey(key.0.clone(), Cell::new(0));
                let prop = *prop;
                if self.st.borrow().log_props { self.push(Ev::Request { ent, name: format!("get {prop:?}"), args: vec![] }); }
                let e = proc.get_call_stack().last().unwrap().entity;
                match e.borrow().state.props.perform_get_property::<C, Sys>(handle, prop) {
                    RequestStatus::Handled => return Ok(key),
                    RequestStatus::UseDefault { .. } => return Err(ErrorCause::NotSupported { feature }),
                }
            }
            Request::Input { prompt } => ("ask", String::new(), prompt.iter().map(|v| cx.snap(v)).collect::<Vec<_>>()),
            Request::Syscall { name, args } => ("syscall", name.to_string(), args.iter().map(|v| cx.snap(v)).collect()),
            Request::Rpc { host, service, rpc, args } => {
                let mut a = vec![];
                for e in args.as_slice() { a.push(Snap::Text(e.key.to_string())); a.push(cx.snap(&e.value)); }
                ("rpc", format!("{}{service}.{rpc}", host.as_ref().map(|h| format!("{h}/")).unwrap_or_default()), a)
            }
            Request::UnknownBlock { name, args } => ("unknown", name.to_string(), args.iter().map(|v| cx.snap(v)).collect()),
        };
        let seq = self.st.borrow().issued;
        self.push(Ev::Request { ent, name: format!("{kind}:{name}"), args: args.clone() });
        let over = self.st.borrow().overrides.answer.as_ref().and_then(|f| f(kind, &name, &args, seq));
        let ans = over.unwrap_or_else(|| host_answer(kind, &name, &args, seq));
        let res = match ans {
            HostAns::Unsupported => return Err(ErrorCause::NotSupported { feature }),
            HostAns::Hard(msg) => return Err(ErrorCause::Custom { msg: msg.into() }),
            HostAns::Val(v) => Ok(Inter::Simple(v)),
            HostAns::Native(v) => Ok(Inter::Native(v)),
            HostAns::Soft(e) => Err(e.into()),
            HostAns::MarkPush(v) => { proc.state.marks.push(v); Ok(Inter::Simple(SimpleValue::Number(Number::new(proc.state.marks.len() as f64).unwrap()))) }
            HostAns::MarkCount => Ok(Inter::Simple(SimpleValue::Number(Number::new(proc.state.marks.len() as f64).unwrap()))),
            HostAns::Line => Ok(Inter::Simple(SimpleValue::Text(proc.state.line.as_str().into()))),
        };
        Ok(ReqKey(Rc::new(RefCell::new(AsyncResult::Completed(res))), Cell::new(self.next_latency())))
    }
    fn poll_request<'gc>(&self, mc: &Mutation<'gc>, key: &ReqKey, _: &mut Proc<'gc>) -> Result<AsyncResult<Result<Val<'gc>, CompactString>>, Cause> {
        self.st.borrow_mut().polls += 1;
        if key.1.get() > 0 { key.1.set(key.1.get() - 1); return Ok(AsyncResult::Pending) }
        Ok(match key.0.borrow_mut().poll() {
            AsyncResult::Completed(x) => AsyncResult::Completed(x.map(|x| C::from_intermediate(mc, x))),
            AsyncResult::Pending => AsyncResult::Pending,
            AsyncResult::Consumed => AsyncResult::Consumed,
        })
    }
    fn perform_command<'gc>(&self, _mc: &Mutation<'gc>, command: Command<'gc, '_, C, Self>, proc: &mut Proc<'gc>) -> Result<CmdKey, Cause> {
        let ent = cur_ent(proc);
        let key = CmdKey(Rc::new(RefCell::new(AsyncResult::new())), Cell::new(self.next_latency()));
        let handle = CmdKey(key.0.clone(), Cell::new(0));
        let feature = command.feature();
        let mut cx = SnapCtx::default();
        let e = proc.get_call_stack().last().unwrap().entity;
        let log = |name: String, args: Vec<Snap>| self.push(Ev::Command { ent, name, args });
        let status = match command {
            Command::Print { style, value } => {
                let style = match style { PrintStyle::Say => "say", PrintStyle::Think => "think" };
                self.push(Ev::Print { ent, style, value: value.as_ref().map(|v| cx.snap(v)) });
                handle.complete(Ok(()));
                CommandStatus::Handled
            }
            Command::SetProperty { prop, value } => {
                log(format!("set {prop:?}"), vec![cx.snap(&value)]);
                e.borrow_mut(_mc).state.props.perform_set_property(handle, prop, value)
            }
            Command::ChangeProperty { prop, delta } => {
                log(format!("change {prop:?}"), vec![cx.snap(&delta)]);
                e.borrow_mut(_mc).state.props.perform_change_property(handle, prop, delta)
            }
            Command::ClearEffects => { log("clear effects".into(), vec![]); e.borrow_mut(_mc).state.props.perform_clear_effects(handle) }
            Command::ClearDrawings => { log("clear drawings".into(), vec![]); handle.complete(Ok(())); CommandStatus::Handled }
            Command::SetCostume => {
                let c = e.borrow().costume.as_ref().map(|c| Snap::Text(c.name.to_string()));
                log("costume".into(), c.into_iter().collect()); handle.complete(Ok(())); CommandStatus::Handled
            }
            Command::PlaySound { sound, blocking } => { log(format!("play sound blocking={blocking}"), vec![Snap::Text(sound.name.to_string()), Snap::Num(sound.content.len() as f64)]); handle.complete(Ok(())); CommandStatus::Handled }
            Command::PlayNotes { notes, beats, blocking } => {
                let mut a = vec![Snap::Num(beats.get())];
                a.extend(notes.iter().map(|n| Snap::Num(n.get_midi().0 as f64)));
                log(format!("play notes blocking={blocking}"), a); handle.complete(Ok(())); CommandStatus::Handled
            }
            Command::StopSounds => { log("stop sounds".into(), vec![]); handle.complete(Ok(())); CommandStatus::Handled }
            Command::GotoXY { x, y } => { log("goto".into(), vec![Snap::Num(x.get()), Snap::Num(y.get())]); e.borrow_mut(_mc).state.props.perform_goto_xy(handle, x, y) }
            Command::GotoEntity { target } => {
                log("goto entity".into(), vec![Snap::Entity(target.state.uid)]);
                let p = target.state.props.pos;
                if target.state.uid != ent { e.borrow_mut(_mc).state.props.pos = p; }
                handle.complete(Ok(())); CommandStatus::Handled
            }
            Command::PointTowardsXY { x, y } => { log("point".into(), vec![Snap::Num(x.get()), Snap::Num(y.get())]); e.borrow_mut(_mc).state.props.perform_point_towards_xy(handle, x, y) }
            Command::PointTowardsEntity { target } => {
                log("point entity".into(), vec![Snap::Entity(target.state.uid)]);
                let p = target.state.props.pos;
                if target.state.uid != ent { e.borrow_mut(_mc).state.props.perform_point_towards_xy::<C, Sys>(handle, p.0, p.1) } else { handle.complete(Ok(())); CommandStatus::Handled }
            }
            Command::Forward { distance } => { log("forward".into(), vec![Snap::Num(distance.get())]); e.borrow_mut(_mc).state.props.perform_forward(handle, distance) }
        };
        match status {
            CommandStatus::Handled => Ok(key),
            CommandStatus::UseDefault { .. } => Err(ErrorCause::NotSupported { feature }),
        }
    }
    fn poll_command<'gc>(&self, _: &Mutation<'gc>, key: &CmdKey, _: &mut Proc<'gc>) -> Result<AsyncResult<Result<(), CompactString>>, Cause> {
        if key.1.get() > 0 { key.1.set(key.1.get() - 1); return Ok(AsyncResult::Pending) }
        Ok(key.0.borrow_mut().poll())
    }
    fn send_message(&self, msg_type: CompactString, values: VecMap<CompactString, Json, false>, targets: Vec<CompactString>, expect_reply: bool) -> Result<Option<ExternReplyKey>, Cause> {
        let vals = values.as_slice().iter().map(|e| (e.key.to_string(), json_snap(&e.value))).collect();
        self.push(Ev::Send { msg: msg_type.to_string(), values: vals, targets: targets.iter().map(|x| x.to_string()).collect(), wait: expect_reply });
        let mut st = self.st.borrow_mut();
        if !expect_reply { return Ok(None) }
        let id = format!("out-{}", st.sent);
        let (n, v) = if st.replies.is_empty() { (0, None) } else { let i = st.sent % st.replies.len(); st.replies[i].clone() };
        st.sent += 1;
        st.pending_replies.insert(id.clone(), (n, v, false));
        Ok(Some(ExternReplyKey { request_id: id.into() }))
    }
    fn poll_reply(&self, key: &ExternReplyKey) -> AsyncResult<Option<Json>> {
        let mut st = self.st.borrow_mut();
        match st.pending_replies.get_mut(key.request_id.as_str()) {
            None => AsyncResult::Consumed,
            Some((_, _, true)) => AsyncResult::Consumed,
            Some((0, v, used)) => { *used = true; AsyncResult::Completed(v.clone()) }
            Some((n, _, _)) => { *n -= 1; AsyncResult::Pending }
        }
    }
    fn send_reply(&self, key: InternReplyKey, value: Json) -> Result<(), Cause> {
        self.push(Ev::Reply { src: key.src_id.to_string(), req: key.request_id.to_string(), value: json_snap(&value) });
        Ok(())
    }
    fn receive_message(&self) -> Option<IncomingMessage> { self.st.borrow_mut().inbox.pop_front() }
}

// ---------------------------------------------------------------- arenas

#[derive(Collect)]
#[collect(no_drop)]
pub struct Env<'gc> {
    pub glob: Option<Gc<'gc, RefLock<GlobalContext<'gc, C, Sys>>>>,
    pub proj: Option<Gc<'gc, RefLock<Project<'gc, C, Sys>>>>,
    pub other: Option<Gc<'gc, RefLock<Project<'gc, C, Sys>>>>,
    pub procs: Vec<Gc<'gc, RefLock<Proc<'gc>>>>,
    pub vals: Vec<Val<'gc>>,
    pub watchers: Vec<WatchEnt<'gc>>,
    #[collect(require_static)]
    pub deads: usize,
}
use netsblox_vm::gc::gc_arena;
pub type EnvArena = Arena<Rootable![Env<'_>]>;

pub fn empty_env() -> Env<'static> { Env { glob: None, proj: None, other: None, procs: vec![], vals: vec![], watchers: vec![], deads: 0 } }
#[derive(Collect)]
#[collect(no_drop)]
pub struct WatchEnt<'gc> {
    pub entity: GcWeak<'gc, RefLock<Ent<'gc>>>,
    #[collect(require_static)]
    pub name: CompactString,
    pub value: GcWeak<'gc, RefLock<Val<'gc>>>,
}
