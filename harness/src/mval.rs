//! Reference values and reference operations, written from the block definitions.
use crate::vm::{Snap, Err as VErr};
use netsblox_vm::json::Json;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashMap};
use std::rc::{Rc, Weak};
use unicode_segmentation::UnicodeSegmentation;
use unicase::UniCase;

pub type VCell = Rc<RefCell<MVal>>;
pub struct ML { pub items: RefCell<Vec<MVal>> }
pub struct MImg { pub name: String, pub content: Vec<u8>, pub center: Option<(f64, f64)> }
pub struct MAud { pub name: String, pub content: Vec<u8> }
#[derive(Clone)]
pub enum MVal {
    Bool(bool), Num(f64), Text(Rc<str>), Img(Rc<MImg>), Aud(Rc<MAud>), Native(Rc<u32>),
    List(Rc<ML>), Ring(Rc<crate::model::MRing>), Ent(Rc<crate::model::MEnt>),
}
use MVal::*;

thread_local! {
    static LISTS: RefCell<Vec<Weak<ML>>> = const { RefCell::new(vec![]) };
    static CELLS: RefCell<Vec<Weak<RefCell<MVal>>>> = const { RefCell::new(vec![]) };
}
/// Breaks every reference cycle made during the case.
pub fn clear_registry() {
    let lists = LISTS.with(|x| std::mem::take(&mut *x.borrow_mut()));
    let cells = CELLS.with(|x| std::mem::take(&mut *x.borrow_mut()));
    for l in lists { if let Some(l) = l.upgrade() { let v = std::mem::take(&mut *l.items.borrow_mut()); drop(v); } }
    for c in cells { if let Some(c) = c.upgrade() { let v = c.replace(Bool(false)); drop(v); } }
}
thread_local! { static WORK: std::cell::Cell<i64> = const { std::cell::Cell::new(i64::MAX) }; }
/// Bounds the work of a case: exponential displays and the like are discarded instead of being run.
pub fn set_work(n: i64) { WORK.with(|w| w.set(n)); }
pub fn broke() -> bool { WORK.with(|w| w.get() < 0) }
pub fn spend(n: usize) -> MR<()> { WORK.with(|w| { w.set(w.get().saturating_sub(n as i64)); if w.get() < 0 { err("FUEL") } else { Ok(()) } }) }
pub fn new_list(items: Vec<MVal>) -> Rc<ML> {
    let _ = spend(1 + items.len());
    let l = Rc::new(ML { items: RefCell::new(items) });
    LISTS.with(|x| x.borrow_mut().push(Rc::downgrade(&l)));
    l
}
pub fn mlist(items: Vec<MVal>) -> MVal { List(new_list(items)) }
pub fn new_cell(v: MVal) -> VCell {
    let c = Rc::new(RefCell::new(v));
    CELLS.with(|x| x.borrow_mut().push(Rc::downgrade(&c)));
    c
}
pub fn text(s: &str) -> MVal { Text(s.into()) }

/// Reference error: what a user can tell apart, plus the source location bookkeeping.
#[derive(Clone, Debug)]
pub struct MErr { pub kind: &'static str, pub msg: Option<String>, pub loc: Option<String>, pub trace: Vec<(Option<String>, Vec<(String, Snap)>)>, pub top: Option<Box<TopInfo>> }
/// What is in scope around the frame that failed: entity name, its fields, and the globals.
#[derive(Clone, Debug, Default)]
pub struct TopInfo { pub ent: String, pub fields: Vec<(String, Snap)>, pub globals: Vec<(String, Snap)> }
impl MErr {
    pub fn new(kind: &'static str) -> Self { MErr { kind, msg: None, loc: None, trace: vec![], top: None } }
    pub fn msg(kind: &'static str, msg: impl Into<String>) -> Self { MErr { kind, msg: Some(msg.into()), loc: None, trace: vec![], top: None } }
    pub fn view(&self) -> VErr { VErr { kind: self.kind, msg: self.msg.clone() } }
    /// Text seen by an error handler, with the internal payload elided.
    pub fn caught(&self) -> String {
        match self.kind {
            "Custom" => self.msg.clone().unwrap(),
            "EmptyList" | "UpvarAtRoot" | "CyclicValue" => self.kind.into(),
            k => format!("{k}{{}}"),
        }
    }
}
pub type MR<T> = Result<T, MErr>;
pub fn err<T>(kind: &'static str) -> MR<T> { Err(MErr::new(kind)) }

thread_local! { pub static WORDING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) } }
/// Elides the payload of internal error texts: `Kind { ... }` becomes `Kind{}`.
pub fn norm_text(s: &str) -> String {
    if !s.contains(" { ") { return s.into() }
    let b: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_uppercase() && (i == 0 || !b[i - 1].is_alphanumeric()) {
            let mut j = i;
            while j < b.len() && b[j].is_alphanumeric() { j += 1; }
            if j + 2 < b.len() && b[j] == ' ' && b[j + 1] == '{' && b[j + 2] == ' ' && KINDS.contains(&b[i..j].iter().collect::<String>().as_str()) {
                let (mut depth, mut k, mut q) = (0i32, j + 1, false);
                while k < b.len() {
                    match b[k] {
                        '\\' if q => k += 1,
                        '"' => q = !q,
                        '{' if !q => depth += 1,
                        '}' if !q => { depth -= 1; if depth == 0 { break } }
                        _ => (),
                    }
                    k += 1;
                }
                if k < b.len() {
                    out.extend(&b[i..j]);
                    out.push_str("{}");
                    i = k + 1;
                    continue;
                }
            }
        }
        out.push(b[i]);
        i += 1;
    }
    out
}
const KINDS: &[&str] = &["UndefinedVariable", "UndefinedCostume", "UndefinedSound", "UndefinedEntity", "ConversionError", "VariadicConversionError", "Incomparable",
    "InvalidListLength", "IndexOutOfBounds", "IndexNotInteger", "NoteNotInteger", "NoteNotMidi", "InvalidSize", "InvalidUnicode", "CallDepthLimit", "ClosureArgCount", "NotCsv", "NotJson",
    "ToSimpleError", "IntoJsonError", "FromJsonError", "FromNetsBloxJsonError", "NumberError", "NotSupported", "Promoted"];
pub fn norm_snap(s: Snap) -> Snap {
    match s {
        Snap::Text(t) => Snap::Text(norm_text(&t)),
        Snap::List(i, xs) => Snap::List(i, xs.into_iter().map(norm_snap).collect()),
        x => x,
    }
}

// ------------------------------------------------------------ snapshots
#[derive(Default)]
pub struct MSnap { ids: HashMap<usize, usize> }
impl MSnap {
    fn id(&mut self, key: usize) -> (usize, bool) {
        let n = self.ids.len();
        match self.ids.get(&key) { Some(x) => (*x, true), None => { self.ids.insert(key, n); (n, false) } }
    }
    pub fn snap(&mut self, v: &MVal) -> Snap {
        if spend(1).is_err() { return Snap::Bool(false) }
        match v {
            Bool(x) => Snap::Bool(*x),
            Num(x) => Snap::Num(*x),
            Text(x) => { let _ = spend(x.len() / 8); Snap::Text(x.to_string()) }
            Img(x) => Snap::Image { name: x.name.clone(), content: x.content.clone(), center: x.center, id: self.id(Rc::as_ptr(x) as usize).0 },
            Aud(x) => Snap::Audio { name: x.name.clone(), content: x.content.clone(), id: self.id(Rc::as_ptr(x) as usize).0 },
            Native(x) => Snap::Native(**x),
            List(x) => {
                let (id, seen) = self.id(Rc::as_ptr(x) as usize);
                if seen { return Snap::Back(id) }
                let items = x.items.borrow().clone();
                Snap::List(id, items.iter().map(|x| self.snap(x)).collect())
            }
            Ring(x) => Snap::Closure(self.id(Rc::as_ptr(x) as usize).0),
            Ent(x) => Snap::Entity(x.uid),
        }
    }
}
pub fn msnap1(v: &MVal) -> Snap { MSnap::default().snap(v) }

// ------------------------------------------------------------ conversions
/// There is no signed zero.
pub fn nz(v: f64) -> f64 { if v == 0.0 { 0.0 } else { v } }
pub fn num(v: f64) -> MR<MVal> { if v.is_finite() { Ok(Num(nz(v))) } else { err("NumberError") } }
pub fn parse_num(s: &str) -> Option<f64> {
    let s = s.trim();
    let b = s.as_bytes();
    let v = if b.len() >= 2 && b[0] == b'0' && matches!(b[1], b'x' | b'X' | b'o' | b'O' | b'b' | b'B') {
        let radix = match b[1] { b'x' | b'X' => 16, b'o' | b'O' => 8, _ => 2 };
        i64::from_str_radix(&s[2..], radix).ok()? as f64
    } else { s.parse::<f64>().ok()? };
    v.is_finite().then_some(nz(v))
}
pub fn num_text(v: f64) -> String {
    // shortest digits that parse back; layout as printed by the VM (plain from 1e-5 up to 1e16, exponent outside)
    if v == 0.0 { return "0".into() }
    let mut e = format!("{v:e}");
    // of several shortest forms, the one nearest to the value, halves to even
    let digits = e.chars().take_while(|c| *c != 'e').filter(|c| c.is_ascii_digit()).count();
    let f = format!("{v:.*e}", digits - 1);
    if f.parse::<f64>() == Ok(v) && !f.contains("0e") { e = f; }
    let (m, x) = e.split_once('e').unwrap();
    let x: i32 = x.parse().unwrap();
    let plain = if (-5..16).contains(&x) { plain_digits(m, x) } else { format!("{m}e{x}") };
    plain
}
/// Decimal notation of `m` times ten to the `x`.
fn plain_digits(m: &str, x: i32) -> String {
    let (sign, m) = match m.strip_prefix('-') { Some(m) => ("-", m), None => ("", m) };
    let d: String = m.chars().filter(|c| *c != '.').collect();
    let body = if x < 0 { format!("0.{}{d}", "0".repeat((-x - 1) as usize)) }
        else if d.len() as i32 <= x + 1 { format!("{d}{}", "0".repeat((x + 1) as usize - d.len())) }
        else { format!("{}.{}", &d[..(x + 1) as usize], &d[(x + 1) as usize..]) };
    format!("{sign}{body}")
}
impl MVal {
    pub fn as_bool(&self) -> MR<bool> { match self { Bool(x) => Ok(*x), _ => err("ConversionError") } }
    pub fn as_num(&self) -> MR<f64> {
        match self { Num(x) => Ok(*x), Text(s) => parse_num(s).ok_or(MErr::new("ConversionError")), _ => err("ConversionError") }
    }
    /// The text whose contents decide what happens next; the wording of internal errors is not promised, so such runs are not compared.
    pub fn as_text(&self) -> MR<Rc<str>> {
        let t = self.as_raw_text()?;
        if t.contains("{}") && KINDS.iter().any(|k| t.contains(&format!("{k}{{}}"))) { WORDING.with(|w| w.set(true)); }
        Ok(t)
    }
    pub fn as_raw_text(&self) -> MR<Rc<str>> { match self { Text(s) => Ok(s.clone()), Num(x) => Ok(num_text(*x).into()), _ => err("ConversionError") } }
    pub fn as_list(&self) -> MR<Rc<ML>> { match self { List(x) => Ok(x.clone()), _ => err("ConversionError") } }
    pub fn as_ring(&self) -> MR<Rc<crate::model::MRing>> { match self { Ring(x) => Ok(x.clone()), _ => err("ConversionError") } }
    pub fn as_ent(&self) -> MR<Rc<crate::model::MEnt>> { match self { Ent(x) => Ok(x.clone()), _ => err("ConversionError") } }
    pub fn items(&self) -> Option<Vec<MVal>> { match self { List(x) => Some(x.items.borrow().clone()), _ => None } }
    fn obj(&self) -> Option<usize> {
        match self {
            Img(x) => Some(Rc::as_ptr(x) as usize), Aud(x) => Some(Rc::as_ptr(x) as usize), List(x) => Some(Rc::as_ptr(x) as usize),
            Ring(x) => Some(Rc::as_ptr(x) as usize), Ent(x) => Some(Rc::as_ptr(x) as usize), Native(x) => Some(Rc::as_ptr(x) as usize), _ => None,
        }
    }
}
pub fn display(v: &MVal) -> String {
    fn go(v: &MVal, out: &mut String, open: &mut Vec<usize>) {
        if spend(2).is_err() { return }
        match v {
            Bool(x) => out.push_str(if *x { "true" } else { "false" }),
            Num(x) => out.push_str(&format!("{x}")),
            Text(s) => { let _ = spend(s.len() / 4); out.push_str(s); if out.len() > 20_000 { WORK.with(|w| w.set(-1)) } }
            Ent(e) => out.push_str(&format!("Entity {:?}", e.name)),
            Native(x) => out.push_str(&format!("NVal({x})")),
            // these texts contain addresses: a program that looks at them is not compared
            Img(_) | Aud(_) | Ring(_) => WORK.with(|w| w.set(-1)),
            List(l) => {
                let id = Rc::as_ptr(l) as usize;
                if open.contains(&id) { out.push_str("[...]"); return }
                open.push(id);
                out.push('[');
                for (i, x) in l.items.borrow().iter().enumerate() { if i > 0 { out.push(','); } go(x, out, open); }
                out.push(']');
                open.pop();
            }
        }
    }
    let mut s = String::new();
    go(v, &mut s, &mut vec![]);
    s
}

// ------------------------------------------------------------ relations
pub fn compare(a: &MVal, b: &MVal) -> MR<Option<Ordering>> {
    fn fold(a: &str, b: &str) -> Ordering { UniCase::new(a).cmp(&UniCase::new(b)) }
    fn go(a: &MVal, b: &MVal, open: &mut Vec<(usize, usize)>, done: &mut HashMap<(usize, usize), Option<Ordering>>) -> MR<Option<Ordering>> {
        spend(1)?;
        Ok(match (a, b) {
            (Bool(a), Bool(b)) => Some(a.cmp(b)),
            (Num(_) | Text(_), Num(_) | Text(_)) => {
                let (x, y) = (a.as_num().ok(), b.as_num().ok());
                match (x, y) {
                    (Some(x), Some(y)) => x.partial_cmp(&y),
                    _ => Some(fold(&a.as_text()?, &b.as_text()?)),
                }
            }
            (List(x), List(y)) => {
                let key = (Rc::as_ptr(x) as usize, Rc::as_ptr(y) as usize);
                if let Some(r) = done.get(&key) { return Ok(*r) }
                if open.contains(&key) { return err("CyclicValue") }
                open.push(key);
                let (p, q) = (x.items.borrow().clone(), y.items.borrow().clone());
                let mut res = Some(p.len().cmp(&q.len()));
                for (i, j) in p.iter().zip(&q) {
                    let r = go(i, j, open, done)?;
                    if r != Some(Ordering::Equal) { res = r; break }
                }
                open.pop();
                done.insert(key, res);
                res
            }
            _ => match (a.obj(), b.obj()) { (Some(x), Some(y)) if x == y => Some(Ordering::Equal), _ => None },
        })
    }
    go(a, b, &mut vec![], &mut HashMap::new())
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rel { Eq, Ne, Lt, Le, Gt, Ge }
pub fn relation(a: &MVal, b: &MVal, r: Rel) -> MR<bool> {
    let o = compare(a, b)?;
    Ok(match (r, o) {
        (Rel::Eq, o) => o == Some(Ordering::Equal),
        (Rel::Ne, o) => o != Some(Ordering::Equal),
        (_, None) => return err("Incomparable"),
        (Rel::Lt, Some(o)) => o.is_lt(), (Rel::Le, Some(o)) => o.is_le(), (Rel::Gt, Some(o)) => o.is_gt(), (Rel::Ge, Some(o)) => o.is_ge(),
    })
}
pub fn identical(a: &MVal, b: &MVal) -> bool {
    match (a, b) {
        (Bool(a), Bool(b)) => a == b,
        (Num(a), Num(b)) => a.to_bits() == b.to_bits(),
        (Text(a), Text(b)) => a == b,
        _ => match (a.obj(), b.obj()) { (Some(x), Some(y)) => x == y, _ => false },
    }
}

// ------------------------------------------------------------ broadcasting
pub fn map_scalar(x: &MVal, f: &mut dyn FnMut(&MVal) -> MR<MVal>) -> MR<MVal> {
    fn go(x: &MVal, f: &mut dyn FnMut(&MVal) -> MR<MVal>, seen: &mut HashMap<usize, MVal>) -> MR<MVal> {
        match x {
            List(l) => {
                let id = Rc::as_ptr(l) as usize;
                if let Some(r) = seen.get(&id) { return Ok(r.clone()) }
                let out = new_list(vec![]);
                seen.insert(id, List(out.clone()));
                let items = l.items.borrow().clone();
                for i in &items { let v = go(i, f, seen)?; out.items.borrow_mut().push(v); }
                Ok(List(out))
            }
            x => f(x),
        }
    }
    go(x, f, &mut HashMap::new())
}
type Cache = HashMap<(usize, usize, bool), MVal>;
/// Whether two copies of one (longer) text count as the same operand is left open: such cases are not compared.
fn same_text_twice(v: &MVal, k: usize, other: usize, seen: &mut HashMap<(String, usize), usize>) {
    if let Text(s) = v { if s.len() >= 8 { let o = seen.entry((s.to_string(), other)).or_insert(k); if *o != k { WORK.with(|w| w.set(-1)) } } }
}
/// `ka`/`kb` identify the operand objects for the purpose of mirroring sharing.
fn zip_go(a: &MVal, ka: usize, b: &MVal, kb: usize, matrix: bool, seen: &mut Cache, texts: &mut HashMap<(String, usize), usize>, f: &mut dyn FnMut(&MVal, &MVal) -> MR<MVal>) -> MR<MVal> {
    let key_of = |v: &MVal, k: usize| match v { List(l) => Rc::as_ptr(l) as usize, _ => k };
    let key = (key_of(a, ka), key_of(b, kb), matrix);
    if let Some(r) = seen.get(&key) { return Ok(r.clone()) }
    let rows = |v: &MVal| -> Option<Rc<ML>> {
        match v { List(l) => if !matrix || matches!(l.items.borrow().first(), Some(List(_))) { Some(l.clone()) } else { None }, _ => None }
    };
    let (x, y) = (rows(a), rows(b));
    if x.is_none() && y.is_none() {
        return if matrix { zip_go(a, ka, b, kb, false, seen, texts, f) } else { f(a, b) };
    }
    same_text_twice(a, ka, key.1, texts);
    same_text_twice(b, kb, key.0, texts);
    let out = new_list(vec![]);
    seen.insert(key, List(out.clone()));
    let n = match (&x, &y) { (Some(x), Some(y)) => x.items.borrow().len().min(y.items.borrow().len()), (Some(x), None) => x.items.borrow().len(), (None, Some(y)) => y.items.borrow().len(), _ => unreachable!() };
    for i in 0..n {
        let elem = |l: &Option<Rc<ML>>, whole: &MVal, k: usize| match l {
            Some(l) => (l.items.borrow()[i].clone(), &l.items.borrow()[i] as *const MVal as usize),
            None => (whole.clone(), k),
        };
        let (p, kp) = elem(&x, a, ka);
        let (q, kq) = elem(&y, b, kb);
        let v = zip_go(&p, kp, &q, kq, matrix, seen, texts, f)?;
        out.items.borrow_mut().push(v);
    }
    Ok(List(out))
}
pub fn zip_scalar(a: &MVal, b: &MVal, f: &mut dyn FnMut(&MVal, &MVal) -> MR<MVal>) -> MR<MVal> {
    zip_go(a, a as *const MVal as usize, b, b as *const MVal as usize, true, &mut HashMap::new(), &mut HashMap::new(), f)
}

pub fn modulo(a: f64, b: f64) -> f64 {
    if b == 0.0 || !a.is_finite() || b.is_nan() { return f64::NAN }
    if b.is_infinite() { return if a == 0.0 || (a > 0.0) == (b > 0.0) { a } else { b } }
    let r = a % b;
    if r != 0.0 && (r < 0.0) != (b < 0.0) { let s = r + b; if s == b { 0.0 } else { s } } else { r }
}
pub fn round_away(x: f64) -> f64 { x.round() }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bin { Add, Sub, Mul, Div, Mod, Pow, Log, Atan2, SplitBy, Range, StrGet }
pub fn index_of(v: &MVal, len: usize) -> MR<usize> {
    let x = v.as_num()?;
    if x.fract() != 0.0 || x.abs() > 9.223372036854775807e18 { return err("IndexNotInteger") }
    if x < 1.0 || x > len as f64 { return err("IndexOutOfBounds") }
    Ok(x as usize - 1)
}
pub fn binary(op: Bin, a: &MVal, b: &MVal) -> MR<MVal> {
    zip_scalar(a, b, &mut |a, b| match op {
        Bin::Add => num(a.as_num()? + b.as_num()?),
        Bin::Sub => num(a.as_num()? - b.as_num()?),
        Bin::Mul => num(a.as_num()? * b.as_num()?),
        Bin::Div => num(a.as_num()? / b.as_num()?),
        Bin::Mod => num(modulo(a.as_num()?, b.as_num()?)),
        Bin::Pow => num(a.as_num()?.powf(b.as_num()?)),
        Bin::Log => { let (v, base) = (b.as_num()?, a.as_num()?); num(v.log2() / base.log2()) }
        Bin::Atan2 => num(a.as_num()?.atan2(b.as_num()?).to_degrees()),
        Bin::SplitBy => { let (s, p) = (a.as_text()?, b.as_text()?); Ok(mlist(s.split(&*p).map(text).collect())) }
        Bin::Range => {
            let (a, b) = (a.as_num()?, b.as_num()?);
            if (a - b).abs() > 1e5 { return err("FUEL") }
            let up = a <= b;
            let mut out = vec![];
            let mut x = a;
            while if up { x <= b } else { x >= b } {
                out.push(Num(nz(x)));
                let next = if up { x + 1.0 } else { x - 1.0 };
                // too large to count
                if next == x { break }
                x = next;
            }
            Ok(mlist(out))
        }
        Bin::StrGet => {
            let s = b.as_text()?;
            let g: Vec<&str> = s.graphemes(true).collect();
            Ok(text(g[index_of(a, g.len())?]))
        }
    })
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Un { ToNum, Not, Abs, Neg, Sqrt, Round, Floor, Ceil, Sin, Cos, Tan, Asin, Acos, Atan, StrLen, StrLast, Letters, Words, Tabs, Crs, Lines, Csv, Json, UniToChar, CharToUni }
pub fn unary(op: Un, x: &MVal) -> MR<MVal> {
    map_scalar(x, &mut |x| match op {
        Un::ToNum => Ok(Num(x.as_num()?)),
        Un::Not => Ok(Bool(!x.as_bool()?)),
        Un::Abs => num(x.as_num()?.abs()),
        Un::Neg => num(-x.as_num()?),
        Un::Sqrt => num(x.as_num()?.sqrt()),
        Un::Round => num(x.as_num()?.round()),
        Un::Floor => num(x.as_num()?.floor()),
        Un::Ceil => num(x.as_num()?.ceil()),
        Un::Sin => num(x.as_num()?.to_radians().sin()),
        Un::Cos => num(x.as_num()?.to_radians().cos()),
        Un::Tan => num(x.as_num()?.to_radians().tan()),
        Un::Asin => num(x.as_num()?.asin().to_degrees()),
        Un::Acos => num(x.as_num()?.acos().to_degrees()),
        Un::Atan => num(x.as_num()?.atan().to_degrees()),
        Un::StrLen => Ok(Num(x.as_text()?.graphemes(true).count() as f64)),
        Un::StrLast => x.as_text()?.graphemes(true).last().map(text).ok_or(MErr::new("IndexOutOfBounds")),
        Un::Letters => Ok(mlist(x.as_text()?.graphemes(true).map(text).collect())),
        Un::Words => Ok(mlist(x.as_text()?.unicode_words().map(text).collect())),
        Un::Tabs => Ok(mlist(x.as_text()?.split('\t').map(text).collect())),
        Un::Crs => Ok(mlist(x.as_text()?.split('\r').map(text).collect())),
        Un::Lines => {
            let s = x.as_text()?;
            let mut parts: Vec<&str> = s.split('\n').collect();
            if parts.last() == Some(&"") { parts.pop(); }
            // a carriage return directly before a line feed belongs to the line break
            let n = parts.len();
            let ends_nl = s.ends_with('\n');
            Ok(mlist(parts.iter().enumerate().map(|(i, p)| if i + 1 < n || ends_nl { text(p.strip_suffix('\r').unwrap_or(p)) } else { text(p) }).collect()))
        }
        Un::Csv => parse_csv(&x.as_text()?),
        Un::Json => {
            let s = x.as_text()?;
            match serde_json::from_str::<Json>(&s) { Ok(j) => from_json(&j), Err(_) => err("NotJson") }
        }
        Un::UniToChar => {
            let v = x.as_num()?;
            if v < 0.0 || v.fract() != 0.0 || v > u32::MAX as f64 { return err("InvalidUnicode") }
            char::from_u32(v as u32).map(|c| text(&c.to_string())).ok_or(MErr::new("InvalidUnicode"))
        }
        Un::CharToUni => {
            let s = x.as_text()?;
            let v: Vec<MVal> = s.chars().map(|c| Num(c as u32 as f64)).collect();
            Ok(if v.len() == 1 { v[0].clone() } else { mlist(v) })
        }
    })
}
pub fn index_list(list: &MVal, index: &MVal) -> MR<MVal> {
    let l = list.as_list()?;
    let items = l.items.borrow().clone();
    map_scalar(index, &mut |i| Ok(items[index_of(i, items.len())?].clone()))
}
pub fn index_set(index: &MVal, len: usize) -> MR<BTreeSet<usize>> {
    fn go(v: &MVal, len: usize, out: &mut BTreeSet<usize>, seen: &mut BTreeSet<usize>) -> MR<()> {
        match v {
            List(l) => { if seen.insert(Rc::as_ptr(l) as usize) { for i in l.items.borrow().clone().iter() { go(i, len, out, seen)?; } } }
            v => { out.insert(index_of(v, len)?); }
        }
        Ok(())
    }
    let mut out = BTreeSet::new();
    go(index, len, &mut out, &mut BTreeSet::new())?;
    Ok(out)
}

// ------------------------------------------------------------ list reporters
pub fn flatten(v: &MVal) -> MR<Vec<MVal>> {
    fn go(v: &MVal, out: &mut Vec<MVal>, open: &mut Vec<usize>) -> MR<()> {
        spend(1)?;
        match v {
            List(l) => {
                let id = Rc::as_ptr(l) as usize;
                if open.contains(&id) { return err("CyclicValue") }
                open.push(id);
                for i in l.items.borrow().iter() { go(i, out, open)?; if out.len() > 200_000 { return err("FUEL") } }
                open.pop();
            }
            v => out.push(v.clone()),
        }
        Ok(())
    }
    let mut out = vec![];
    go(v, &mut out, &mut vec![])?;
    Ok(out)
}
pub fn dims(v: &MVal) -> MR<Vec<usize>> {
    fn go(v: &MVal, d: usize, out: &mut Vec<usize>, open: &mut Vec<usize>) -> MR<()> {
        spend(1)?;
        if let List(l) = v {
            let id = Rc::as_ptr(l) as usize;
            if open.contains(&id) { return err("CyclicValue") }
            open.push(id);
            if out.len() <= d { out.push(0); }
            let items = l.items.borrow();
            out[d] = out[d].max(items.len());
            for i in items.iter() { go(i, d + 1, out, open)?; }
            open.pop();
        }
        Ok(())
    }
    let mut out = vec![];
    go(v, 0, &mut out, &mut vec![])?;
    Ok(out)
}
pub fn reshape(src: &MVal, dim_vals: &[MVal]) -> MR<MVal> {
    let mut ds = vec![];
    for d in dim_vals {
        let x = d.as_num()?;
        if x < 0.0 || x.fract() != 0.0 || x > usize::MAX as f64 { return err("InvalidSize") }
        ds.push(x);
    }
    let flat = flatten(src)?;
    if flat.is_empty() { return err("EmptyList") }
    let mut total = 1.0;
    for d in &ds { if *d == 0.0 { break } total *= 1.0 + d; if total > 50_000.0 { return err("FUEL") } }
    fn build(flat: &[MVal], at: &mut usize, ds: &[f64]) -> MVal {
        match ds.split_first() {
            None => { let v = flat[*at % flat.len()].clone(); *at += 1; v }
            Some((d, rest)) => { let mut out = vec![]; for _ in 0..*d as usize { out.push(build(flat, at, rest)); } mlist(out) }
        }
    }
    Ok(build(&flat, &mut 0, &ds))
}
pub fn columns(v: &MVal) -> MR<MVal> {
    let rows: Vec<(MVal, Option<Vec<MVal>>)> = v.as_list()?.items.borrow().iter().map(|r| (r.clone(), r.items())).collect();
    let n = rows.iter().map(|r| r.1.as_ref().map(|x| x.len()).unwrap_or(1)).max().unwrap_or(0);
    spend(rows.iter().map(|r| r.1.as_ref().map(|x| x.len()).unwrap_or(1)).sum())?;
    let mut cols = vec![];
    for c in 0..n {
        spend(rows.len())?;
        cols.push(mlist(rows.iter().map(|(r, items)| match items { Some(x) => x.get(c).cloned().unwrap_or(text("")), None => r.clone() }).collect()));
    }
    Ok(mlist(cols))
}
pub fn combos(sources: &[MVal]) -> MR<MVal> {
    let mut ls = vec![];
    for s in sources { ls.push(s.as_list()?.items.borrow().clone()); }
    if ls.is_empty() || ls.iter().any(|x| x.is_empty()) { return Ok(mlist(vec![])) }
    let total: f64 = ls.iter().map(|x| x.len() as f64).product();
    if total > 20_000.0 { return err("FUEL") }
    let mut res: Vec<Vec<MVal>> = vec![vec![]];
    for l in &ls {
        res = res.iter().flat_map(|p| l.iter().map(move |x| { let mut q = p.clone(); q.push(x.clone()); q })).collect();
    }
    Ok(mlist(res.into_iter().map(mlist).collect()))
}
pub fn find(list: &MVal, v: &MVal) -> MR<Option<usize>> {
    let items = list.as_list()?.items.borrow().clone();
    spend(items.len())?;
    for (i, x) in items.iter().enumerate() { if compare(x, v)? == Some(Ordering::Equal) { return Ok(Some(i)) } }
    Ok(None)
}
/// The displayed form of a table or row as CSV (RFC 4180 quoting where needed, line feeds between rows).
pub fn to_csv(v: &MVal) -> MR<String> {
    fn cell(s: &str) -> String { if s.contains(['"', ',', '\n']) { format!("\"{}\"", s.replace('"', "\"\"")) } else { s.into() } }
    fn row(r: &[MVal]) -> MR<String> { Ok(r.iter().map(|x| Ok(cell(&x.as_text()?))).collect::<MR<Vec<_>>>()?.join(",")) }
    let items = v.as_list()?.items.borrow().clone();
    if items.iter().any(|x| matches!(x, List(_))) {
        Ok(items.iter().map(|r| row(&r.as_list()?.items.borrow().clone())).collect::<MR<Vec<_>>>()?.join("\n"))
    } else { row(&items) }
}
pub fn parse_csv(s: &str) -> MR<MVal> {
    if s.is_empty() { return Ok(mlist(vec![])) }
    let c: Vec<char> = s.chars().collect();
    let mut rows: Vec<Vec<String>> = vec![vec![]];
    let mut i = 0;
    loop {
        let mut f = String::new();
        if c.get(i) == Some(&'"') {
            i += 1;
            loop {
                match c.get(i) {
                    None => return err("NotCsv"),
                    Some('"') if c.get(i + 1) == Some(&'"') => { f.push('"'); i += 2; }
                    Some('"') => { i += 1; break }
                    Some(x) => { f.push(*x); i += 1; }
                }
            }
            if !matches!(c.get(i), None | Some(',') | Some('\n')) { return err("NotCsv") }
        } else {
            while let Some(x) = c.get(i) {
                if *x == ',' || *x == '\n' { break }
                if *x == '"' { return err("NotCsv") }
                f.push(*x); i += 1;
            }
        }
        rows.last_mut().unwrap().push(f);
        match c.get(i) {
            None => break,
            Some(',') => i += 1,
            Some(_) => { rows.push(vec![]); i += 1; }
        }
    }
    Ok(mlist(rows.into_iter().map(|r| mlist(r.iter().map(|x| text(x)).collect())).collect()))
}
pub fn from_json(j: &Json) -> MR<MVal> {
    Ok(match j {
        Json::Null => return err("FromJsonError"),
        Json::Bool(x) => Bool(*x),
        Json::Number(x) => Num(nz(x.as_f64().unwrap())),
        Json::String(x) => text(x),
        Json::Array(x) => mlist(x.iter().map(from_json).collect::<MR<_>>()?),
        Json::Object(x) => mlist(x.iter().map(|(k, v)| Ok(mlist(vec![text(k), from_json(v)?]))).collect::<MR<_>>()?),
    })
}
/// `media`: allow images and sounds (network form) instead of rejecting them.
pub fn to_json(v: &MVal, media: bool) -> MR<Json> {
    fn check(v: &MVal, open: &mut Vec<usize>) -> MR<()> {
        spend(1)?;
        match v {
            List(l) => {
                let id = Rc::as_ptr(l) as usize;
                if open.contains(&id) { return err("ToSimpleError") }
                open.push(id);
                for x in l.items.borrow().iter() { check(x, open)?; }
                open.pop();
                Ok(())
            }
            Ring(_) | Ent(_) | Native(_) => err("ToSimpleError"),
            _ => Ok(()),
        }
    }
    fn go(v: &MVal, media: bool) -> MR<Json> {
        Ok(match v {
            Bool(x) => Json::Bool(*x),
            Num(x) => Json::Number(serde_json::Number::from_f64(*x).unwrap()),
            Text(x) => Json::String(x.to_string()),
            List(l) => Json::Array(l.items.borrow().iter().map(|x| go(x, media)).collect::<MR<_>>()?),
            Img(x) if media => Json::String(format!("<image {}>", x.name)),
            Aud(x) if media => Json::String(format!("<audio {}>", x.name)),
            _ => return err("IntoJsonError"),
        })
    }
    check(v, &mut vec![])?;
    go(v, media)
}
/// Does the list contain itself, at any depth?
pub fn is_cyclic(v: &MVal) -> bool { matches!(flatten(v), Err(MErr { kind: "CyclicValue", .. })) }
