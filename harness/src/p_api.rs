//! Properties decided directly on the public value-level API.
use crate::tape::{Gen, Rng};
use crate::runner::*;
use crate::gens::*;
use crate::vm::*;
use netsblox_vm as nb;
use nb::gc::*;
use nb::runtime::*;
use nb::json::{Json, json};
use nb::slotmap::SlotMap;
use nb::slotmap::Key as _;
use nb::vecmap::{VecMap, Entry};
use std::collections::BTreeMap;
use std::rc::Rc;

macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)) } } }
pub(crate) use ensure;

// ------------------------------------------------------------------ C28 JSON

pub fn json_doc(g: &mut Gen, depth: usize, null: bool) -> Json {
    match g.weighted(&[3, 3, 2, if depth > 0 { 3 } else { 0 }, if depth > 0 { 2 } else { 0 }, if null { 1 } else { 0 }]) {
        0 => { let x = finite(g); if g.bool() && x.fract() == 0.0 && x.abs() < 1e15 { json!(x as i64) } else { json!(x) } }
        1 => json!(text(g)),
        2 => json!(g.bool()),
        3 => { let n = g.len(5); Json::Array((0..n).map(|_| json_doc(g, depth - 1, null)).collect()) }
        4 => { let n = g.len(4); Json::Object((0..n).map(|_| (text(g), json_doc(g, depth - 1, null))).collect()) }
        _ => Json::Null,
    }
}
pub fn has_null(j: &Json) -> bool { match j { Json::Null => true, Json::Array(x) => x.iter().any(has_null), Json::Object(x) => x.values().any(has_null), _ => false } }
/// What a document should become: objects turn into lists of [key, value] pairs.
pub fn doc_expect(j: &Json) -> SimpleValue {
    match j {
        Json::Null => unreachable!(),
        Json::Bool(x) => SimpleValue::Bool(*x),
        Json::Number(x) => SimpleValue::Number(Number::new(x.as_f64().unwrap()).unwrap()),
        Json::String(x) => SimpleValue::Text(x.as_str().into()),
        Json::Array(x) => SimpleValue::List(x.iter().map(doc_expect).collect()),
        Json::Object(x) => SimpleValue::List(x.iter().map(|(k, v)| SimpleValue::List(vec![SimpleValue::Text(k.as_str().into()), doc_expect(v)])).collect()),
    }
}
fn json_eq(a: &Json, b: &Json) -> bool {
    match (a, b) {
        (Json::Number(x), Json::Number(y)) => x.as_f64() == y.as_f64(),
        (Json::Array(x), Json::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| json_eq(a, b)),
        (Json::Object(x), Json::Object(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, a), (l, b))| k == l && json_eq(a, b)),
        _ => a == b,
    }
}
/// As `json_eq`, but for documents read back from text: the JSON reader itself is off by an ulp for some
/// numbers (recorded finding of C31), so numbers only have to agree to about 15 digits.
pub fn json_near(a: &Json, b: &Json) -> bool {
    match (a, b) {
        (Json::Number(x), Json::Number(y)) => num_eq(x.as_f64().unwrap(), y.as_f64().unwrap()),
        (Json::Array(x), Json::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| json_near(a, b)),
        (Json::Object(x), Json::Object(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, a), (l, b))| k == l && json_near(a, b)),
        _ => a == b,
    }
}
pub fn near(a: &SimpleValue, b: &SimpleValue) -> bool {
    match (a, b) {
        (SimpleValue::Number(x), SimpleValue::Number(y)) => num_eq(x.get(), y.get()),
        (SimpleValue::List(x), SimpleValue::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| near(a, b)),
        _ => same(a, b),
    }
}
fn same(a: &SimpleValue, b: &SimpleValue) -> bool {
    match (a, b) {
        (SimpleValue::Number(x), SimpleValue::Number(y)) => x.get() == y.get(),
        (SimpleValue::Bool(x), SimpleValue::Bool(y)) => x == y,
        (SimpleValue::Text(x), SimpleValue::Text(y)) => x == y,
        (SimpleValue::List(x), SimpleValue::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (SimpleValue::Image(x), SimpleValue::Image(y)) => x.content == y.content && x.name == y.name && x.center.map(|c| (c.0.get(), c.1.get())) == y.center.map(|c| (c.0.get(), c.1.get())),
        (SimpleValue::Audio(x), SimpleValue::Audio(y)) => x.content == y.content && x.name == y.name,
        _ => false,
    }
}
fn expect_json(v: &SimpleValue) -> Json {
    match v {
        SimpleValue::Bool(x) => json!(x),
        SimpleValue::Number(x) => json!(x.get()),
        SimpleValue::Text(x) => json!(x.as_str()),
        SimpleValue::List(x) => Json::Array(x.iter().map(expect_json).collect()),
        _ => unreachable!(),
    }
}
fn c28_values(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let v = simple(g, 4, false);
    cx.nt_if(simple_size(&v) > 2);
    cx.sample(|| format!("{v:?}"));
    let j = match v.clone().into_json::<C, Sys>() { Ok(j) => j, Err(e) => return Err(format!("{v:?} did not convert: {e:?}")) };
    ensure!(json_eq(&j, &expect_json(&v)), "{v:?} became document {j}");
    // through text, as a host would send it
    let text = j.to_string();
    let j2: Json = serde_json::from_str(&text).map_err(|e| format!("{v:?} wrote invalid JSON {text}: {e}"))?;
    let back = SimpleValue::from_json(j.clone()).map_err(|e| format!("{v:?} did not come back: {e:?}"))?;
    ensure!(same(&v, &back), "{v:?} came back as {back:?}");
    ensure!(json_near(&j, &j2), "{v:?}: document changed through text {text}");
    // plain lists nested anywhere in media are refused
    let img = SimpleValue::List(vec![v.clone(), SimpleValue::Image(Image { content: vec![1], center: None, name: "x".into() })]);
    ensure!(img.into_json::<C, Sys>().is_err(), "media converted to JSON");
    let aud = SimpleValue::List(vec![SimpleValue::List(vec![SimpleValue::Audio(Audio { content: vec![1], name: "x".into() })]), v.clone()]);
    ensure!(aud.into_json::<C, Sys>().is_err(), "media converted to JSON");
    Ok(())
}
fn c28_docs(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let null = g.chance(1, 4);
    let j = json_doc(g, 4, null);
    cx.nt_if(j.is_array() || j.is_object());
    cx.label_if(has_null(&j), "has null");
    cx.sample(|| j.to_string());
    let r = SimpleValue::from_json(j.clone());
    if has_null(&j) { ensure!(r.is_err(), "{j} with null was accepted: {r:?}"); return Ok(()) }
    let v = r.map_err(|e| format!("{j} refused: {e:?}"))?;
    ensure!(same(&v, &doc_expect(&j)), "{j} became {v:?}");
    // a text document parsed by the real JSON reader: numbers outside the double range are an error of the reader or the conversion, never a panic
    let big = format!("[{}1e{}]", if g.bool() { "-" } else { "" }, g.range(280, 400));
    if let Ok(j) = serde_json::from_str::<Json>(&big) { let _ = SimpleValue::from_json(j); }
    Ok(())
}
/// Runtime values: random list graphs through to_simple / from_simple.
fn c28_graphs(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let n = 1 + g.below(6);
    let spec: Vec<Vec<(usize, f64, String)>> = (0..n).map(|_| { let m = g.len(4); (0..m).map(|_| match g.below(3) { 0 => (usize::MAX, small_int(g), String::new()), 1 => (usize::MAX - 1, 0.0, word(g)), _ => (g.below(n), 0.0, String::new()) }).collect() }).collect();
    // cyclic if list 0 reaches a list that is on its own path
    fn cyclic(spec: &[Vec<(usize, f64, String)>], i: usize, path: &mut Vec<usize>) -> bool {
        if path.contains(&i) { return true }
        path.push(i);
        let r = spec[i].iter().any(|x| x.0 < spec.len() && cyclic(spec, x.0, path));
        path.pop();
        r
    }
    fn expect(spec: &[Vec<(usize, f64, String)>], i: usize) -> SimpleValue {
        SimpleValue::List(spec[i].iter().map(|x| if x.0 < spec.len() { expect(spec, x.0) } else if x.0 == usize::MAX { SimpleValue::Number(Number::new(x.1).unwrap()) } else { SimpleValue::Text(x.2.as_str().into()) }).collect())
    }
    let cyc = cyclic(&spec, 0, &mut vec![]);
    let shared = spec.iter().flatten().filter(|x| x.0 < n).count() > 1;
    cx.nt_if(shared || cyc); cx.label_if(cyc, "cyclic"); cx.label_if(shared && !cyc, "shared");
    cx.sample(|| format!("{spec:?}"));
    let want = if cyc { None } else { Some(expect(&spec, 0)) };
    EnvArena::new(|mc| {
        let mut env = empty_env_for();
        env.vals = (0..n).map(|_| Value::List(Gc::new(mc, Default::default()))).collect();
        env
    }).mutate(|mc, env| {
        for (i, items) in spec.iter().enumerate() {
            let list = env.vals[i].as_list().unwrap();
            for it in items {
                let v = if it.0 < n { env.vals[it.0].clone() } else if it.0 == usize::MAX { Number::new(it.1).unwrap().into() } else { Text::from(it.2.as_str()).into() };
                list.borrow_mut(mc).push_back(v);
            }
        }
        let before = snap1(&env.vals[0]);
        let r = env.vals[0].to_simple();
        ensure!(snap1(&env.vals[0]) == before, "conversion changed its source");
        match (r, want) {
            (Err(ToSimpleError::Cyclic), None) => Ok(()),
            (Err(e), None) => Err(format!("cyclic value reported as {e:?}")),
            (Err(e), Some(_)) => Err(format!("acyclic value refused: {e:?}")),
            (Ok(v), None) => Err(format!("cyclic value converted to {v:?}")),
            (Ok(v), Some(w)) => {
                ensure!(same(&v, &w), "converted to {v:?}, expected {w:?}");
                let back: Val = Value::from_simple(mc, v);
                let mut next = 0;
                ensure!(snap1(&back) == simple_to_snap(&w, &mut next), "instantiated as {}", snap1(&back));
                // the copy is independent of the source
                back.as_list().unwrap().borrow_mut(mc).push_back(true.into());
                ensure!(snap1(&env.vals[0]) == before, "conversion result aliases its source");
                Ok(())
            }
        }
    })
}
pub fn empty_env_for<'gc>() -> Env<'gc> { Env { glob: None, proj: None, procs: vec![], vals: vec![], watchers: vec![], deads: 0, other: None } }

// ------------------------------------------------------------------ C29 NetsBlox wire values

fn is_markup(t: &str) -> bool { t.contains('<') && (t.contains("costume") || t.contains("sound")) }
fn any_markup(v: &SimpleValue) -> bool { match v { SimpleValue::Text(t) => is_markup(t), SimpleValue::List(x) => x.iter().any(any_markup), _ => false } }
fn c29_roundtrip(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let v = simple(g, 3, true);
    fn media(v: &SimpleValue) -> bool { match v { SimpleValue::Image(_) | SimpleValue::Audio(_) => true, SimpleValue::List(x) => x.iter().any(media), _ => false } }
    if any_markup(&v) { return Ok(()) } // texts that are themselves media markup are media by definition of the format
    cx.nt_if(media(&v) || simple_size(&v) > 2); cx.label_if(media(&v), "with media");
    cx.sample(|| format!("{v:?}"));
    let j = v.clone().into_netsblox_json();
    let back = SimpleValue::from_netsblox_json(j.clone()).map_err(|e| format!("{v:?} sent as {j} did not come back: {e:?}"))?;
    ensure!(same(&v, &back), "{v:?} sent as {j} came back as {back:?}");
    let j2: Json = serde_json::from_str(&j.to_string()).unwrap();
    let back = SimpleValue::from_netsblox_json(j2).map_err(|e| format!("{v:?} sent as {j} did not come back through text: {e:?}"))?;
    ensure!(near(&v, &back), "{v:?} sent as text came back as {back:?}");
    Ok(())
}
const FRAGS: &[&str] = &["<costume", "<sound", "<costume ", "<sound ", "/>", ">", " />", "</costume>", " name=\"", " image=\"", " sound=\"", " center-x=\"", " center-y=\"", "\"", "data:image/png;base64,", "data:audio/mpeg;base64,", "data:image/png,", ";base64,", "AAAA", "AA==", "A", "1.5", "nan", "inf", "-2", "&amp;", "&", "<", "<!--", "-->", "<?xml ", "?>", "<![CDATA[", "]]>", "<!DOCTYPE", " ", "\n", "x", "=", "'", "<a:costume", " image='data:image/png;base64,AAAA'", "<Costume", "\u{feff}"];
fn c29_texts(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let n = g.len(10);
    let t: String = (0..n).map(|_| if g.chance(1, 8) { text(g) } else { g.pick(FRAGS).to_string() }).collect();
    cx.nt_if(t.contains('<'));
    cx.label_if(is_markup(&t), "media-like markup");
    cx.sample(|| format!("{t:?}"));
    let r = SimpleValue::from_netsblox_json(json!(t));
    if !is_markup(&t) {
        match &r { Ok(SimpleValue::Text(x)) if x.as_str() == t => (), _ => return Err(format!("plain text {t:?} arrived as {r:?}")) }
    } else {
        match &r {
            Ok(SimpleValue::Text(x)) => ensure!(x.as_str() == t, "text {t:?} arrived as different text {x:?}"),
            Ok(SimpleValue::Image(_)) => ensure!(t.contains("costume") && t.contains("data:image/") && t.contains(";base64,"), "{t:?} arrived as an image"),
            Ok(SimpleValue::Audio(_)) => ensure!(t.contains("<sound") && t.contains("data:audio/") && t.contains(";base64,"), "{t:?} arrived as a sound"),
            Ok(x) => return Err(format!("text {t:?} arrived as {x:?}")),
            Err(_) => (),
        }
    }
    Ok(())
}
/// Markup written by another implementation: attribute order, quoting, spacing and extra attributes vary.
fn c29_foreign(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let esc = |s: &str| s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&apos;");
    let q = if g.bool() { '"' } else { '\'' };
    let is_img = g.bool();
    let im = image(g);
    let b64 = b64(&im.content);
    let mut attrs: Vec<String> = vec![];
    let with_name = g.bool();
    if with_name { attrs.push(format!("name={q}{}{q}", esc(&im.name))); }
    if is_img { if let Some(c) = im.center { attrs.push(format!("center-x={q}{}{q}", c.0.get())); attrs.push(format!("center-y={q}{}{q}", c.1.get())); } }
    let mime = if is_img { g.pickc(&["png", "jpeg", "svg+xml", "gif"]) } else { g.pickc(&["mpeg", "wav", "ogg"]) };
    attrs.push(if is_img { format!("image={q}data:image/{mime};base64,{b64}{q}") } else { format!("sound={q}data:audio/{mime};base64,{b64}{q}") });
    if g.bool() { attrs.push(format!("mediaID={q}12{q}")); }
    // random order
    for i in (1..attrs.len()).rev() { let j = g.below(i + 1); attrs.swap(i, j); }
    let t = format!("<{} {}{}", if is_img { "costume" } else { "sound" }, attrs.join(g.pickc(&[" ", "  ", "\n"])), g.pickc(&["/>", " />", ">"]));
    cx.nt();
    cx.sample(|| t.clone());
    let name = if with_name { im.name.clone() } else { "untitled".into() };
    let want = if is_img { SimpleValue::Image(Image { content: im.content.clone(), center: im.center, name }) } else { SimpleValue::Audio(Audio { content: im.content.clone(), name }) };
    let r = SimpleValue::from_netsblox_json(json!([t])).map_err(|e| format!("{t:?} refused: {e:?}"))?;
    let SimpleValue::List(r) = r else { return Err("array did not arrive as a list".into()) };
    ensure!(r.len() == 1 && same(&r[0], &want), "{t:?} arrived as {r:?}, expected {want:?}");
    Ok(())
}
pub fn b64(data: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in data.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        s.push(T[(v >> 18) as usize & 63] as char); s.push(T[(v >> 12) as usize & 63] as char);
        s.push(if c.len() > 1 { T[(v >> 6) as usize & 63] as char } else { '=' });
        s.push(if c.len() > 2 { T[v as usize & 63] as char } else { '=' });
    }
    s
}
fn c29_docs(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let null = g.chance(1, 4);
    let j = json_doc(g, 4, null);
    fn mk(j: &Json) -> bool { match j { Json::String(s) => is_markup(s), Json::Array(x) => x.iter().any(mk), Json::Object(x) => x.values().any(mk), _ => false } }
    if mk(&j) { return Ok(()) }
    cx.nt_if(j.is_array() || j.is_object());
    cx.sample(|| j.to_string());
    let r = SimpleValue::from_netsblox_json(j.clone());
    if has_null(&j) { ensure!(r.is_err(), "{j} with null accepted: {r:?}"); return Ok(()) }
    let v = r.map_err(|e| format!("{j} refused: {e:?}"))?;
    ensure!(same(&v, &doc_expect(&j)), "{j} arrived as {v:?}");
    Ok(())
}

// ------------------------------------------------------------------ C30 numbers and texts

/// Does the text spell a number, by the documented rules (independent of the implementation's parser)?
pub fn ref_parse_number(s: &str) -> Option<f64> {
    let s = s.trim();
    let b = s.as_bytes();
    if b.len() >= 2 && b[0] == b'0' {
        let radix = match b[1] { b'x' | b'X' => 16, b'o' | b'O' => 8, b'b' | b'B' => 2, _ => 0 };
        if radix != 0 {
            let mut d = &s[2..];
            let mut neg = false;
            if let Some(r) = d.strip_prefix('-') { neg = true; d = r } else if let Some(r) = d.strip_prefix('+') { d = r }
            if d.is_empty() { return None }
            let mut v: i128 = 0;
            for c in d.chars() { v = v.checked_mul(radix as i128)?.checked_add(c.to_digit(radix)? as i128)?; if v > (1 << 70) { return None } }
            let v = if neg { -v } else { v };
            if v < i64::MIN as i128 || v > i64::MAX as i128 { return None }
            return Some(v as i64 as f64);
        }
    }
    // decimal: sign? (digits [. digits?] | . digits) (e sign? digits)?
    let mut i = 0;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') { i += 1; }
    let st = i; while i < b.len() && b[i].is_ascii_digit() { i += 1; }
    let mut nd = i - st;
    if i < b.len() && b[i] == b'.' { i += 1; let st = i; while i < b.len() && b[i].is_ascii_digit() { i += 1; } nd += i - st; }
    if nd == 0 { return None }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') { i += 1; }
        let st = i; while i < b.len() && b[i].is_ascii_digit() { i += 1; }
        if i == st { return None }
    }
    if i != b.len() { return None }
    let v: f64 = s.parse().ok()?;
    if v.is_finite() { Some(v) } else { None }
}
fn digits_of(s: &str) -> usize { let m = s.split(['e', 'E']).next().unwrap(); m.chars().filter(|c| c.is_ascii_digit()).collect::<String>().trim_matches('0').len() }
fn c30_print(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    for _ in 0..16 {
        let x = if g.bool() { finite(g) } else { let v = f64::from_bits(g.bits()); if v.is_finite() { v } else { 1.0 } };
        cx.evals += 1;
        cx.nt_if(x.fract() != 0.0 || x.abs() > 1e15);
        let n = Number::new(x).map_err(|e| format!("finite {x:?} refused: {e:?}"))?;
        ensure!(n.get() == x, "number object changed {x:?} to {:?}", n.get());
        let s = SimpleValue::stringify_number(n);
        let s = s.as_str();
        ensure!(s.parse::<f64>().ok() == Some(x), "{x:?} printed as {s:?} which is another number");
        let back = SimpleValue::parse_number(s).map(|v| v.get());
        ensure!(back == Some(x), "{x:?} printed as {s:?}, read back as {back:?}");
        let v: Val = n.into();
        ensure!(v.as_text().map(|t| t.as_str() == s).unwrap_or(false), "as text {x:?} is not {s:?}");
        // shortest: as many significant digits as the shortest round-trip form
        let short = format!("{x:e}");
        ensure!(digits_of(s) <= digits_of(&short), "{x:?} printed as {s:?}, not shortest ({short})");
        if x.fract() == 0.0 && x.abs() < 1e15 { ensure!(s == format!("{}", x as i64), "integer {x:?} printed as {s:?}"); }
        ensure!(!s.starts_with("-0") || s.starts_with("-0."), "negative zero printed as {s:?}");
        cx.sample(|| format!("{x:?} -> {s}"));
    }
    Ok(())
}
fn c30_parse(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    for _ in 0..16 {
        cx.evals += 1;
        let t = if g.chance(1, 4) { text(g) } else { numeric_text(g) };
        let want = ref_parse_number(&t);
        cx.nt_if(want.is_some()); cx.label(if want.is_some() { "numeric" } else { "not numeric" });
        cx.sample(|| format!("{t:?}"));
        let got = SimpleValue::parse_number(&t).map(|v| v.get());
        ensure!(got == want, "text {t:?} read as {got:?}, expected {want:?}");
        let v: Val = Text::from(t.as_str()).into();
        let got = v.as_number().ok().map(|x| x.get());
        ensure!(got == want, "text value {t:?} is number {got:?}, expected {want:?}");
        ensure!(v.as_text().unwrap().as_str() == t, "text of text {t:?} differs");
        if let Some(w) = want { let s = SimpleValue::stringify_number(Number::new(w).unwrap()); ensure!(SimpleValue::parse_number(s.as_str()).map(|v| v.get()) == Some(w), "canonical text of {t:?} is not the same number"); }
        // non-finite never becomes a number
        for bad in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN] { ensure!(Number::new(bad).is_err(), "{bad} became a number"); }
        let b: Val = g.bool().into();
        ensure!(b.as_number().is_err() && b.as_text().is_err(), "boolean coerced to number or text");
    }
    Ok(())
}

// ------------------------------------------------------------------ C33 colours

fn ref_hsv_to_rgb(h: f64, s: f64, v: f64) -> [f64; 3] {
    let h = h.rem_euclid(360.0);
    // textbook formula f(n) = v - v*s*max(0, min(k, 4-k, 1)), k = (n + h/60) mod 6
    let f = |n: f64| { let k = (n + h / 60.0) % 6.0; v - v * s * k.min(4.0 - k).min(1.0).max(0.0) };
    [f(5.0), f(3.0), f(1.0)]
}
fn check_color(c: Color) -> CheckResult {
    let (h, s, v, a) = c.to_hsva();
    ensure!((0.0..360.0).contains(&h) && (0.0..=1.0).contains(&s) && (0.0..=1.0).contains(&v) && (0.0..=1.0).contains(&a), "{c:?} has hsva {:?}", (h, s, v, a));
    let d = Color::from_hsva(h, s, v, a);
    for (x, y) in [(c.r, d.r), (c.g, d.g), (c.b, d.b), (c.a, d.a)] { ensure!((x as i32 - y as i32).abs() <= 1, "{c:?} -> {:?} -> {d:?}", (h, s, v, a)); }
    // the forward direction is the textbook inverse as well, so that the two are not merely consistent with each other
    let want = ref_hsv_to_rgb(h as f64, s as f64, v as f64);
    for (x, w) in [c.r, c.g, c.b].iter().zip(want) { ensure!((*x as f64 - w * 255.0).abs() <= 1.0, "{c:?} to hsv {:?} means {want:?}", (h, s, v)); }
    Ok(())
}
fn c33_rgb(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let base = g.bits() as u32;
    let a = g.below(256) as u8;
    cx.nt();
    cx.sample(|| format!("256x blue/green sweep from {base:08x}, alpha {a}"));
    for i in 0..512u32 {
        cx.evals += 1;
        let x = base.wrapping_add(i.wrapping_mul(if i < 256 { 1 } else { 0x00010203 }));
        let c = Color { r: (x >> 16) as u8, g: (x >> 8) as u8, b: x as u8, a };
        check_color(c)?;
    }
    Ok(())
}
fn c33_pack(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    cx.nt();
    for _ in 0..64 {
        cx.evals += 1;
        let x = g.bits() as u32;
        cx.sample(|| format!("{x:08x}"));
        // observable through the pen colour: packed value set, then read
        let mut p = Properties::default();
        let r = set_prop(&mut p, Property::PenColor, Number::new(x as f64).unwrap().into());
        ensure!(r.is_ok(), "setting pen colour {x:08x} failed: {r:?}");
        let got = get_num(&p, Property::PenColor)?;
        let (a, b) = ((x as u32).to_be_bytes(), (got as u32).to_be_bytes());
        for i in 0..4 { ensure!((a[i] as i32 - b[i] as i32).abs() <= 1, "packed colour {x:08x} reads back as {:08x}", got as u32); }
    }
    Ok(())
}
pub fn set_prop(p: &mut Properties, prop: Property, v: Val<'_>) -> Result<(), String> {
    let cell = Rc::new(std::cell::RefCell::new(AsyncResult::new()));
    match p.perform_set_property::<C, Sys>(CmdKey(cell.clone(), std::cell::Cell::new(0)), prop, v) { CommandStatus::Handled => (), _ => return Err("not handled".into()) }
    match cell.borrow_mut().poll() { AsyncResult::Completed(r) => r.map_err(|e| e.to_string()), _ => Err("pending".into()) }
}
pub fn change_prop(p: &mut Properties, prop: Property, v: Val<'_>) -> Result<(), String> {
    let cell = Rc::new(std::cell::RefCell::new(AsyncResult::new()));
    match p.perform_change_property::<C, Sys>(CmdKey(cell.clone(), std::cell::Cell::new(0)), prop, v) { CommandStatus::Handled => (), _ => return Err("not handled".into()) }
    match cell.borrow_mut().poll() { AsyncResult::Completed(r) => r.map_err(|e| e.to_string()), _ => Err("pending".into()) }
}
pub fn get_prop(p: &Properties, prop: Property) -> Result<SimpleValue, String> {
    let cell = Rc::new(std::cell::RefCell::new(AsyncResult::new()));
    match p.perform_get_property::<C, Sys>(ReqKey(cell.clone(), std::cell::Cell::new(0)), prop) { RequestStatus::Handled => (), _ => return Err("not handled".into()) }
    match cell.borrow_mut().poll() { AsyncResult::Completed(Ok(Inter::Simple(v))) => Ok(v), AsyncResult::Completed(Err(e)) => Err(e.to_string()), _ => Err("pending".into()) }
}
pub fn get_num(p: &Properties, prop: Property) -> Result<f64, String> {
    match get_prop(p, prop)? { SimpleValue::Number(x) => Ok(x.get()), x => Err(format!("{prop:?} is {x:?}")) }
}
fn c33_hsv(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    cx.nt();
    for _ in 0..64 {
        cx.evals += 1;
        let h = match g.below(5) { 0 => g.range(-2, 8) as f32 * 60.0, 1 => g.range(-200000, 200000) as f32 / 100.0, 2 => g.range(0, 36000) as f32 / 100.0, 3 => { let k = g.range(-6, 12) as f32 * 60.0; if g.bool() { f32::from_bits(k.to_bits().wrapping_add(1)) } else { f32::from_bits(k.to_bits().wrapping_sub(1)) } }, _ => g.pickc(&[-1e-30f32, 1e-30, -1e-7, 359.99997, 360.0, -360.0, 720.0, 1e6, -1e6]) };
        let h = if h.is_finite() { h } else { 0.0 };
        let unit = |g: &mut Gen| match g.below(4) { 0 => 0.0, 1 => 1.0, _ => g.below(1001) as f32 / 1000.0 };
        let (s, v, a) = (unit(g), unit(g), unit(g));
        cx.sample(|| format!("{:?}", (h, s, v, a)));
        let c = Color::from_hsva(h, s, v, a);
        let want = ref_hsv_to_rgb(h as f64, s as f64, v as f64);
        for (x, w) in [c.r, c.g, c.b].iter().zip(want) { ensure!((*x as f64 - w * 255.0).abs() <= 0.51 + if h.abs() > 1000.0 { 16.0 } else { 0.02 }, "hsv {:?} became {c:?}, expected {want:?}", (h, s, v)); }
        ensure!((c.a as f64 - a as f64 * 255.0).abs() <= 0.51, "alpha {a} became {}", c.a);
        // out of range components clamp
        let d = Color::from_hsva(h, s + if s == 1.0 { 3.5 } else { 0.0 }, if v == 0.0 { -2.0 } else { v }, if a == 1.0 { 9.0 } else { a });
        ensure!(c == d, "clamping of {:?} differs", (h, s, v, a));
    }
    Ok(())
}

// ------------------------------------------------------------------ C34 notes (names and numbers)

pub fn ref_note(name: &str) -> Option<i64> {
    let t = name.trim();
    let mut it = t.chars();
    let letter = it.next()?.to_ascii_uppercase();
    let semis = match letter { 'C' => 0i128, 'D' => 2, 'E' => 4, 'F' => 5, 'G' => 7, 'A' => 9, 'B' => 11, _ => return None };
    let rest: Vec<char> = it.collect();
    let mut octave: Option<i128> = None;
    let mut delta = 0i128;
    let mut i = 0;
    while i < rest.len() {
        match rest[i] {
            's' | '#' | '♯' => { delta += 1; i += 1 }
            'b' | '♭' => { delta -= 1; i += 1 }
            'n' | '♮' => i += 1,
            c if c == '+' || c == '-' || c.is_ascii_digit() => {
                if octave.is_some() { return None }
                let neg = c == '-';
                let mut digits = String::new();
                if c.is_ascii_digit() { digits.push(c); }
                i += 1;
                while i < rest.len() && rest[i].is_ascii_digit() { digits.push(rest[i]); i += 1; }
                if digits.is_empty() { return None }
                let d = digits.trim_start_matches('0');
                let v: i128 = if d.is_empty() { 0 } else if d.len() > 20 { 1 << 80 } else { d.parse().unwrap() };
                octave = Some(if neg { -v } else { v });
            }
            _ => return None,
        }
    }
    let midi = 12 * (octave? + 1) + semis + delta;
    if (0..128).contains(&midi) { Some(midi as i64) } else { None }
}
pub fn note_text(g: &mut Gen) -> String {
    let mut s = String::new();
    if g.chance(1, 10) { s.push_str(g.pick(&[" ", "\t"])); }
    s.push_str(g.pick(&["C", "D", "E", "F", "G", "A", "B", "c", "a", "g", "b", "H", "", "x", "♯"]));
    let acc = |g: &mut Gen, s: &mut String| { let n = if g.chance(1, 30) { g.below(300) } else { g.weighted(&[6, 3, 1]) }; let a = *g.pick(&["#", "s", "♯", "b", "♭", "n", "♮"]); for _ in 0..n { s.push_str(a); } };
    acc(g, &mut s);
    match g.weighted(&[10, 3, 2, 1, 1]) {
        0 => s.push_str(&g.range(-1, 9).to_string()),
        1 => s.push_str(&g.range(-30, 40).to_string()),
        2 => s.push_str(&format!("+{}", g.below(12))),
        3 => s.push_str(&g.pickc(&["178956970", "178956971", "2147483647", "-2147483648", "2147483648", "99999999999999999999", "000000004", "21", "20", "22", "-", "+", "4.5", "--1", "٣"])),
        _ => (),
    }
    acc(g, &mut s);
    if g.chance(1, 15) { s.push_str(g.pick(&[" ", "x", "4", "#5", "\n"])); }
    s
}
fn c34_names(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    for _ in 0..16 {
        cx.evals += 1;
        let t = if g.chance(1, 12) { text(g) } else { note_text(g) };
        let want = ref_note(&t);
        cx.nt_if(want.is_some()); cx.label(if want.is_some() { "valid" } else { "invalid" });
        cx.sample(|| format!("{t:?}"));
        let got = Note::from_name(&t);
        ensure!(got.map(|n| n.get_midi().0 as i64) == want, "note name {t:?} is {:?}, expected {want:?}", got.map(|n| n.get_midi()));
        if let Some(n) = got { ensure!(n.get_midi().1 == t.trim().chars().skip(1).any(|c| "s#♯b♭n♮".contains(c)), "note name {t:?} carries a sign: {}", n.get_midi().1); check_note(n, &t)?; }
    }
    Ok(())
}
fn check_note(n: Note, what: &str) -> CheckResult {
    let midi = n.get_midi().0;
    for sharps in [true, false] {
        let name = n.get_name(sharps);
        let back = Note::from_name(&name);
        ensure!(back.map(|x| x.get_midi().0) == Some(midi), "{what} (midi {midi}) is named {name}, which is {:?}", back.map(|x| x.get_midi()));
        ensure!(ref_note(&name) == Some(midi as i64), "{what} (midi {midi}) is named {name}");
        let l = name.chars().next().unwrap();
        ensure!(l.is_ascii_uppercase() && !(sharps && name.contains('b')) && !(!sharps && name.contains('#')), "{what}: {name} is not in the requested spelling");
    }
    let f = n.get_frequency().get();
    let want = 440.0 * 2f64.powf((midi as f64 - 69.0) / 12.0);
    ensure!((f - want).abs() < 1e-6 * want, "{what} (midi {midi}) has frequency {f}, expected {want}");
    Ok(())
}
fn c34_midi(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let v = g.below(256) as u8; let nat = g.bool();
    cx.nt_if(v < 128);
    cx.sample(|| format!("midi {v} natural {nat}"));
    let n = Note::from_midi(v, nat);
    ensure!(n.is_some() == (v < 128), "midi {v} accepted: {}", n.is_some());
    if let Some(n) = n { ensure!(n.get_midi() == (v, nat), "midi {v} natural {nat} reads {:?}", n.get_midi()); check_note(n, &format!("midi {v} natural {nat}"))?; }
    Ok(())
}

// ------------------------------------------------------------------ C35 collections

nb::new_key! { struct K; }
fn c35_slotmap(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let mut m: SlotMap<K, u64> = SlotMap::new();
    let mut live: BTreeMap<K, u64> = BTreeMap::new();
    let mut dead: Vec<K> = vec![];
    let mut log = String::new();
    let mut uniq = 0;
    let n = 2 + g.len(60);
    let mut reused = false;
    for _ in 0..n {
        cx.evals += 1;
        match g.weighted(&[8, 6, 1, 2, 2, 2, 1]) {
            0 => {
                uniq += 1;
                let k = m.insert(uniq); log += &format!("insert {uniq} -> {k:?}; ");
                ensure!(!live.contains_key(&k), "{log}: key of a live item handed out again");
                ensure!(!dead.contains(&k), "{log}: key of a removed item handed out again");
                reused |= dead.iter().any(|d| d.get_slot() == k.get_slot());
                live.insert(k, uniq);
            }
            1 => {
                let ks: Vec<K> = live.keys().copied().collect();
                if ks.is_empty() { continue }
                let k = *g.pick(&ks);
                let r = m.remove(k); log += &format!("remove {k:?} -> {r:?}; ");
                ensure!(r == live.remove(&k), "{log}: wrong removal result");
                dead.push(k);
            }
            2 => { m.clear(); log += "clear; "; dead.extend(live.keys()); live.clear(); }
            3 => {
                let md = 2 + g.below(3) as u64;
                let mut seen = vec![];
                m.retain_mut(|k, v| { seen.push((k, *v)); *v += 1000; *v % md != 0 });
                log += &format!("retain %{md}; ");
                seen.sort(); let want: Vec<(K, u64)> = live.iter().map(|(k, v)| (*k, *v)).collect();
                ensure!(seen == want, "{log}: retain visited {seen:?}, live {want:?}");
                for v in live.values_mut() { *v += 1000; }
                let gone: Vec<K> = live.iter().filter(|(_, v)| **v % md == 0).map(|(k, _)| *k).collect();
                for k in gone { live.remove(&k); dead.push(k); }
            }
            4 => { if dead.is_empty() { continue } let k = *g.pick(&dead); let r = m.remove(k); log += &format!("remove dead {k:?}; "); ensure!(r.is_none(), "{log}: removed key removed {r:?}"); }
            5 => { for (k, v) in m.iter_mut() { *v += 7; if let Some(x) = live.get_mut(&k) { *x += 7; } else { return Err(format!("{log}: iter_mut visits {k:?} which is not live")) } } log += "iter_mut; "; }
            _ => { let ks: Vec<K> = live.keys().copied().collect(); if ks.is_empty() { continue } let k = *g.pick(&ks); *m.get_mut(k).ok_or_else(|| format!("{log}: live key not found"))? = 5; live.insert(k, 5); }
        }
        ensure!(m.len() == live.len() && m.is_empty() == live.is_empty(), "{log}: len {} but {} live", m.len(), live.len());
        let mut got: Vec<(K, u64)> = m.iter().map(|(k, v)| (k, *v)).collect(); got.sort();
        let want: Vec<(K, u64)> = live.iter().map(|(k, v)| (*k, *v)).collect();
        ensure!(got == want, "{log}: iteration {got:?}, live {want:?}");
        for (k, v) in &live { ensure!(m.get(*k) == Some(v), "{log}: {k:?} is {:?}, expected {v}", m.get(*k)); }
        for k in &dead { if live.contains_key(k) { continue } ensure!(m.get(*k).is_none() && m.get_mut(*k).is_none(), "{log}: removed key {k:?} resolves"); }
    }
    cx.nt_if(reused); cx.label_if(reused, "slot reused");
    cx.sample(|| log.clone());
    let c = m.clone();
    let mut got: Vec<(K, u64)> = c.into_iter().collect(); got.sort();
    ensure!(got == live.into_iter().collect::<Vec<_>>(), "{log}: consuming iteration differs");
    Ok(())
}
fn c35_vecmap_impl<const SORTED: bool>(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let mut m: VecMap<String, u32, SORTED> = if g.bool() { VecMap::new() } else { VecMap::with_capacity(g.below(8)) };
    let mut model: Vec<(String, u32)> = vec![];
    let mut log = String::new();
    let n = 1 + g.len(50);
    let mut overwritten = false;
    for i in 0..n {
        cx.evals += 1;
        let key = g.pickc(&["m", "a", "b", "zz", "", "A", "ä", "aa", "ab", "z", "n", "日"]).to_string();
        match g.weighted(&[6, 3, 2, 1]) {
            0 => {
                let r = m.insert(key.clone(), i as u32); log += &format!("insert {key:?}; ");
                let old = match model.iter_mut().find(|e| e.0 == key) { Some(e) => { overwritten = true; Some(std::mem::replace(&mut e.1, i as u32)) } None => { model.push((key, i as u32)); None } };
                ensure!(r == old, "{log}: insert returned {r:?}, expected {old:?}");
                if SORTED { model.sort(); }
            }
            1 => { let want = model.iter().find(|e| e.0 == key).map(|e| e.1); ensure!(m.get(key.as_str()).copied() == want, "{log}: get {key:?} is {:?}, expected {want:?}", m.get(key.as_str())); }
            2 => { let w = model.iter_mut().find(|e| e.0 == key); match (m.get_mut(key.as_str()), w) { (Some(x), Some(y)) => { *x += 1; y.1 += 1; } (None, None) => (), (a, b) => return Err(format!("{log}: get_mut {key:?} is {a:?}, expected {b:?}")) } }
            _ => { for (_, v) in m.iter_mut() { *v += 3; } for e in &mut model { e.1 += 3; } }
        }
        ensure!(m.len() == model.len() && m.is_empty() == model.is_empty(), "{log}: len");
        let got: Vec<(String, u32)> = m.iter().map(|(k, v)| (k.clone(), *v)).collect();
        ensure!(got == model, "{log}: iterates {got:?}, expected {model:?}");
        let got: Vec<(String, u32)> = m.as_slice().iter().map(|e| (e.key.clone(), e.value)).collect();
        ensure!(got == model, "{log}: slice {got:?}, expected {model:?}");
    }
    cx.nt_if(overwritten && model.len() > 2);
    cx.sample(|| log.clone());
    let js = serde_json::to_string(&m).map_err(|e| format!("{log}: does not serialise: {e}"))?;
    let back: VecMap<String, u32, SORTED> = serde_json::from_str(&js).map_err(|e| format!("{log}: {js} does not deserialise: {e}"))?;
    let got: Vec<(String, u32)> = back.iter().map(|(k, v)| (k.clone(), *v)).collect();
    ensure!(got == model, "{log}: deserialised {got:?} from {js}");
    for e in &model { ensure!(back.get(e.0.as_str()) == Some(&e.1), "{log}: deserialised map does not find {:?}", e.0); }
    // building from pairs keeps the last value of each key
    let mut pairs = vec![]; let np = g.len(12); for i in 0..np { pairs.push((g.pickc(&["q", "a", "k", "b", "c"]).to_string(), i as u32)); }
    let from: VecMap<String, u32, SORTED> = pairs.iter().cloned().collect();
    let mut last: BTreeMap<String, u32> = BTreeMap::new(); for (k, v) in &pairs { last.insert(k.clone(), *v); }
    ensure!(from.len() == last.len(), "from pairs {pairs:?}: {} keys", from.len());
    for (k, v) in &last { ensure!(from.get(k.as_str()) == Some(v), "from pairs {pairs:?}: {k} is {:?}", from.get(k.as_str())); }
    let got: Vec<(String, u32)> = m.into_iter().collect();
    ensure!(got == model, "{log}: consuming iteration {got:?}");
    Ok(())
}
fn c35_vecmap(g: &mut Gen, cx: &mut Ctx) -> CheckResult { if g.bool() { c35_vecmap_impl::<true>(g, cx) } else { c35_vecmap_impl::<false>(g, cx) } }

/// Few places used very many times: no key of the past is ever good again.
fn c35_ages(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    let mut m: SlotMap<K, usize> = SlotMap::new();
    let width = 1 + g.below(4);
    let rounds = g.pickc(&[300usize, 1000, 5000, 33_000, 66_000, 132_000]) + g.below(3000);
    let mut live: Vec<(K, usize)> = (0..width).map(|i| (m.insert(i), i)).collect();
    // some keys of every age, and the very first of all
    let mut dead: Vec<K> = vec![];
    let mut n = width;
    let mode = g.below(4);
    for r in 0..rounds {
        let i = if mode == 3 { r % width } else { g.below(width) };
        let (k, v) = live[i];
        match mode {
            0 => { m.retain_mut(|x, _| x != k); }
            1 if r % 7 == 0 => { m.clear(); for e in live.iter_mut() { if e.0 != k { dead.push(e.0); e.1 = n; n += 1; e.0 = m.insert(e.1); } } }
            _ => ensure!(m.remove(k) == Some(v), "round {r}: {k:?} does not remove {v}"),
        }
        if dead.len() < 64 { dead.push(k) } else { let j = 32 + g.below(32); dead[j] = k; }
        live[i] = (m.insert(n), n);
        let (new, _) = live[i];
        n += 1;
        let d = dead[r % dead.len()];
        ensure!(d != new && m.get(d).is_none() && m.get_mut(d).is_none() && m.remove(d).is_none(), "round {r} of {width} places: the removed {d:?} finds something, the newest is {new:?}");
        // right after a key is given out, the keys of the first moments
        for d in dead.iter().take(8) { ensure!(*d != new && m.get(*d).is_none(), "round {r} of {width} places: the removed {d:?} finds something, the newest is {new:?}"); }
        ensure!(m.len() == width, "round {r}: {} live of {width}", m.len());
    }
    for (k, v) in &live { ensure!(m.get(*k) == Some(v), "after {rounds} rounds {k:?} is {:?}, expected {v}", m.get(*k)); }
    cx.nt_if(rounds > 65_536 * width.min(2));
    cx.label_if(rounds > 65_536 * width, "more than 65536 ages");
    cx.sample(|| format!("{width} places, {rounds} rounds, mode {mode}"));
    Ok(())
}
/// Maps and stores of hundreds and thousands of items.
fn c35_large(g: &mut Gen, cx: &mut Ctx) -> CheckResult {
    fn map<const SORTED: bool>(keys: &[u64], ask: &[u64]) -> CheckResult {
        let mut m: VecMap<String, usize, SORTED> = VecMap::new();
        let mut model: BTreeMap<String, usize> = BTreeMap::new();
        let mut order: Vec<String> = vec![];
        for (i, k) in keys.iter().enumerate() {
            let k = k.to_string();
            let (a, b) = (m.insert(k.clone(), i), model.insert(k.clone(), i));
            ensure!(a == b, "insert {k} as number {i} gives {a:?}, expected {b:?}");
            if b.is_none() { order.push(k) }
        }
        ensure!(m.len() == model.len(), "{} keys, expected {}", m.len(), model.len());
        for k in keys.iter().chain(ask) { let k = k.to_string(); ensure!(m.get(k.as_str()) == model.get(&k), "{k} among {} keys is {:?}, expected {:?}", m.len(), m.get(k.as_str()), model.get(&k)); }
        let got: Vec<(String, usize)> = m.iter().map(|(k, v)| (k.clone(), *v)).collect();
        let want: Vec<(String, usize)> = if SORTED { model.iter().map(|(k, v)| (k.clone(), *v)).collect() } else { order.iter().map(|k| (k.clone(), model[k])).collect() };
        ensure!(got == want, "{} keys iterate in another order", m.len());
        let from: VecMap<String, usize, SORTED> = keys.iter().enumerate().map(|(i, k)| (k.to_string(), i)).collect();
        ensure!(from.len() == model.len(), "from pairs: {} keys, expected {}", from.len(), model.len());
        for (k, v) in &model { ensure!(from.get(k.as_str()) == Some(v), "from pairs: {k} is {:?}, expected {v}", from.get(k.as_str())); }
        for (k, v) in m.into_iter() { ensure!(model.remove(&k) == Some(v), "consuming iteration gives {k}"); }
        Ok(())
    }
    let n = g.pickc(&[20usize, 40, 90, 140, 270, 520, 1100]) + g.below(30);
    let span = (n as u64) * g.pickc(&[1, 2, 50]);
    let keys: Vec<u64> = match g.below(3) { 0 => (0..n as u64).collect(), 1 => (0..n as u64).rev().collect(), _ => (0..n).map(|_| g.below(span as usize) as u64).collect() };
    let ask: Vec<u64> = (0..50).map(|_| g.below(span as usize) as u64).collect();
    map::<true>(&keys, &ask)?;
    map::<false>(&keys, &ask)?;
    let mut m: SlotMap<K, usize> = SlotMap::new();
    let ks: Vec<K> = (0..n).map(|i| m.insert(i)).collect();
    let gone: Vec<bool> = (0..n).map(|_| g.bool()).collect();
    for i in 0..n { if gone[i] { ensure!(m.remove(ks[i]) == Some(i), "{:?} does not remove {i} of {n}", ks[i]); } }
    let again: Vec<K> = (0..n / 2).map(|i| m.insert(n + i)).collect();
    for i in 0..n { ensure!(m.get(ks[i]).copied() == if gone[i] { None } else { Some(i) }, "{:?} of {n} is {:?}, gone: {}", ks[i], m.get(ks[i]), gone[i]); }
    for (i, k) in again.iter().enumerate() { ensure!(m.get(*k) == Some(&(n + i)), "{k:?}, inserted later, is {:?}", m.get(*k)); }
    let want = n - gone.iter().filter(|x| **x).count() + n / 2;
    ensure!(m.len() == want && m.iter().count() == want, "{} items, {} visited, expected {want}", m.len(), m.iter().count());
    cx.nt();
    cx.sample(|| format!("{n} keys"));
    Ok(())
}

pub fn properties() -> Vec<Claim> {
    vec![
        Claim { id: "C28", rule: "random plain values (depth<=4), random JSON documents, and random list graphs with sharing and cycles; non-trivial = nested, shared or cyclic", assumptions: &["numbers are finite doubles"],
            subs: vec![Sub { name: "values", run: c28_values, quick: 400_000, thorough: 6_000_000 }, Sub { name: "docs", run: c28_docs, quick: 400_000, thorough: 6_000_000 }, Sub { name: "graphs", run: c28_graphs, quick: 300_000, thorough: 4_000_000 }], probes: vec![] },
        Claim { id: "C29", rule: "random values with images and sounds, adversarial almost-markup texts, foreign-formatted markup and documents; non-trivial = contains media, markup or nesting", assumptions: &["media names contain only characters XML can carry", "texts that are complete media markup denote media (inherent to the format)"],
            subs: vec![Sub { name: "roundtrip", run: c29_roundtrip, quick: 300_000, thorough: 4_000_000 }, Sub { name: "texts", run: c29_texts, quick: 600_000, thorough: 8_000_000 }, Sub { name: "foreign", run: c29_foreign, quick: 200_000, thorough: 3_000_000 }, Sub { name: "docs", run: c29_docs, quick: 200_000, thorough: 3_000_000 }], probes: vec![] },
        Claim { id: "C30", rule: "random doubles (uniform bits and special regions) printed and parsed; random numeric-looking and other texts parsed against an independent grammar; non-trivial = non-integer or huge number / numeric text", assumptions: &["a radix literal holds a 64-bit signed integer, optionally signed after the prefix"],
            subs: vec![Sub { name: "print", run: c30_print, quick: 200_000, thorough: 3_000_000 }, Sub { name: "parse", run: c30_parse, quick: 200_000, thorough: 3_000_000 }], probes: vec![] },
        Claim { id: "C33", rule: "sweeps of RGB colours, packed values and HSVA quadruples incl. sector borders and out-of-range hues against the textbook formula; every case counts as non-trivial (colours are exercised in batches)", assumptions: &["hues beyond +-1000 are compared with a wide tolerance because of f32 rounding"],
            subs: vec![Sub { name: "rgb", run: c33_rgb, quick: 60_000, thorough: 1_000_000 }, Sub { name: "pack", run: c33_pack, quick: 40_000, thorough: 500_000 }, Sub { name: "hsv", run: c33_hsv, quick: 60_000, thorough: 1_000_000 }], probes: vec![] },
        Claim { id: "C35", rule: "random operation histories on the slot store and the small map against reference maps, all invariants checked after every operation; non-trivial = a slot was reused / a key overwritten among several; ages: few slots used up to 135,000 times, old keys tried all along (non-trivial = more than 65,536 times); large: up to 1,100 keys", assumptions: &[],
            subs: vec![Sub { name: "slotmap", run: c35_slotmap, quick: 120_000, thorough: 2_000_000 }, Sub { name: "vecmap", run: c35_vecmap, quick: 120_000, thorough: 2_000_000 }, Sub { name: "ages", run: c35_ages, quick: 600, thorough: 6_000 }, Sub { name: "large", run: c35_large, quick: 1_500, thorough: 60_000 }], probes: vec![] },
    ]
}
pub fn note_subs() -> Vec<Sub> {
    vec![Sub { name: "names", run: c34_names, quick: 150_000, thorough: 2_000_000 }, Sub { name: "midi", run: c34_midi, quick: 20_000, thorough: 20_000 }]
}
