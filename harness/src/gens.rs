//! Shared generators of numbers, texts and plain values.
use crate::tape::Gen;
use netsblox_vm as nb;
use nb::runtime::*;

pub fn small_int(g: &mut Gen) -> f64 { let v = g.below(21) as f64; if v > 10.0 { 10.0 - v } else { v } }

/// Any finite double, with the interesting regions over-represented.
pub fn finite(g: &mut Gen) -> f64 {
    match g.weighted(&[8, 3, 3, 2, 2, 2, 3, 1]) {
        0 => small_int(g),
        1 => g.range(-1000, 1000) as f64 / *g.pick(&[2.0, 4.0, 10.0, 100.0, 3.0, 7.0]),
        2 => g.range(-400, 400) as f64 * *g.pick(&[1.0, 15.0, 30.0, 45.0, 90.0, 180.0, 360.0, 0.5]),
        3 => { let m = g.range(-3, 3) as f64; let p = g.range(-60, 64) as i32; 2f64.powi(p) + m }
        4 => g.pickc(&[0.0, -0.0, 0.5, -0.5, 1.5, 2.5, -1.5, 1e308, -1e308, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 9007199254740991.0, 9007199254740992.0, 9007199254740993.0, -9007199254740992.0, 4294967295.0, 4294967296.0, 9.223372036854775807e18, 1.8446744073709552e19, 1e16, 1e15, 123456789012345680.0, 0.1, 0.2, 0.30000000000000004, 1e21, 1e22, 1e-7, 1e-5]),
        5 => g.range(-1_000_000_000_000, 1_000_000_000_000) as f64,
        6 => { let m = g.range(-99999, 99999) as f64; let e = g.range(-20, 20) as i32; m * 10f64.powi(e) }
        _ => { let v = f64::from_bits(g.bits()); if v.is_finite() { v } else { 0.0 } }
    }
}
pub fn num(g: &mut Gen) -> Number { Number::new(finite(g)).unwrap() }

const CHARS: &[&str] = &[
    "a", "b", "c", "A", "B", "z", "0", "1", "9", " ", "\t", "\n", "\r", "\r\n", ",", "\"", "'", "<", ">", "&", "/", "=", ";", "-", "+", ".", "e", "E", "x",
    "é", "e\u{301}", "n\u{303}", "ß", "ẞ", "İ", "ı", "ﬁ", "Σ", "ς", "σ", "日", "本", "😀", "👨‍👩‍👧", "🇩🇪", "👍🏽", "\u{200d}", "\u{301}", "\u{feff}", "한", "각", "क्षि", "\u{0}", "\u{1}", "\u{7f}", "\u{85}", "\u{2028}", "\u{a0}", "\u{3000}", "\u{10ffff}", "\\", "{", "}", "[", "]", ":", "_", "#", "♯", "♭",
];
pub fn text_chars(g: &mut Gen, max: usize) -> String {
    let n = g.len(max);
    let narrow = g.bool();
    (0..n).map(|_| if narrow { CHARS[g.below(12)] } else { CHARS[g.below(CHARS.len())] }).collect()
}
/// A text that often looks like a number.
pub fn numeric_text(g: &mut Gen) -> String {
    let body = match g.weighted(&[4, 2, 2, 2, 1, 2]) {
        0 => format!("{}", finite(g)),
        1 => format!("{:e}", finite(g)),
        2 => { let v = g.bits() >> g.below(64); let p = g.pickc(&["0x", "0X", "0o", "0O", "0b", "0B"]); match p.to_ascii_lowercase().as_str() { "0x" => if g.bool() { format!("{p}{v:x}") } else { format!("{p}{v:X}") }, "0o" => format!("{p}{v:o}"), _ => format!("{p}{v:b}") } }
        3 => g.pickc(&["1.", ".5", "+5", "-.5e3", "1e5", "1E+5", "1e-5", "00012", "1_000", "1,000", "0x", "0b2", "0o8", "0xfg", "--1", "+-1", "1e", "e5", ".", "", "inf", "-inf", "NaN", "nan", "infinity", "1e309", "-1e400", "1e-400", "0x1.8", "1 2", "١", "½", "１", "0x8000000000000000", "0xffffffffffffffff", "true", "1f", "1d", "0b", "0x_1", "-0", "-0x5", "0.1e1.5"]).to_string(),
        4 => text_chars(g, 4),
        _ => format!("{}", small_int(g)),
    };
    let w = [" ", "\t", "\n", "  ", "\u{a0}", "\u{3000}"];
    match g.below(4) { 0 | 1 => body, 2 => format!("{}{body}", g.pick(&w)), _ => format!("{}{body}{}", g.pick(&w), g.pick(&w)) }
}
pub fn word(g: &mut Gen) -> String { g.pickc(&["", "a", "b", "c", "A", "B", "foo", "Foo", "bar", "hello world", "test", "x", "10", "2", "1.5", "-3", "true", "é", "日本", "😀"]).to_string() }
pub fn text(g: &mut Gen) -> String {
    match g.weighted(&[4, 2, 4]) { 0 => word(g), 1 => numeric_text(g), _ => text_chars(g, 12) }
}
/// Text free of characters XML cannot carry.
pub fn xml_text(g: &mut Gen) -> String { text(g).chars().filter(|c| (*c >= ' ' && *c != '\u{7f}' && *c != '\u{feff}') || matches!(*c, '\n' | '\t' )).collect() }

fn bytes(g: &mut Gen) -> Vec<u8> {
    if g.chance(1, 12) {
        let n = g.pickc(&[48usize, 57, 58, 76, 100, 190, 255, 256, 1000, 4094, 8190]) + g.below(4);
        let (a, b) = (g.below(256), g.below(256));
        return (0..n).map(|i| (a + i * b + i * i / 7) as u8).collect()
    }
    let n = g.len(24);
    (0..n).map(|_| g.below(256) as u8).collect()
}
pub fn image(g: &mut Gen) -> Image {
    Image { content: bytes(g), center: if g.bool() { Some((num(g), num(g))) } else { None }, name: xml_text(g).into() }
}
pub fn audio(g: &mut Gen) -> Audio {
    Audio { content: bytes(g), name: xml_text(g).into() }
}
/// Long lists, long texts, tables and deep nesting.
pub fn large_simple(g: &mut Gen, media: bool) -> SimpleValue {
    let n = g.pickc(&[20usize, 33, 64, 65, 100, 128, 130, 257, 600]) + g.below(3);
    match g.below(4) {
        0 => { let some: Vec<SimpleValue> = (0..5).map(|_| simple(g, 1, media)).collect(); SimpleValue::List((0..n).map(|i| if i % 9 < 5 { some[i % 9].clone() } else { SimpleValue::Number(Number::new(i as f64 / 8.0).unwrap()) }).collect()) }
        1 => { let t = text(g); let u = text(g); let k = g.below(n); let mut s = String::new(); for i in 0..n { if i == k { s += &u } s += &t; } SimpleValue::Text(s.as_str().into()) }
        2 => { let mut v = simple(g, 1, media); for i in 0..n.min(100) { v = SimpleValue::List(if i % 3 == 0 { vec![SimpleValue::Bool(true), v] } else { vec![v] }); } v }
        _ => { let t = text(g); SimpleValue::List((0..n).map(|i| SimpleValue::List(vec![SimpleValue::Text(t.as_str().into()), SimpleValue::Number(Number::new(i as f64).unwrap())])).collect()) }
    }
}
pub fn simple(g: &mut Gen, depth: usize, media: bool) -> SimpleValue {
    if depth >= 3 && g.chance(1, 40) { return large_simple(g, media) }
    let k = g.weighted(&[2, 3, 3, if depth > 0 { 4 } else { 0 }, if media { 1 } else { 0 }, if media { 1 } else { 0 }]);
    match k {
        0 => SimpleValue::Number(num(g)),
        1 => SimpleValue::Text(text(g).into()),
        2 => SimpleValue::Bool(g.bool()),
        3 => { let n = g.len(6); SimpleValue::List((0..n).map(|_| simple(g, depth - 1, media)).collect()) }
        4 => SimpleValue::Image(image(g)),
        _ => SimpleValue::Audio(audio(g)),
    }
}
pub fn simple_size(v: &SimpleValue) -> usize { match v { SimpleValue::List(x) => 1 + x.iter().map(simple_size).sum::<usize>(), _ => 1 } }
