//! Value blocks: every operator is applied to generated values on the VM and on the reference definitions.
//! Each case is one script that builds a few values (with sharing and cycles), applies a series of blocks to
//! them, each inside its own try block, and reports the result together with every operand afterwards.
use crate::drive::*;
use crate::gens;
use crate::gprog::*;
use crate::runner::*;
use crate::tape::Gen;
use crate::vm::ast;
use ast::{ExprKind as E, StmtKind as S, Expr, Stmt, TextSplitMode as T};

#[derive(Clone, Copy, PartialEq)]
enum Fam { Scalar, Cast, Rel, Text, Mut, Lists, Data }
struct OG<'a> { g: &'a mut Gen, fam: Fam, n: usize, lists: Vec<usize>, scalars: Vec<usize>, cyclic: bool, big: bool }
const FOLD: &[&str] = &["a", "A", "b", "foo", "Foo", "FOO", "ß", "SS", "ss", "é", "É", "Σ", "ς", "σ", "", "ab", "10", "10.0", "1e1", " 10", "9", "true", "z"];

impl OG<'_> {
    fn number(&mut self) -> f64 {
        match self.fam {
            Fam::Scalar => gens::finite(self.g),
            Fam::Rel => match self.g.below(4) { 0 => gens::finite(self.g), _ => self.g.range(-2, 10) as f64 },
            _ => match self.g.weighted(&[10, 2, 1]) { 0 => self.g.range(-2, 6) as f64, 1 => self.g.range(-30, 30) as f64 / 4.0, _ => gens::finite(self.g) },
        }
    }
    fn scalar_value(&mut self) -> ast::Value {
        use ast::Value as V;
        if self.big && matches!(self.fam, Fam::Text | Fam::Rel | Fam::Data) && self.g.chance(1, 4) { return V::String(self.long_text().into()) }
        let w: &[usize] = match self.fam { Fam::Scalar => &[12, 4, 1, 1, 1, 3], Fam::Cast => &[14, 2, 1, 1, 1, 1], Fam::Rel => &[5, 2, 3, 8, 0, 1], Fam::Text => &[3, 2, 0, 4, 10, 0], Fam::Mut | Fam::Lists => &[10, 1, 2, 4, 1, 0], Fam::Data => &[6, 2, 1, 3, 6, 0] };
        match self.g.weighted(w) {
            0 => V::Number(self.number()),
            1 => V::String(gens::numeric_text(self.g).into()),
            2 => V::Bool(self.g.bool()),
            3 => V::String(self.g.pickc(FOLD).into()),
            4 => V::String(match self.fam { Fam::Data => self.csvish(), _ => gens::text_chars(self.g, 14) }.into()),
            _ => V::Constant(if self.g.bool() { ast::Constant::E } else { ast::Constant::Pi }),
        }
    }
    /// Hundreds of letters: a few pieces over and over, with something else somewhere.
    fn long_text(&mut self) -> String {
        let k = 1 + self.g.below(3);
        let pieces: Vec<String> = (0..k).map(|_| match self.fam { Fam::Data => self.csvish(), Fam::Rel => self.g.pickc(FOLD).to_string(), _ => gens::text_chars(self.g, 6) }).collect();
        let n = self.g.pickc(&[12usize, 30, 64, 100, 130, 260]);
        let odd = self.g.below(n + 1);
        let other = if self.g.bool() { String::new() } else { gens::text_chars(self.g, 2) };
        let mut s = String::new();
        for i in 0..n { if i == odd { s += &other } s += &pieces[i % k]; }
        s
    }
    fn many(&mut self) -> usize { self.g.pickc(&[18usize, 31, 33, 62, 64, 65, 100, 128, 130, 255, 257, 300]) + self.g.below(3) }
    /// Many items, mostly of one kind.
    fn items(&mut self) -> Vec<Expr> {
        use ast::Value as V;
        let n = self.many();
        let kind = self.g.below(6);
        let odd = self.g.below(n + n / 2);
        let base = self.g.pickc(&["Item", "item", "", "x", "É"]);
        let parts: Vec<f64> = (0..3).map(|_| self.number()).collect();
        (0..n).map(|i| if i == odd { if self.g.bool() { self.any() } else { self.scalar() } } else { match kind {
            0 => num(i as f64),
            1 => ex(E::Value(V::Number(parts[i % 3]))),
            2 => txt(&format!("{base}{i}")),
            3 => txt(["a", "B", "b", "A"][i % 4]),
            4 => if i % 2 == 0 { num((i / 2) as f64) } else { txt(&format!("{}", i / 2)) },
            _ => list(vec![num(i as f64), txt(base)]),
        } }).collect()
    }
    fn csvish(&mut self) -> String {
        let n = self.g.len(10);
        let j = self.g.chance(1, 3);
        (0..n).map(|_| if j { self.g.pickc(&["[", "]", "1", ",", "\"a\"", "true", "{", "}", ":", " ", "null", "-2.5", "\"\\u00e9\"", "\"k\"", "\n", "1e5", "\"", "0"]) } else { self.g.pickc(&["a", ",", "\"", "\n", "1", " ", "\"\"", "\r\n", "b c", "é", "'", "\t", "-2", "\"x,y\"", ";", "1.50", "\r"]) }).collect()
    }
    fn scalar(&mut self) -> Expr { ex(E::Value(self.scalar_value())) }
    fn var(&mut self) -> Expr { let i = self.g.below(self.n.max(1)); var(&format!("v{i}")) }
    fn lvar(&mut self) -> Expr { if self.lists.is_empty() { return list(vec![num(1.0), num(2.0)]) } let i = self.g.pickc(&self.lists); var(&format!("v{i}")) }
    /// Any operand.
    fn any(&mut self) -> Expr {
        if self.big && self.g.chance(1, 4) { let k = self.g.below(320); return match self.g.below(5) { 0 => num(k as f64), 1 => txt(&k.to_string()), _ => { let b = self.g.pickc(&["Item", "item", "ITEM", "x", "X", "é", "É"]); txt(&format!("{b}{k}")) } } }
        let w: &[usize] = match self.fam { Fam::Scalar => &[5, 8, 0, 0], Fam::Cast => &[9, 3, 3, 0], _ => &[8, 3, 2, 1] };
        match self.g.weighted(w) { 0 => if self.n > 0 { self.var() } else { self.scalar() }, 1 => self.scalar(), 2 => self.small_list(2), _ => self.odd() }
    }
    fn lst(&mut self) -> Expr { match self.g.weighted(&[8, 2, 1]) { 0 => self.lvar(), 1 => self.small_list(2), _ => self.any() } }
    fn odd(&mut self) -> Expr { match self.g.below(4) { 0 => ex(E::This), 1 => ring_e(&["n1"], &[], var("n1")), 2 => ex(E::Costume), _ => ex(E::SoundList) } }
    fn small_list(&mut self, depth: usize) -> Expr {
        let n = self.g.below(4);
        if self.g.chance(1, 5) { return ex(E::Value(ast::Value::List((0..n).map(|_| self.scalar_value()).collect(), None))) }
        let v = (0..n).map(|_| match self.g.below(5) { 0 if depth > 0 => self.small_list(depth - 1), 1 if self.n > 0 => self.var(), _ => self.scalar() }).collect();
        list(v)
    }
    fn table(&mut self) -> Expr {
        let (r, c) = if self.big && self.g.bool() { if self.g.chance(2, 3) { (20 + self.g.below(60), 1 + self.g.below(3)) } else { (1 + self.g.below(3), 30 + self.g.below(50)) } } else { (self.g.below(4), 1 + self.g.below(3)) };
        let ragged = self.g.chance(1, 4);
        let rows = (0..r).map(|_| { let c = if ragged { self.g.below(4) } else { c }; list((0..c).map(|_| self.scalar()).collect()) }).collect();
        list(rows)
    }
    fn variadic(&mut self) -> Expr {
        if self.g.chance(if self.big { 3 } else { 1 }, 4) && self.n > 0 { return self.var() }
        if self.big { let v = self.items(); return list(v) }
        let n = self.g.below(5);
        if self.g.chance(1, 5) { return ex(E::Value(ast::Value::List((0..n).map(|_| self.scalar_value()).collect(), None))) }
        list((0..n).map(|_| self.any()).collect())
    }
    fn bx(&mut self) -> Box<Expr> { Box::new(self.any()) }
    fn index(&mut self) -> Expr {
        if self.big { match self.g.below(6) {
            0..=2 => { let n = self.many(); return num(n as f64) }
            3 => { let n = self.many(); let (a, b) = (1 + self.g.below(300), self.g.below(3)); return list((0..n).map(|i| num(if b == 0 { a } else { 1 + i * b } as f64)).collect()) }
            _ => (),
        } }
        match self.g.weighted(&[8, 2, 2, 3, 1]) {
            0 => num(1.0 + self.g.below(4) as f64),
            1 => ex(E::Value(ast::Value::Number(self.g.pickc(&[0.0, -1.0, 1.5, 0.5, 7.0, 1e20, -1e20, 9.3e18, f64::MAX, 1.0000000000000002])))),
            2 => { let t = self.g.pickc(&["1", "2", " 3 ", "0x1", "1.0", "", "a", "2.5", "-1"]); txt(t) }
            3 => { let n = self.g.below(5); let v = (0..n).map(|_| if self.g.chance(1, 5) { self.index() } else { num(1.0 + self.g.below(4) as f64) }).collect(); list(v) }
            _ => self.any(),
        }
    }
    fn arith(&mut self) -> (E, bool) {
        // second: the result may be compared to the last digit
        let exact = true;
        match self.g.below(27) {
            0 => { let v = self.variadic(); (E::Add { values: Box::new(v) }, exact) }
            1 => { let v = self.variadic(); (E::Mul { values: Box::new(v) }, exact) }
            2 => { let v = self.variadic(); (E::Min { values: Box::new(v) }, exact) }
            3 => { let v = self.variadic(); (E::Max { values: Box::new(v) }, exact) }
            4 => { let (a, b) = (self.any(), self.any()); (E::Add { values: Box::new(list(vec![a, b])) }, exact) }
            5 => { let (a, b) = (self.any(), self.any()); (E::Mul { values: Box::new(list(vec![a, b])) }, exact) }
            6 | 7 => (E::Sub { left: self.bx(), right: self.bx() }, exact),
            8 => (E::Div { left: self.bx(), right: self.bx() }, exact),
            9..=11 => {
                if self.g.chance(1, 3) { let b = self.g.range(-12, 12) as f64 / self.g.pickc(&[1.0, 2.0, 4.0, 10.0]); let k = self.g.range(-6, 6) as f64; let d = self.g.pickc(&[0.0, 0.0, 0.5, -0.5, 1.0]); (E::Mod { left: Box::new(num(b * k + d)), right: Box::new(num(b)) }, exact) }
                else { (E::Mod { left: self.bx(), right: self.bx() }, exact) }
            }
            12 => (E::Pow { base: self.bx(), power: self.bx() }, false),
            13 => (E::Log { base: self.bx(), value: self.bx() }, false),
            14 => (E::Atan2 { y: self.bx(), x: self.bx() }, false),
            15 => (E::Neg { value: self.bx() }, exact), 16 => (E::Abs { value: self.bx() }, exact), 17 => (E::Sqrt { value: self.bx() }, exact),
            18 => (E::Round { value: self.bx() }, exact), 19 => (E::Floor { value: self.bx() }, exact), 20 => (E::Ceil { value: self.bx() }, exact),
            21 => { let v = self.bx(); (match self.g.below(6) { 0 => E::Sin { value: v }, 1 => E::Cos { value: v }, 2 => E::Tan { value: v }, 3 => E::Asin { value: v }, 4 => E::Acos { value: v }, _ => E::Atan { value: v } }, false) }
            22 => { let v = Box::new(ex(E::Value(ast::Value::Number(self.g.range(-8, 8) as f64 * self.g.pickc(&[0.125, 0.25, 30.0, 45.0, 90.0, 1.0]))))); (match self.g.below(6) { 0 => E::Sin { value: v }, 1 => E::Cos { value: v }, 2 => E::Tan { value: v }, 3 => E::Asin { value: v }, 4 => E::Acos { value: v }, _ => E::Atan { value: v } }, false) }
            23 => { let v = if self.g.bool() { Box::new(boolean(self.g.bool())) } else { self.bx() }; (E::Not { value: v }, exact) }
            24 => { let f = |s: &mut Self| Box::new(if s.g.chance(5, 6) { boolean(s.g.bool()) } else { s.any() }); let (left, right) = (f(self), f(self)); (if self.g.bool() { E::And { left, right } } else { E::Or { left, right } }, exact) }
            25 => { let c = if self.g.chance(5, 6) { boolean(self.g.bool()) } else { self.any() }; (E::Conditional { condition: Box::new(c), then: self.bx(), otherwise: self.bx() }, exact) }
            // half-way cases and borders of the integers
            _ => { let k = self.g.range(-5, 5) as f64; let x = self.g.pickc(&[0.5, 0.49999999999999994, 4503599627370496.5, 4503599627370495.5, 2251799813685248.5, -0.5, 1.0 - f64::EPSILON]) + k; let v = Box::new(ex(E::Value(ast::Value::Number(x)))); (match self.g.below(3) { 0 => E::Round { value: v }, 1 => E::Floor { value: v }, _ => E::Ceil { value: v } }, exact) }
        }
    }
    fn rel(&mut self) -> (E, bool) {
        let (left, right) = (self.bx(), self.bx());
        let (left, right) = if self.g.chance(1, 8) { (left.clone(), left) } else { (left, right) };
        (match self.g.below(13) {
            0 | 1 => E::Eq { left, right }, 2 => E::Neq { left, right }, 3 => E::Less { left, right }, 4 => E::LessEq { left, right }, 5 => E::Greater { left, right }, 6 => E::GreaterEq { left, right },
            7 | 8 => E::Identical { left, right }, 9 => { let v = self.variadic(); E::Min { values: Box::new(v) } } 10 => { let v = self.variadic(); E::Max { values: Box::new(v) } }
            11 => E::TypeQuery { value: left, ty: { use ast::ValueType::*; match self.g.below(7) { 0 => Number, 1 => Text, 2 => Bool, 3 => List, 4 => Sprite, 5 => Costume, _ => Sound } } },
            _ => { let l = Box::new(self.lst()); if self.g.bool() { E::ListContains { list: l, value: right } } else { E::ListFind { list: l, value: right } } }
        }, true)
    }
    fn sep(&mut self) -> Expr { match self.g.below(3) { 0 => txt(self.g.pickc(&[" ", ",", "a", "", "\n", "\r\n", "ab", "é", "aa", "\u{301}"])), 1 => self.scalar(), _ => self.any() } }
    fn text(&mut self) -> (E, bool) {
        (match self.g.below(16) {
            0 => E::StrLen { value: self.bx() }, 1 => E::StrGetLast { string: self.bx() }, 2 | 3 => { let i = Box::new(self.index()); E::StrGet { string: self.bx(), index: i } }
            4 => { let v = self.variadic(); E::StrCat { values: Box::new(v) } } 5 => { let t = self.bx(); E::TextSplit { text: t, mode: T::Letter } }
            6 => { let t = self.bx(); E::TextSplit { text: t, mode: T::Word } } 7 => { let t = self.bx(); E::TextSplit { text: t, mode: T::LF } } 8 => { let t = self.bx(); E::TextSplit { text: t, mode: T::CR } } 9 => { let t = self.bx(); E::TextSplit { text: t, mode: T::Tab } }
            10 | 11 => { let t = self.bx(); let s = Box::new(self.sep()); E::TextSplit { text: t, mode: T::Custom(s) } }
            12 => E::CharToUnicode { value: self.bx() },
            13 => { let v = match self.g.below(4) { 0 => num(self.g.below(0x120000) as f64), 1 => num(self.g.pickc(&[0.0, 127.0, 128.0, 255.0, 0xd7ff as f64, 0xd800 as f64, 0xdfff as f64, 0xe000 as f64, 1114111.0, 1114112.0, -1.0, 65.5, 4294967361.0, 1e20])), 2 => list(vec![num(97.0), num(0x1f600 as f64)]), _ => self.any() }; E::UnicodeToChar { value: Box::new(v) } }
            14 => { let t = self.scalar(); let c = ex(E::CharToUnicode { value: Box::new(t) }); E::UnicodeToChar { value: Box::new(c) } }
            _ => E::ListLines { value: Box::new(self.lst()) },
        }, true)
    }
    fn lists(&mut self) -> (E, bool) {
        (match self.g.below(24) {
            0 => { let (a, b) = (self.range_end(), self.range_end()); E::Range { start: Box::new(a), stop: Box::new(b) } }
            1 => E::ListCons { item: self.bx(), list: Box::new(self.lst()) }, 2 => E::ListCdr { value: Box::new(self.lst()) }, 3 => E::ListLen { value: Box::new(self.lst()) },
            4 => E::ListRank { value: self.bx() }, 5 => E::ListDims { value: self.bx() }, 6 => E::ListIsEmpty { value: Box::new(self.lst()) },
            7 => E::ListContains { list: Box::new(self.lst()), value: self.bx() }, 8 => E::ListFind { list: Box::new(self.lst()), value: self.bx() },
            9 | 10 => E::ListFlatten { value: self.bx() }, 11 | 12 => { let v = if self.g.bool() { self.table() } else { self.lst() }; E::ListColumns { value: Box::new(v) } }
            13 | 14 => { let n = self.g.below(4); let d = match self.g.below(7) { 0 => self.any(), 6 => { let mut v: Vec<Expr> = (0..self.g.below(3)).map(|_| num(self.g.below(4) as f64)).collect(); v.push(num(0.0)); for _ in 0..self.g.below(4) { v.push(num(self.g.pickc(&[7.0, 1e9, 4294967296.0, 1e17, 9e18]))); } list(v) } _ => { let v = (0..n).map(|_| if self.g.chance(1, 10) { self.any() } else { num(self.g.below(5) as f64) }).collect(); list(v) } }; E::ListReshape { value: self.bx(), dims: Box::new(d) } }
            15 => { let n = self.g.below(4); let s = if self.g.chance(1, 5) { self.any() } else if self.g.chance(1, 25) { let k = self.g.pickc(&[2.0, 300.0, 1000.0]); let n = 1 + self.g.below(9); let at = self.g.below(n); list((0..n).map(|i| if i == at { list(vec![]) } else { ex(E::Range { start: Box::new(num(1.0)), stop: Box::new(num(k)) }) }).collect()) } else { let v = (0..n).map(|_| self.lst()).collect(); list(v) }; E::ListCombinations { sources: Box::new(s) } }
            16 => { let n = self.g.below(4); let s = if self.g.chance(1, 5) { self.any() } else { let v = (0..n).map(|_| self.lst()).collect(); list(v) }; E::ListCat { lists: Box::new(s) } }
            17 => E::ListRev { value: Box::new(self.lst()) }, 18 | 19 | 20 => { let i = Box::new(self.index()); E::ListGet { list: Box::new(self.lst()), index: i } }
            21 => E::ListGetLast { list: Box::new(self.lst()) }, 22 => { let v = self.lst(); E::CopyList { list: Box::new(v) } }
            _ => { let v = self.small_list(2); v.kind }
        }, true)
    }
    fn range_end(&mut self) -> Expr { if self.big && self.g.bool() { let n = self.many(); return num(n as f64 / self.g.pickc(&[1.0, 2.0, 4.0])) } match self.g.below(8) { 0 => self.any(), 1 => list(vec![num(self.g.range(-3, 3) as f64), num(self.g.range(0, 5) as f64)]), 2 => { let t = format!("{}", self.g.range(-4, 4)); txt(&t) } _ => ex(E::Value(ast::Value::Number(self.g.range(-24, 24) as f64 / self.g.pickc(&[1.0, 2.0, 4.0, 5.0])))) } }
    fn data(&mut self) -> (E, bool) {
        (match self.g.below(8) {
            0 => E::ListCsv { value: Box::new(self.lst()) }, 1 => E::ListJson { value: self.bx() },
            2 => { let t = self.table(); E::ListCsv { value: Box::new(t) } }
            3 => { let t = self.scalar(); E::TextSplit { text: Box::new(t), mode: T::Csv } } 4 => { let t = self.scalar(); E::TextSplit { text: Box::new(t), mode: T::Json } }
            5 => { let t = if self.g.bool() { self.table() } else { self.lst() }; let c = ex(E::ListCsv { value: Box::new(t) }); E::TextSplit { text: Box::new(c), mode: T::Csv } }
            6 => { let t = if self.g.bool() { self.table() } else { self.any() }; let c = ex(E::ListJson { value: Box::new(t) }); E::TextSplit { text: Box::new(c), mode: T::Json } }
            _ => { let t = self.any(); E::TextSplit { text: Box::new(t), mode: if self.g.bool() { T::Csv } else { T::Json } } }
        }, false)
    }
    fn mutation(&mut self) -> S {
        let l = Box::new(if self.g.chance(1, 20) { self.any() } else { self.lvar() });
        match self.g.below(12) {
            0 => S::ListInsertLast { list: l, value: self.bx() },
            1..=3 => { let index = Box::new(self.midx()); S::ListInsert { list: l, value: self.bx(), index } }
            4..=6 => { let index = Box::new(self.midx()); S::ListAssign { list: l, value: self.bx(), index } }
            7 | 8 => { let index = Box::new(self.midx()); S::ListRemove { list: l, index } }
            9 => S::ListRemoveLast { list: l }, 10 => S::ListAssignLast { list: l, value: self.bx() },
            _ => if self.g.chance(1, 3) { S::ListRemoveAll { list: l } } else { S::ListInsertLast { list: l, value: self.bx() } },
        }
    }
    fn midx(&mut self) -> Expr { match self.g.weighted(&[6, 1, 4]) { 0 => { let n = if self.big { self.g.below(300) } else { self.g.below(5) }; num(1.0 + n as f64) }, 1 => self.lvar(), _ => self.index() } }
    fn all_vars(&self) -> Vec<Expr> { (0..self.n).map(|i| var(&format!("v{i}"))).collect() }
}
fn case(g: &mut Gen, fam: Fam, big: bool) -> Setup {
    let mut o = OG { g, fam, n: 0, lists: vec![], scalars: vec![], cyclic: false, big };
    let n = match fam { _ if big => 2, Fam::Scalar => o.g.below(3), _ => 2 + o.g.below(4) };
    let names: Vec<String> = (0..n).map(|i| format!("v{i}")).collect();
    let mut b: Vec<Stmt> = vec![];
    if n > 0 { b.push(declare(&names.iter().map(|x| x.as_str()).collect::<Vec<_>>())); }
    b.push(declare(&["res"]));
    for i in 0..n {
        let lw = match fam { _ if big => 12, Fam::Scalar => 0, Fam::Cast | Fam::Mut | Fam::Lists => 8, Fam::Data => 5, _ => 4 };
        let e = match o.g.weighted(&[3, lw, lw / 2, if lw > 0 { 2 } else { 0 }]) {
            0 => { o.scalars.push(i); o.scalar() }
            1 if big => { o.lists.push(i); let v = o.items(); list(v) }
            1 => { o.lists.push(i); let m = o.g.len(6); list((0..m).map(|_| if o.n > 0 && o.g.chance(1, 5) { o.var() } else { o.scalar() }).collect()) }
            2 => { o.lists.push(i); o.table() }
            _ => { if o.n == 0 { o.scalars.push(i); o.scalar() } else if o.lists.is_empty() || o.g.bool() { o.var() } else { o.lists.push(i); let a = o.lvar(); let m = 1 + o.g.below(3); list(vec![a; m]) } }
        };
        b.push(assign(&names[i], e));
        o.n = i + 1;
    }
    if !o.lists.is_empty() && matches!(fam, Fam::Cast | Fam::Rel | Fam::Mut | Fam::Lists | Fam::Data | Fam::Text) && o.g.chance(1, if fam == Fam::Cast { 4 } else { 8 }) {
        o.cyclic = true;
        let k = 1 + o.g.below(2);
        for _ in 0..k { let (a, c) = (o.lvar(), o.lvar()); b.push(st(S::ListInsertLast { list: Box::new(a), value: Box::new(c) })); }
    }
    let ops = 1 + o.g.below(if big { 4 } else { 8 });
    for k in 0..ops {
        let mut code = vec![];
        if fam == Fam::Mut && o.g.chance(4, 5) { let s = o.mutation(); code.push(st(s)); }
        else {
            let (e, exact) = match fam { Fam::Scalar | Fam::Cast => o.arith(), Fam::Rel => o.rel(), Fam::Text => o.text(), Fam::Lists | Fam::Mut => o.lists(), Fam::Data => o.data() };
            code.push(assign("res", ex(e)));
            let mut args = vec![var("res")];
            if exact && matches!(fam, Fam::Scalar | Fam::Cast) { args.push(ex(E::StrCat { values: Box::new(list(vec![var("res")])) })); }
            let all = o.all_vars();
            args.extend(all);
            code.push(obs("res", args));
            if o.g.chance(1, 4) && fam != Fam::Scalar {
                // the result is a list of its own
                let c = ex(E::TypeQuery { value: Box::new(var("res")), ty: ast::ValueType::List });
                code.push(st(S::If { condition: Box::new(c), then: vec![st(S::ListInsertLast { list: Box::new(var("res")), value: Box::new(txt("own")) })] }));
            }
        }
        let mut handler = vec![obs("err", vec![num(k as f64), var("x1")])];
        if o.g.chance(1, 2) { handler.push(obs("vars", o.all_vars())); }
        b.push(st(S::TryCatch { code, var: vref("x1"), handler }));
        if fam == Fam::Mut { b.push(obs("vars", o.all_vars())); }
    }
    b.push(obs("vars", o.all_vars()));
    let mut r = one_script(b);
    r.entities[0].costumes.push(init("c1", ast::Value::Image(std::rc::Rc::new((vec![1], None, "c1".into())))));
    r.entities[0].active_costume = Some(0);
    r.entities[0].sounds.push(init("s1", ast::Value::Audio(std::rc::Rc::new((vec![1], "s1".into())))));
    Setup::new(r)
}
fn run(g: &mut Gen, cx: &mut Ctx, fam: Fam) -> CheckResult { run_case(cx, case(g, fam, false), fam) }
fn run_big(g: &mut Gen, cx: &mut Ctx, fam: Fam) -> CheckResult { let mut s = case(g, fam, true); s.fuel = 60_000; run_case(cx, s, fam) }
fn run_case(cx: &mut Ctx, s: Setup, fam: Fam) -> CheckResult {
    cx.sample(|| show(&s));
    match differential(&s)? {
        None => cx.label("discarded (budget)"),
        Some((m, _)) => {
            let res = m.trace.iter().filter(|e| matches!(e, crate::vm::Ev::Request { name, .. } if name == "unknown:res" )).count();
            cx.evals += m.trace.len() as u64;
            cx.label_if(m.stats.caught > 0, "with a caught error");
            cx.nt_if(res > 0 || fam == Fam::Mut && m.trace.len() > 3);
        }
    }
    Ok(())
}
pub fn scalar(g: &mut Gen, cx: &mut Ctx) -> CheckResult { run(g, cx, Fam::Scalar) }
pub fn cast(g: &mut Gen, cx: &mut Ctx) -> CheckResult { run(g, cx, Fam::Cast) }
pub fn rel(g: &mut Gen, cx: &mut Ctx) -> CheckResult { run(g, cx, Fam::Rel) }
pub fn text(g: &mut Gen, cx: &mut Ctx) -> CheckResult { run(g, cx, Fam::Text) }
pub fn mutate(g: &mut Gen, cx: &mut Ctx) -> CheckResult { run(g, cx, Fam::Mut) }
pub fn lists(g: &mut Gen, cx: &mut Ctx) -> CheckResult { run(g, cx, Fam::Lists) }
pub fn data(g: &mut Gen, cx: &mut Ctx) -> CheckResult { run(g, cx, Fam::Data) }
fn scalar_big(g: &mut Gen, cx: &mut Ctx) -> CheckResult { run_big(g, cx, Fam::Scalar) }
fn cast_big(g: &mut Gen, cx: &mut Ctx) -> CheckResult { run_big(g, cx, Fam::Cast) }
fn rel_big(g: &mut Gen, cx: &mut Ctx) -> CheckResult { run_big(g, cx, Fam::Rel) }
fn text_big(g: &mut Gen, cx: &mut Ctx) -> CheckResult { run_big(g, cx, Fam::Text) }
fn mutate_big(g: &mut Gen, cx: &mut Ctx) -> CheckResult { run_big(g, cx, Fam::Mut) }
fn lists_big(g: &mut Gen, cx: &mut Ctx) -> CheckResult { run_big(g, cx, Fam::Lists) }
fn data_big(g: &mut Gen, cx: &mut Ctx) -> CheckResult { run_big(g, cx, Fam::Data) }
pub fn any_family(g: &mut Gen, cx: &mut Ctx) -> CheckResult { let f = [Fam::Scalar, Fam::Cast, Fam::Rel, Fam::Text, Fam::Mut, Fam::Lists, Fam::Data]; let i = g.below(f.len()); run(g, cx, f[i]) }
pub fn properties() -> Vec<Claim> {
    let big = |id: &'static str, f: CaseFn| Claim { id, rule: "large: the same blocks on lists of dozens to hundreds of items, long texts and wide and long tables (non-trivial = at least one block gave a result)", assumptions: &[], subs: vec![Sub { name: "large", run: f, quick: 30_000, thorough: 1_000_000 }], probes: vec![] };
    let c = |id: &'static str, f: CaseFn, rule: &'static str| Claim { id, rule, assumptions: &[], subs: vec![Sub { name: "blocks", run: f, quick: 500_000, thorough: 10_000_000 }], probes: vec![] };
    vec![
        c("C01", scalar, "random operands (special doubles, numeric texts, constants, nested lists) through every arithmetic block, compared with independent definitions; each case applies a series of blocks, reported one by one, and is non-trivial when at least one block gave a result"),
        c("C02", cast, "random values of every kind used where a number, truth value, text, list or index is wanted; each case applies a series of blocks, reported one by one, and is non-trivial when at least one block gave a result"),
        c("C03", rel, "random pairs and lists of values, nested, cyclic and mixed-case, through every comparison block; each case applies a series of blocks, reported one by one, and is non-trivial when at least one block gave a result"),
        c("C04", text, "random texts (all scripts, combining, CR/LF, quotes) through every text block; each case applies a series of blocks, reported one by one, and is non-trivial when at least one block gave a result"),
        c("C05", mutate, "random lists with sharing and cycles through every list mutation, all operands inspected afterwards; each case applies a series of blocks, reported one by one, and is non-trivial when at least one block gave a result"),
        c("C06", lists, "random nested lists through every list reporter; each case applies a series of blocks, reported one by one, and is non-trivial when at least one block gave a result"),
        c("C31", data, "random tables and texts through the CSV and JSON split and join blocks; each case applies a series of blocks, reported one by one, and is non-trivial when at least one block gave a result"),
        big("C01", scalar_big),
        big("C02", cast_big),
        big("C03", rel_big),
        big("C04", text_big),
        big("C05", mutate_big),
        big("C06", lists_big),
        big("C31", data_big),
    ]
}
