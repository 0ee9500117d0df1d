//! Matchers given as data, evaluated by the library's own matchers and combinators.
use crate::types::*;
use crate::with_type;
use layered_amount::Amount;
use layered_nlp::x::{self, ToIdx, XDirection, XMatch};
use layered_nlp::LLLine;
use layered_part_of_speech::Tag;
use serde_json::{json, Value};
use std::cell::RefCell;

#[derive(Debug, Clone)]
pub enum M {
    Attr(String),
    Eq(String, Vec<i64>),
    Has(String, Vec<Vec<i64>>),
    Ws,
    Text,
    Seq(Vec<M>),
    All(Vec<M>),
    Or(Vec<M>),
}

pub fn ints(v: &Value) -> Vec<i64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default()
}

impl M {
    pub fn parse(v: &Value) -> M {
        let xs = || v["xs"].as_array().unwrap().iter().map(M::parse).collect();
        let ty = || v["ty"].as_str().unwrap().to_string();
        match v["m"].as_str().unwrap() {
            "attr" => M::Attr(ty()),
            "eq" => M::Eq(ty(), ints(&v["v"])),
            "has" => M::Has(ty(), v["vs"].as_array().unwrap().iter().map(ints).collect()),
            "ws" => M::Ws,
            "text" => M::Text,
            "seq" => M::Seq(xs()),
            "all" => M::All(xs()),
            "or" => M::Or(xs()),
            m => panic!("matcher {m}"),
        }
    }
    pub fn json(&self) -> Value {
        let js = |xs: &Vec<M>| xs.iter().map(M::json).collect::<Vec<_>>();
        match self {
            M::Attr(t) => json!({"m":"attr","ty":t}),
            M::Eq(t, v) => json!({"m":"eq","ty":t,"v":v}),
            M::Has(t, vs) => json!({"m":"has","ty":t,"vs":vs}),
            M::Ws => json!({"m":"ws"}),
            M::Text => json!({"m":"text"}),
            M::Seq(xs) => json!({"m":"seq","xs":js(xs)}),
            M::All(xs) => json!({"m":"all","xs":js(xs)}),
            M::Or(xs) => json!({"m":"or","xs":js(xs)}),
        }
    }
}

thread_local! {
    /// Outputs must be Copy: they are indexes into this arena.
    static ARENA: RefCell<Vec<Vec<i64>>> = RefCell::new(Vec::new());
}
pub fn arena_clear() {
    ARENA.with(|a| a.borrow_mut().clear())
}
fn put(v: Vec<i64>) -> u32 {
    ARENA.with(|a| {
        let mut a = a.borrow_mut();
        a.push(v);
        (a.len() - 1) as u32
    })
}
pub fn out_of(id: u32) -> Vec<i64> {
    ARENA.with(|a| a.borrow()[id as usize].clone())
}
fn put_val<T: Enc>(t: &T) -> u32 {
    let (id, v) = t.enc();
    let mut o = vec![1, id, v.len() as i64];
    o.extend(v);
    put(o)
}
fn put_tuple(ids: &[u32]) -> u32 {
    let mut o = vec![3, ids.len() as i64];
    for i in ids {
        o.extend(out_of(*i));
    }
    put(o)
}
fn put_choice(branch: i64, id: u32) -> u32 {
    let mut o = vec![4, branch];
    o.extend(out_of(id));
    put(o)
}

#[derive(Clone, Copy)]
pub struct Ref<'a>(pub &'a M);

impl<'l, 'a> XMatch<'l> for Ref<'a> {
    type Out = u32;
    fn go<D: XDirection<'l>>(&self, d: &D, l: &'l LLLine) -> Vec<(u32, ToIdx)> {
        match self.0 {
            M::Attr(ty) => match ty.as_str() {
                "amount" => x::attr::<Amount>().go(d, l).into_iter().map(|(o, t)| (put_val(o), t)).collect(),
                "pos" => x::attr::<Tag>().go(d, l).into_iter().map(|(o, t)| (put_val(o), t)).collect(),
                ty => with_type!(ty, T => x::attr::<T>().go(d, l).into_iter().map(|(o, t)| (put_val(o), t)).collect(), else panic!("type")),
            },
            M::Eq(ty, v) => with_type!(ty.as_str(), T => {
                let val = T::dec(v, 0);
                x::attr_eq(&val).go(d, l).into_iter().map(|((), t)| (put(vec![0]), t)).collect()
            }, else panic!("type")),
            M::Has(ty, vs) => with_type!(ty.as_str(), T => {
                let vals: Vec<T> = vs.iter().map(|v| T::dec(v, 0)).collect();
                x::token_has_any(&vals).go(d, l).into_iter().map(|(o, t)| (put_val(o), t)).collect()
            }, else panic!("type")),
            M::Ws => x::whitespace().go(d, l).into_iter().map(|((), t)| (put(vec![0]), t)).collect(),
            M::Text => x::token_text()
                .go(d, l)
                .into_iter()
                .map(|(s, t)| {
                    let cps: Vec<i64> = s.chars().map(|c| c as i64).collect();
                    let mut o = vec![2, cps.len() as i64];
                    o.extend(cps);
                    (put(o), t)
                })
                .collect(),
            M::Seq(xs) => match xs.as_slice() {
                [a, b] => x::seq((Ref(a), Ref(b)))
                    .go(d, l)
                    .into_iter()
                    .map(|((a, b), t)| (put_tuple(&[a, b]), t))
                    .collect(),
                [a, b, c] => x::seq((Ref(a), Ref(b), Ref(c)))
                    .go(d, l)
                    .into_iter()
                    .map(|((a, b, c), t)| (put_tuple(&[a, b, c]), t))
                    .collect(),
                _ => panic!("arity"),
            },
            M::All(xs) => match xs.as_slice() {
                [a, b] => x::all((Ref(a), Ref(b)))
                    .go(d, l)
                    .into_iter()
                    .map(|((a, b), t)| (put_tuple(&[a, b]), t))
                    .collect(),
                [a, b, c] => x::all((Ref(a), Ref(b), Ref(c)))
                    .go(d, l)
                    .into_iter()
                    .map(|((a, b, c), t)| (put_tuple(&[a, b, c]), t))
                    .collect(),
                _ => panic!("arity"),
            },
            M::Or(xs) => match xs.as_slice() {
                [a, b] => x::any_of((Ref(a), Ref(b)))
                    .go(d, l)
                    .into_iter()
                    .map(|(o, t)| {
                        (
                            match o {
                                x::AnyOf2::A(i) => put_choice(1, i),
                                x::AnyOf2::B(i) => put_choice(2, i),
                            },
                            t,
                        )
                    })
                    .collect(),
                [a, b, c] => x::any_of((Ref(a), Ref(b), Ref(c)))
                    .go(d, l)
                    .into_iter()
                    .map(|(o, t)| {
                        (
                            match o {
                                x::AnyOf3::A(i) => put_choice(1, i),
                                x::AnyOf3::B(i) => put_choice(2, i),
                                x::AnyOf3::C(i) => put_choice(3, i),
                            },
                            t,
                        )
                    })
                    .collect(),
                _ => panic!("arity"),
            },
        }
    }
}

// ---- the library's own matchers as they are, with the outputs they have -----------------------------------

pub trait Show: Copy {
    fn show(&self) -> Vec<i64>;
}
impl<T: Enc> Show for &T {
    fn show(&self) -> Vec<i64> {
        out_of(put_val(*self))
    }
}
impl Show for () {
    fn show(&self) -> Vec<i64> {
        vec![0]
    }
}
impl Show for &str {
    fn show(&self) -> Vec<i64> {
        let cps: Vec<i64> = self.chars().map(|c| c as i64).collect();
        [vec![2, cps.len() as i64], cps].concat()
    }
}
impl<A: Show, B: Show> Show for (A, B) {
    fn show(&self) -> Vec<i64> {
        [vec![3, 2], self.0.show(), self.1.show()].concat()
    }
}
impl<A: Show, B: Show, C: Show> Show for (A, B, C) {
    fn show(&self) -> Vec<i64> {
        [vec![3, 3], self.0.show(), self.1.show(), self.2.show()].concat()
    }
}
impl<A: Show, B: Show> Show for x::AnyOf2<A, B> {
    fn show(&self) -> Vec<i64> {
        match self {
            x::AnyOf2::A(a) => [vec![4, 1], a.show()].concat(),
            x::AnyOf2::B(b) => [vec![4, 2], b.show()].concat(),
        }
    }
}
impl<A: Show, B: Show, C: Show> Show for x::AnyOf3<A, B, C> {
    fn show(&self) -> Vec<i64> {
        match self {
            x::AnyOf3::A(a) => [vec![4, 1], a.show()].concat(),
            x::AnyOf3::B(b) => [vec![4, 2], b.show()].concat(),
            x::AnyOf3::C(c) => [vec![4, 3], c.show()].concat(),
        }
    }
}

pub trait Visit<'l> {
    type R;
    fn visit<X: XMatch<'l, Out: Show>>(&self, x: &X) -> Self::R;
}

/// Gives `m` to `v` as the library's own matcher, without anything of ours in between. None: not one of the shapes written out.
pub fn native<'l, V: Visit<'l>>(m: &M, v: &V) -> Option<V::R> {
    macro_rules! part {
        ($m:expr, $x:ident => $body:expr) => {
            match $m {
                M::Attr(t) if t == "A" => { let $x = x::attr::<A>(); $body }
                M::Attr(t) if t == "B" => { let $x = x::attr::<B>(); $body }
                M::Ws => { let $x = x::whitespace(); $body }
                M::Text => { let $x = x::token_text(); $body }
                _ => None,
            }
        };
    }
    macro_rules! pair {
        ($f:ident, $a:expr, $b:expr) => {
            part!($a, a => part!($b, b => Some(v.visit(&x::$f((a, b))))))
        };
    }
    fn ab(xs: &[M]) -> Option<[bool; 3]> {
        let b = |m: &M| match m {
            M::Attr(t) if t == "A" => Some(true),
            M::Attr(t) if t == "B" => Some(false),
            _ => None,
        };
        Some([b(&xs[0])?, b(&xs[1])?, b(&xs[2])?])
    }
    macro_rules! triple {
        ($f:ident, $xs:expr) => {{
            let (a, b) = (x::attr::<A>, x::attr::<B>);
            Some(match ab($xs)? {
                [true, true, true] => v.visit(&x::$f((a(), a(), a()))),
                [true, true, false] => v.visit(&x::$f((a(), a(), b()))),
                [true, false, true] => v.visit(&x::$f((a(), b(), a()))),
                [true, false, false] => v.visit(&x::$f((a(), b(), b()))),
                [false, true, true] => v.visit(&x::$f((b(), a(), a()))),
                [false, true, false] => v.visit(&x::$f((b(), a(), b()))),
                [false, false, true] => v.visit(&x::$f((b(), b(), a()))),
                [false, false, false] => v.visit(&x::$f((b(), b(), b()))),
            })
        }};
    }
    match m {
        M::Attr(ty) if ty == "amount" => Some(v.visit(&x::attr::<Amount>())),
        M::Attr(ty) if ty == "pos" => Some(v.visit(&x::attr::<Tag>())),
        M::Attr(ty) => with_type!(ty.as_str(), T => Some(v.visit(&x::attr::<T>())), else None),
        M::Eq(ty, w) => with_type!(ty.as_str(), T => Some(v.visit(&x::attr_eq(&T::dec(w, 0)))), else None),
        M::Has(ty, ws) => with_type!(ty.as_str(), T => {
            let ws: Vec<T> = ws.iter().map(|w| T::dec(w, 0)).collect();
            Some(v.visit(&x::token_has_any(&ws)))
        }, else None),
        M::Ws => Some(v.visit(&x::whitespace())),
        M::Text => Some(v.visit(&x::token_text())),
        M::Seq(xs) if xs.len() == 2 => pair!(seq, &xs[0], &xs[1]),
        M::All(xs) if xs.len() == 2 => pair!(all, &xs[0], &xs[1]),
        M::Or(xs) if xs.len() == 2 => pair!(any_of, &xs[0], &xs[1]),
        M::Seq(xs) => triple!(seq, xs),
        M::All(xs) => triple!(all, xs),
        M::Or(xs) => triple!(any_of, xs),
    }
}
