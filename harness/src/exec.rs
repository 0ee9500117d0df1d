//! Executes a program (JSON) on the real library and observes everything the specification talks about.
use crate::matcher::*;
use crate::types::*;
use crate::with_type;
use layered_amount::{Amount, AmountResolver};
use layered_clauses::{ClauseKeywordResolver, ClauseResolver};
#[allow(deprecated)]
use layered_nlp::create_tokens;
use layered_nlp::{
    create_line_from_input_tokens, create_line_from_string, debug_line, x, AnyAttribute, FinishWith, InputToken,
    LLCursorAssignment, LLLine, LLLineDisplay, LLSelection, LToken, Resolver, TextMatchAssignResolver,
};
use layered_part_of_speech::{POSTagResolver, Tag};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// Identifies the n-th custom token, so that selections starting or ending there can be made.
#[derive(Debug, Clone)]
pub struct Anchor(pub usize);

pub fn text_of(cp: &Value) -> String {
    cp.as_array().map(|a| a.iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()).unwrap_or_default()
}
pub fn cps(s: &str) -> Vec<i64> {
    s.chars().map(|c| c as i64).collect()
}
fn s(v: &Value) -> &str {
    v.as_str().unwrap()
}
fn n(v: &Value) -> i64 {
    v.as_i64().unwrap()
}
fn u(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn arr(v: &Value) -> &[Value] {
    v.as_array().map(|a| a.as_slice()).unwrap_or(&[])
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// a prepared attribute; "pr" lists types it is asked for (in vain) before it is used
fn any_attr(a: &Value) -> AnyAttribute {
    let v = ints(&a["v"]);
    let id = n(&a["id"]);
    let mut r = with_type!(s(&a["ty"]), T => AnyAttribute::new(T::dec(&v, id)), else panic!("attr type"));
    for ty in arr(&a["pr"]) {
        if ty != &a["ty"] {
            r = with_type!(s(ty), T => r.extract::<T>().err().expect("another type"), else panic!("attr type"));
        }
    }
    r
}

fn size_fn(name: &str) -> fn(&str) -> usize {
    match name {
        "u8" => |t| t.len(),
        "u16" => |t| t.encode_utf16().count(),
        "chars" => |t| t.chars().count(),
        "one" => |_| 1,
        "zero" => |_| 0,
        "mix" => |t| {
            let f = t.chars().next().map_or(0, |c| c as usize);
            let l = t.chars().last().map_or(0, |c| c as usize);
            3 * t.chars().count() + f % 5 + 2 * (l % 3)
        },
        _ => panic!("size function"),
    }
}

thread_local!(static PRE: Cell<usize> = const { Cell::new(0) });
/// Programs with "pre" are carried out behind that many custom tokens without attributes, which nothing can match: every
/// observation is the same, that many tokens further on (`ShiftLaw` in the specification), and is shifted back when it
/// is read.
fn pre() -> usize {
    PRE.get()
}
fn unshift(k: usize) -> i64 {
    k as i64 - pre() as i64
}
/// size of a token put in front
fn pre_size(prog: &Value) -> usize {
    match prog["mul"].as_i64() {
        Some(2) => 0,
        _ => scale(prog),
    }
}

/// programs with "mul" use sizes that do not fit into 32 bits; positions are scaled back when they are read
const BIG: usize = (1 << 33) + 1;
fn scale(prog: &Value) -> usize {
    match prog["mul"].as_i64() {
        Some(1) => BIG,
        // as large as they can be
        Some(2) => {
            let szf = prog["szf"].as_str().unwrap_or("u8");
            let f = size_fn(szf);
            let all: usize = arr(&prog["input"])
                .iter()
                .map(|i| {
                    if s(&i["k"]) == "V" {
                        return u(&i["sz"]);
                    }
                    let t = text_of(&i["cp"]);
                    match szf {
                        "u8" | "u16" | "chars" => f(&t),
                        // no more than every character for itself
                        _ => t.chars().map(|c| f(&c.to_string()) + 8).sum(),
                    }
                })
                .sum();
            usize::MAX / all.max(1)
        }
        _ => 1,
    }
}

// ---- disturbances: whatever else is done with the library must not matter ---------------------------------------------

thread_local!(static NEST: Cell<usize> = const { Cell::new(0) });
thread_local!(static ELSEWHERE: RefCell<String> = const { RefCell::new(String::new()) });
thread_local!(static DIFFERS: Cell<i64> = const { Cell::new(0) });
/// Called from all code the library calls back (resolvers, size functions, Debug, PartialEq): uses the library for
/// another line meanwhile, some times per program with "nest", and notes when that gives anything else than before.
pub fn reenter() {
    let left = NEST.get();
    if left > 0 {
        NEST.set(0);
        let r = elsewhere();
        DIFFERS.set(DIFFERS.get().max(ELSEWHERE.with(|e| *e.borrow() != r) as i64));
        NEST.set(left - 1);
    }
}
fn elsewhere() -> String {
    let l = create_line_from_input_tokens(
        vec![InputToken::text("If 1,000.5 km then Run, and 2".to_string(), vec![AnyAttribute::new(Anchor(7))]), InputToken::custom(3, vec![AnyAttribute::new(Anchor(8))])],
        |t| t.len(),
    )
    .run(&AmountResolver::english())
    .run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"]))
    .run(&ClauseResolver::default())
    .run(&POSTagResolver::default())
    .run(&Do(|w: LLSelection| {
        let ws: Vec<LLSelection> = w.split_by(&x::whitespace());
        ws.iter().filter_map(|s| s.trim(&x::whitespace())).map(|s| s.finish_with_attr(A::dec(&[1], 5))).collect()
    }));
    let d = LLLineDisplay::new(&l).with::<A>().with::<Amount>().to_string();
    format!("{d} {:?} {:?} {:?}", l.query::<Tag>(), l.query::<layered_clauses::Clause>(), l.find(&x::seq((x::attr::<A>(), x::whitespace()))))
}
/// things that go wrong in code of the user, in the middle of everything
fn boom(prog: &Value) {
    struct Bad;
    impl std::fmt::Debug for Bad {
        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            panic!("on purpose")
        }
    }
    impl<'l> x::XMatch<'l> for Bad {
        type Out = ();
        fn go<D: x::XDirection<'l>>(&self, d: &D, l: &'l LLLine) -> Vec<((), x::ToIdx)> {
            match d.text_token(l) {
                None => panic!("on purpose"),
                Some(_) => vec![],
            }
        }
    }
    let inputs = || vec![InputToken::text("a 1,000 b".to_string(), vec![AnyAttribute::new(A::dec(&[1], 1))]), InputToken::custom(1, vec![AnyAttribute::new(Bad)])];
    catch(|| {
        let n = Cell::new(0);
        create_line_from_input_tokens(inputs(), |t| {
            n.set(n.get() + 1);
            assert!(n.get() < 3, "on purpose");
            t.len()
        })
    });
    catch(|| {
        create_line_from_input_tokens(inputs(), |t| t.len()).run(&Do(|w: LLSelection| -> Vec<LLCursorAssignment<A>> {
            let _ = w.find_by(&x::attr::<A>());
            panic!("on purpose")
        }))
    });
    catch(|| create_line_from_input_tokens(inputs(), |t| t.len()).find(&Bad).len());
    catch(|| create_line_from_input_tokens(inputs(), |t| t.len()).run(&Do(|w: LLSelection| w.split_by(&Bad).into_iter().map(|s| s.finish_with_attr(A::dec(&[1], 1))).collect::<Vec<_>>())));
    catch(|| {
        let l = create_line_from_input_tokens(inputs(), |t| t.len());
        LLLineDisplay::new(&l).with::<A>().with::<Bad>().to_string()
    });
    // the runs of the program, given up half way
    for r in arr(&prog["runs"]) {
        if !matches!(s(&r["r"]), "assign" | "full" | "echo") {
            catch(|| {
                let l = create_line_from_input_tokens(inputs(), |t| t.len());
                drop(library(r)(l).run(&Do(|_| -> Vec<LLCursorAssignment<A>> { panic!("on purpose") })));
            });
        }
    }
}

/// Builds the line. `how`: by constructor or by `add_attr`, directly or through the simple or deprecated entry points.
pub fn create(prog: &Value) -> Option<LLLine> {
    let via = prog["via"].as_str().unwrap_or("input");
    catch(|| {
        let mut customs = 0usize;
        if via == "string" {
            return create_line_from_string(text_of(&prog["input"][0]["cp"]));
        }
        let mut inputs: Vec<InputToken> = (0..pre()).map(|_| InputToken::custom(pre_size(prog), vec![])).collect();
        for (k, i) in arr(&prog["input"]).iter().enumerate() {
            let mut at: Vec<AnyAttribute> = Vec::new();
            let ctor = k % 2 == 0;
            if ctor {
                at = arr(&i["at"]).iter().map(any_attr).collect();
            }
            let mut t = if s(&i["k"]) == "V" {
                if i["anc"] == json!(1) {
                    at.insert(0, AnyAttribute::new(Anchor(customs)));
                }
                customs += 1;
                InputToken::custom(u(&i["sz"]) * scale(prog), at)
            } else {
                InputToken::text(text_of(&i["cp"]), at)
            };
            if !ctor {
                for a in arr(&i["at"]) {
                    if a["pr"].is_array() {
                        match &mut t {
                            InputToken::Text { attrs, .. } | InputToken::Custom { attrs, .. } => attrs.push(any_attr(a)),
                        }
                        continue;
                    }
                    let v = ints(&a["v"]);
                    let id = n(&a["id"]);
                    with_type!(s(&a["ty"]), T => t.add_attr(T::dec(&v, id)), else panic!("attr type"));
                }
            }
            inputs.push(t);
        }
        let (f, mul) = (size_fn(prog["szf"].as_str().unwrap_or("u8")), scale(prog));
        let f = move |t: &str| {
            reenter();
            f(t).saturating_mul(mul)
        };
        if via == "tokens" {
            #[allow(deprecated)]
            create_tokens(inputs, f)
        } else {
            create_line_from_input_tokens(inputs, f)
        }
    })
}

pub fn toks(l: &LLLine) -> Vec<Value> {
    let front = l.ll_tokens().iter().take_while(|t| matches!(t.get_token(), LToken::Value)).take(pre()).count();
    l.ll_tokens()
        .iter()
        .skip(if front == pre() { front } else { 0 })
        .map(|t| match t.get_token() {
            LToken::Text(t, tag) => json!([1, tag_no(tag), cps(t)]),
            LToken::Value => json!([0, 0, []]),
        })
        .collect()
}

/// a writer that takes some bytes and then fails
struct Short {
    left: usize,
    got: String,
}
impl std::fmt::Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.left = self.left.checked_sub(s.len()).ok_or(std::fmt::Error)?;
        self.got.push_str(s);
        Ok(())
    }
}

type Cell3 = (i64, i64, String, Vec<(i64, Vec<i64>)>);
fn query_ty<T: Enc + 'static>(l: &LLLine) -> Vec<Cell3> {
    l.query::<T>().into_iter().map(|(r, t, vs)| (unshift(r.0), unshift(r.1), t, vs.into_iter().map(|v| v.enc()).collect())).collect()
}
pub fn query(l: &LLLine, ty: &str) -> Vec<Cell3> {
    match ty {
        "amount" => query_ty::<Amount>(l),
        "pos" => {
            let mut q = query_ty::<Tag>(l);
            // the dictionary's tags are a set: the order of the tags of one run is not specified
            q.iter_mut().for_each(|c| c.3.sort());
            q
        }
        ty => with_type!(ty, T => query_ty::<T>(l), else panic!("type")),
    }
}

/// `query` of every type; None when it panics
pub fn store(l: &LLLine) -> Option<Value> {
    catch(|| {
        json!(TYPES
            .iter()
            .map(|ty| query(l, ty).into_iter().map(|c| json!([c.0, c.1, c.3])).collect::<Vec<_>>())
            .collect::<Vec<_>>())
    })
}

/// part-of-speech tags in the order they are reported in
fn pos_order(l: &LLLine) -> Value {
    catch(|| json!(query_ty::<Tag>(l).into_iter().map(|c| json!([c.0, c.1, c.3.iter().map(|v| v.1[0]).collect::<Vec<_>>()])).collect::<Vec<_>>())).unwrap_or(json!([]))
}

// ---- selections -------------------------------------------------------------------------------

/// Matches, going forwards, exactly the span from token `s` to token `e`: a user-defined matcher, with which the
/// harness makes selections. The end tokens must be text tokens or carry an anchor.
struct Span {
    s: usize,
    e: usize,
}
impl Span {
    fn here<'l, D: x::XDirection<'l>>(&self, d: &D, l: &'l LLLine, idx: usize) -> Option<x::ToIdx> {
        match l.ll_tokens().get(idx)?.get_token() {
            LToken::Text(t, _) => d.text_token(l).filter(|(txt, _)| std::ptr::eq(txt.as_ptr(), t.as_ptr())).map(|x| x.1),
            LToken::Value => {
                let nth = l.ll_tokens().get(pre()..idx)?.iter().filter(|t| matches!(t.get_token(), LToken::Value)).count();
                d.attr::<Anchor>(l).into_iter().find(|(a, _)| a.0 == nth).map(|x| x.1)
            }
        }
    }
}
impl<'l> x::XMatch<'l> for Span {
    type Out = ();
    fn go<D: x::XDirection<'l>>(&self, d: &D, l: &'l LLLine) -> Vec<((), x::ToIdx)> {
        let Some(to) = self.here(d, l, self.s) else { return vec![] };
        if self.s == self.e {
            return vec![((), to)];
        }
        d.after(self.e - 1, l).and_then(|d2| self.here(&d2, l, self.e)).map(|to| ((), to)).into_iter().collect()
    }
}

/// Matches every text token and every custom token with an anchor, and tells its index: a user-defined matcher.
struct Which;
impl<'l> x::XMatch<'l> for Which {
    type Out = i64;
    fn go<D: x::XDirection<'l>>(&self, d: &D, l: &'l LLLine) -> Vec<(i64, x::ToIdx)> {
        let customs = || l.ll_tokens().iter().enumerate().filter(|(_, t)| matches!(t.get_token(), LToken::Value)).map(|x| x.0);
        if let Some((txt, to)) = d.text_token(l) {
            let at = l.ll_tokens().iter().position(|t| matches!(t.get_token(), LToken::Text(t, _) if std::ptr::eq(txt.as_ptr(), t.as_ptr())));
            return vec![(at.map_or(-3, |k| k as i64), to)];
        }
        if let Some((a, to)) = d.attr::<Anchor>(l).into_iter().next() {
            return vec![(customs().nth(a.0).map_or(-3, |k| k as i64), to)];
        }
        vec![] // a custom token that cannot be told apart
    }
}

/// a selection of tokens s..=e, when there is a way to make one
fn select(whole: &LLSelection, len: usize, s: usize, e: usize) -> Option<LLSelection> {
    let (s, e) = (s + pre(), e + pre());
    if e >= len || s > e {
        return None;
    }
    if s == 0 && e + 1 == len {
        return Some(whole.clone());
    }
    let span = |s, e| whole.find_by(&Span { s, e }).into_iter().next().map(|x| x.0);
    if let Some(r) = span(s, e) {
        return Some(r);
    }
    let right = if s == 0 { whole.clone() } else { span(s - 1, s - 1)?.after()? };
    if e + 1 == len {
        Some(right)
    } else {
        right.split_with(&span(e + 1, e + 1)?)[0].clone()
    }
}

/// Runs `f` on the whole line and gives the assignments it returns to the line.
struct Do<F>(F);
impl<T: std::fmt::Debug + Send + Sync + 'static, F: Fn(LLSelection) -> Vec<LLCursorAssignment<T>>> Resolver for Do<F> {
    type Attr = T;
    fn go(&self, selection: LLSelection) -> Vec<LLCursorAssignment<T>> {
        reenter();
        let r = (self.0)(selection);
        reenter();
        r
    }
}

// ---- runs -----------------------------------------------------------------------------------------

fn leak(v: &Value) -> &'static str {
    thread_local!(static STRS: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new()));
    let t = text_of(v);
    STRS.with(|m| *m.borrow_mut().entry(t.clone()).or_insert_with(|| Box::leak(t.into_boxed_str())))
}

type Runner = Rc<dyn Fn(LLLine) -> LLLine>;
thread_local!(static RUNNERS: RefCell<HashMap<String, Runner>> = RefCell::new(HashMap::new()));
/// forget the resolvers made so far
pub fn fresh() {
    RUNNERS.with(|m| m.borrow_mut().clear());
}
fn runner<R: Resolver + 'static>(r: R) -> Runner {
    Rc::new(move |l: LLLine| l.run(&r))
}
/// the library's resolver for a run; equal runs of a trace use the same instance
fn library(r: &Value) -> Runner {
    let key = r.to_string();
    if let Some(f) = RUNNERS.with(|m| m.borrow().get(&key).cloned()) {
        return f;
    }
    let f = match s(&r["r"]) {
        "amount" => runner(amount_resolver(r)),
        "kw" => runner(kw_resolver(r)),
        "clause" => runner(ClauseResolver::default()),
        "text" => with_type!(r["ty"].as_str().unwrap_or("A"), T => text_resolver::<T>(r), else panic!("type")),
        "pos" => runner(POSTagResolver::default()),
        k => panic!("run {k}"),
    };
    RUNNERS.with(|m| m.borrow_mut().insert(key, f.clone()));
    f
}

fn text_resolver<T: Dec + Clone + std::fmt::Debug + Send + Sync + 'static>(r: &Value) -> Runner {
    let tab: Vec<(Value, Vec<T>)> = arr(&r["tab"])
        .iter()
        .map(|t| (t["key"].clone(), arr(&t["vs"]).iter().map(|x| T::dec(&ints(&x["v"]), n(&x["id"]))).collect()))
        .collect();
    if r["arr"] == json!(1) {
        // the array constructor: one value per entry
        let e: Vec<(&'static str, T)> = tab.iter().map(|(k, v)| (leak(k), v[0].clone())).collect();
        macro_rules! sized {
            ($($n:literal)*) => { match e.len() { $($n => { let a: [(&'static str, T); $n] = e.try_into().ok().unwrap(); runner(TextMatchAssignResolver::new_case_insensitive_str_arr(a)) })* _ => panic!("table size") } };
        }
        sized!(0 1 2 3 4 5 6 7 8)
    } else {
        let mut m = HashMap::new();
        for (k, v) in tab {
            m.insert(text_of(&k), v);
        }
        if r["ci"] == json!(1) {
            runner(TextMatchAssignResolver::new_case_insensitive(m))
        } else {
            runner(TextMatchAssignResolver::new(m))
        }
    }
}

fn kw_resolver(r: &Value) -> ClauseKeywordResolver {
    let list = |k: &str| arr(&r[k]).iter().map(leak).collect::<Vec<_>>();
    ClauseKeywordResolver::new(&list("c"), &list("a"), &list("t"))
}

fn amount_resolver(r: &Value) -> AmountResolver {
    match s(&r["cfg"]) {
        "en" => AmountResolver::english(),
        "fr" => AmountResolver::french(),
        _ => AmountResolver::new(
            text_of(&r["del"]).chars().collect(),
            char::from_u32(n(&r["dec"]) as u32).unwrap(),
        ),
    }
}

/// one run; counts how often a resolver written here is called
fn run(l: LLLine, r: &Value, calls: &Cell<i64>, skip: &Cell<i64>) -> LLLine {
    let len = l.ll_tokens().len();
    match s(&r["r"]) {
        "assign" => with_type!(s(&r["ty"]), T => l.run(&Do(|w: LLSelection| {
            calls.set(calls.get() + 1);
            arr(&r["as"]).iter().filter_map(|a| {
                let Some(sel) = select(&w, len, u(&a["s"]), u(&a["e"])) else {
                    skip.set(skip.get() + 1);
                    return None;
                };
                Some(sel.finish_with_attr(T::dec(&ints(&a["v"]), n(&a["id"]))))
            }).collect()
        })), else panic!("type")),
        "full" => with_type!(s(&r["ty"]), T => l.run(&Do(|w: LLSelection| {
            calls.set(calls.get() + 1);
            vec![w.finish_with_attr(T::dec(&ints(&r["v"]), n(&r["id"])))]
        })), else panic!("type")),
        // reads the values of one type and assigns the same values, with new ids, as another
        "echo" => with_type!(s(&r["to"]), T => l.run(&Do(|w: LLSelection| {
            calls.set(calls.get() + 1);
            let m = M::Attr(s(&r["ty"]).to_string());
            w.find_by(&Ref(&m)).finish_with(|o| {
                let o = out_of(o); // <<1, id, len>> \o v
                T::dec(&o[3..], o[1] + n(&r["add"]))
            })
        })), else panic!("type")),
        _ => library(r)(l),
    }
}

// ---- operations on selections ------------------------------------------------------------------------

type Sels = Vec<Option<(LLSelection, Vec<i64>)>>;

fn with_out(v: Vec<(LLSelection, u32)>) -> Sels {
    v.into_iter().map(|(s, o)| Some((s, out_of(o)))).collect()
}
fn plain(v: Vec<LLSelection>) -> Sels {
    v.into_iter().map(|s| Some((s, vec![]))).collect()
}
fn opt(v: Option<LLSelection>) -> Sels {
    plain(v.into_iter().collect())
}

enum OpRes {
    NoBase,
    Panic,
    Sels(Sels),
    /// assignments made by the library's own finish_with, with the outputs their marks stand for
    Finished(Vec<LLCursorAssignment<Mark>>, Vec<Vec<i64>>),
    Ints(Vec<i64>),
}

/// An operation with a matcher of the library's own, nothing of ours in between
struct Direct<'v, 'l> {
    f: &'v str,
    base: &'l LLSelection,
}
impl<'v, 'l> Visit<'l> for Direct<'v, 'l> {
    type R = Option<Sels>;
    fn visit<X: x::XMatch<'l, Out: Show>>(&self, x: &X) -> Option<Sels> {
        let base = self.base;
        let outs = |v: Vec<(LLSelection, X::Out)>| -> Sels { v.into_iter().map(|(s, o)| Some((s, o.show()))).collect() };
        Some(match self.f {
            "find_by" => outs(base.find_by(x)),
            "find_first" => outs(base.find_first_by(x).into_iter().collect()),
            "both" => outs(base.find_by_forwards_and_backwards(x)),
            "match_f" => outs(base.match_forwards(x)),
            "match_b" => outs(base.match_backwards(x)),
            "first_f" => outs(base.match_first_forwards(x).into_iter().collect()),
            "first_b" => outs(base.match_first_backwards(x).into_iter().collect()),
            "split_by" => plain(base.split_by(x)),
            "trim" => opt(base.trim(x)),
            "trim_s" => opt(base.trim_start(x)),
            "trim_e" => opt(base.trim_end(x)),
            _ => return None,
        })
    }
}
struct DirectFind<'l>(&'l LLLine);
impl<'l> Visit<'l> for DirectFind<'l> {
    type R = Vec<((usize, usize), Vec<i64>)>;
    fn visit<X: x::XMatch<'l, Out: Show>>(&self, x: &X) -> Self::R {
        self.0.find(x).into_iter().map(|f| (f.range(), f.attr().show())).collect()
    }
}
/// whether to ask with the library's own matcher (half of the time)
fn directly(op: &Value) -> bool {
    op.to_string().bytes().fold(0u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32)) & 4 == 0
}

fn sel_op(op: &Value, base: &LLSelection, len: usize, whole: &LLSelection, other: Option<&LLSelection>, first_mark: usize) -> OpRes {
    let m = if op["m"].is_object() { Some(M::parse(&op["m"])) } else { None };
    if let Some(m) = m.as_ref().filter(|_| directly(op)) {
        if let Some(Some(r)) = native(m, &Direct { f: s(&op["f"]), base }) {
            return OpRes::Sels(r);
        }
    }
    let m = m.as_ref().map(Ref);
    let second = || select(whole, len, u(&op["s2"]), u(&op["e2"]));
    let r = match s(&op["f"]) {
        "find_by" => with_out(base.find_by(&m.unwrap())),
        "find_first" => with_out(base.find_first_by(&m.unwrap()).into_iter().collect()),
        "both" => with_out(base.find_by_forwards_and_backwards(&m.unwrap())),
        "match_f" => with_out(base.match_forwards(&m.unwrap())),
        "match_b" => with_out(base.match_backwards(&m.unwrap())),
        "first_f" => with_out(base.match_first_forwards(&m.unwrap()).into_iter().collect()),
        "first_b" => with_out(base.match_first_backwards(&m.unwrap()).into_iter().collect()),
        "split_by" => plain(base.split_by(&m.unwrap())),
        "trim" => opt(base.trim(&m.unwrap())),
        "trim_s" => opt(base.trim_start(&m.unwrap())),
        "trim_e" => opt(base.trim_end(&m.unwrap())),
        "after" => opt(base.after()),
        "split_with" => {
            let Some(o) = second() else { return OpRes::NoBase };
            base.split_with(&o).into_iter().map(|x| x.map(|s| (s, vec![]))).collect()
        }
        "split_other" => {
            let Some(o) = other.and_then(|w| select(w, len, u(&op["s2"]), u(&op["e2"]))) else { return OpRes::NoBase };
            base.split_with(&o).into_iter().map(|x| x.map(|s| (s, vec![]))).collect()
        }
        "eq" => {
            let o = if op["other"] == json!(1) {
                other.and_then(|w| select(w, len, u(&op["s2"]), u(&op["e2"])))
            } else {
                second()
            };
            let Some(o) = o else { return OpRes::NoBase };
            return OpRes::Ints(vec![(*base == o) as i64, (o == *base) as i64, !(*base != o) as i64]);
        }
        "finish" => {
            // matches given to the library's own finish_with
            let found = base.find_by(&m.unwrap());
            let outs: Vec<Vec<i64>> = found.iter().map(|x| out_of(x.1)).collect();
            let n = Cell::new(first_mark);
            let asg = found.finish_with(|_| {
                n.set(n.get() + 1);
                Mark(n.get() - 1)
            });
            return OpRes::Finished(asg, outs);
        }
        // operations one after the other, each on one of the selections the one before it gave
        "chain" => {
            let steps = arr(&op["steps"]);
            let mut at = base.clone();
            for (k, st) in steps.iter().enumerate() {
                let r = match sel_op(st, &at, len, whole, other, 0) {
                    OpRes::Sels(r) => r,
                    r => return r,
                };
                if k + 1 == steps.len() {
                    return OpRes::Sels(r);
                }
                let some: Vec<LLSelection> = r.into_iter().flatten().map(|x| x.0).collect();
                if some.is_empty() {
                    return OpRes::Sels(vec![]);
                }
                at = some[u(&st["pick"]) % some.len()].clone();
            }
            vec![]
        }
        f => panic!("op {f}"),
    };
    OpRes::Sels(r)
}

/// a display without the tokens in front
fn without_front(l: &LLLine, d: &str) -> String {
    if pre() == 0 {
        return d.to_string();
    }
    let Some(d) = d.strip_prefix(&*"<>  ".repeat(pre())) else { return "?".to_string() };
    let blank = " ".repeat(4 * pre());
    // texts may have line breaks of their own
    let opening = toks(l).iter().map(|t| arr(&t[2]).iter().filter(|c| **c == json!(10)).count()).sum::<usize>();
    let mut out = String::new();
    for (k, l) in d.split('\n').enumerate() {
        if k > 0 {
            out.push('\n');
        }
        let k = k.saturating_sub(opening);
        match l.strip_prefix(&blank) {
            Some(rest) if k > 0 => out.push_str(rest),
            // a label may have a line break of its own, followed by a space and a number
            _ if k == 0 || (l.starts_with(' ') && l[1..].starts_with(|c: char| c.is_ascii_digit() || c == '-')) => out.push_str(l),
            _ => {
                out.push('?');
                out.push_str(l);
            }
        }
    }
    out
}

fn is_line_op(op: &Value) -> bool {
    matches!(s(&op["f"]), "toks" | "query" | "find" | "disp" | "extract" | "whole")
}

fn line_op(op: &Value, l: &LLLine, prog: &Value) -> Option<Value> {
    let mul = scale(prog);
    let front = pre() * pre_size(prog);
    let back = |p: usize| if p >= front && (p - front) % mul == 0 { ((p - front) / mul) as i64 } else { -7 };
    catch(|| match s(&op["f"]) {
        "toks" => json!(toks(l)),
        "query" => json!(query(l, s(&op["ty"]))
            .into_iter()
            .map(|c| json!([c.0, c.1, cps(&c.2), c.3]))
            .collect::<Vec<_>>()),
        "find" => {
            let m = M::parse(&op["m"]);
            let wrapped = || l.find(&Ref(&m)).into_iter().map(|f| (f.range(), out_of(*f.attr()))).collect();
            let found = directly(op).then(|| native(&m, &DirectFind(l))).flatten();
            json!(found
                .unwrap_or_else(wrapped)
                .into_iter()
                .map(|(r, o)| json!([back(r.0), back(r.1), o]))
                .collect::<Vec<_>>())
        }
        "disp" => {
            let how = op["how"].as_i64().unwrap_or(0);
            let mut d: LLLineDisplay = if how == 2 { debug_line(l) } else { LLLineDisplay::new(l) };
            for ty in arr(&op["tys"]) {
                macro_rules! inc {
                    ($T:ty) => {
                        if how == 1 {
                            d = d.with::<$T>()
                        } else {
                            d.include::<$T>()
                        }
                    };
                }
                match s(ty) {
                    "amount" => inc!(Amount),
                    "pos" => inc!(Tag),
                    t => with_type!(t, T => inc!(T), else panic!("type")),
                }
            }
            let text = d.to_string();
            // displayed once more, into a writer that fails half way
            let mut sink = Short { left: text.len() / 2, got: String::new() };
            let r = std::fmt::write(&mut sink, format_args!("{}", d));
            if !text.is_empty() && (r.is_ok() || !text.starts_with(&sink.got)) {
                return json!([-2]);
            }
            json!(cps(&without_front(l, &text)))
        }
        // a selection made from a line of one's own
        "whole" => match LLSelection::from_line(Rc::new(build(prog).unwrap())) {
            None => json!([-1]),
            Some(sel) => {
                let seen: Vec<i64> = sel.find_by(&Which).into_iter().map(|x| x.1).collect();
                let mut bare = arr(&prog["input"]).iter().filter(|i| s(&i["k"]) == "V").map(|i| i["anc"] != json!(1));
                let mut telling = Vec::new();
                for (k, t) in l.ll_tokens().iter().enumerate() {
                    if matches!(t.get_token(), LToken::Text(..)) || !bare.next().unwrap_or(true) {
                        telling.push(k as i64);
                    }
                }
                json!([if seen == telling { l.ll_tokens().len() as i64 } else { -2 }])
            }
        },
        "extract" => {
            let mut a = any_attr(&op["a"]);
            let mut r = Vec::new();
            for ty in arr(&op["tries"]) {
                let res: Result<(i64, Vec<i64>), AnyAttribute> =
                    with_type!(s(ty), T => a.extract::<T>().map(|v| v.enc()), else panic!("type"));
                match res {
                    Ok(v) => {
                        r.push(json!([1, v.0, v.1]));
                        return json!(r);
                    }
                    Err(b) => {
                        r.push(json!([0, 0, []]));
                        a = b;
                    }
                }
            }
            json!(r)
        }
        f => panic!("op {f}"),
    })
}

fn ok(r: Value) -> Value {
    json!({"p": 0, "r": r})
}
pub fn bad(p: i64) -> Value {
    json!({"p": p, "r": []})
}

/// Evaluates selection operations inside one run, marking the spans of what they return, and reads the marks back.
/// None: an operation returned something that cannot even be assigned to (or the run failed altogether).
fn sel_ops(line: LLLine, other: Option<LLLine>, ops: &[&Value]) -> Option<Vec<Value>> {
    let len = line.ll_tokens().len();
    let results: RefCell<Vec<Value>> = RefCell::new(Vec::new());
    let other = other.map(Rc::new);
    let line = catch(|| {
        line.run(&Do(|whole: LLSelection| {
            let ow = other.as_ref().and_then(|o| LLSelection::from_line(o.clone()));
            let mut marks: Vec<LLCursorAssignment<Mark>> = Vec::new();
            let mut next = 0usize;
            for op in ops {
                let Some(Some(base)) = catch(|| select(&whole, len, u(&op["s"]), u(&op["e"]))) else {
                    results.borrow_mut().push(json!({"p": 3}));
                    continue;
                };
                // marks: the selection before the operation, its results, the selection after it
                let b = next;
                marks.push(base.finish_with_attr(Mark(b)));
                next += 1;
                let first = next;
                let r = catch(|| sel_op(op, &base, len, &whole, ow.as_ref(), first)).unwrap_or(OpRes::Panic);
                let mut v = match r {
                    OpRes::NoBase => json!({"p": 3}),
                    OpRes::Panic => json!({"p": 1}),
                    OpRes::Ints(i) => json!({"p": 0, "i": i}),
                    OpRes::Sels(v) => {
                        let mut ms = Vec::new();
                        for x in v {
                            ms.push(match x {
                                None => json!([-1, []]),
                                Some((sel, o)) => {
                                    marks.push(sel.finish_with_attr(Mark(next)));
                                    next += 1;
                                    json!([next - 1, o])
                                }
                            });
                        }
                        json!({"p": 0, "m": ms})
                    }
                    OpRes::Finished(v, outs) => {
                        let ms: Vec<Value> = outs.iter().enumerate().map(|(k, o)| json!([first + k, o])).collect();
                        next += v.len().max(outs.len());
                        marks.extend(v);
                        json!({"p": 0, "m": ms, "fin": 1})
                    }
                };
                v["b"] = json!(b);
                v["b2"] = json!(next);
                marks.push(base.finish_with_attr(Mark(next)));
                next += 1;
                results.borrow_mut().push(v);
            }
            marks
        }))
    })?;
    let spans = catch(|| {
        let mut m: HashMap<usize, Vec<(i64, i64)>> = HashMap::new();
        for (r, _, vs) in line.query::<Mark>() {
            for v in vs {
                m.entry(v.0).or_default().push((unshift(r.0), unshift(r.1)));
            }
        }
        m
    })?;
    let one = |k: &Value| spans.get(&u(k)).map(|v| v[0]);
    let mut out = Vec::new();
    for (v, op) in results.into_inner().into_iter().zip(ops) {
        if v["p"] == json!(3) || one(&v["b"])? != (n(&op["s"]), n(&op["e"])) {
            out.push(bad(3)); // the harness could not make the selection the operation is about
        } else if one(&v["b2"])? != one(&v["b"])? {
            out.push(bad(2)); // the operation changed the selection it was applied to
        } else if v["p"] == json!(1) {
            out.push(bad(1));
        } else if v["i"].is_array() {
            out.push(ok(v["i"].clone()));
        } else {
            let mut r = Vec::new();
            for x in arr(&v["m"]) {
                if n(&x[0]) < 0 {
                    r.push(json!([-1, -1, []]));
                    continue;
                }
                match spans.get(&u(&x[0])) {
                    Some(rs) => rs.iter().for_each(|(a, b)| r.push(json!([a, b, x[1]]))),
                    None if v["fin"] == json!(1) => {}
                    None => return None,
                }
            }
            out.push(ok(json!(r)));
        }
    }
    Some(out)
}

/// one more line with the same history; None when some step panics
fn build(prog: &Value) -> Option<LLLine> {
    let mut l = create(prog)?;
    let calls = Cell::new(0);
    for r in arr(&prog["runs"]) {
        l = catch(|| run(l, r, &calls, &calls))?;
    }
    Some(l)
}

/// Looking at a line half way must not matter later: all operations are carried out once in vain.
fn peek(prog: &Value, line: LLLine) -> LLLine {
    if prog["peek"] != json!(1) {
        return line;
    }
    let ops = arr(&prog["ops"]);
    let len = line.ll_tokens().len();
    for op in ops.iter().filter(|op| is_line_op(op) && op["f"] != "whole") {
        line_op(op, &line, prog);
    }
    for ty in ["A", "B", "C", "Z", "tag", "char"] {
        catch(|| line.find(&Ref(&M::Attr(ty.to_string()))).len());
    }
    line.run(&Do(|whole: LLSelection| -> Vec<LLCursorAssignment<Mark>> {
        for op in ops.iter().filter(|op| !is_line_op(op)) {
            if let Some(Some(base)) = catch(|| select(&whole, len, u(&op["s"]), u(&op["e"]))) {
                catch(|| drop(sel_op(op, &base, len, &whole, None, 0)));
            }
        }
        vec![]
    }))
}

/// Executes a program. The result has
///   cr     [p, toks, store]   after creation (p = 1: it panicked)
///   rs     [p, store, calls, toks]   after each run, up to the first that panicked
///   res    [p, r]             per operation (when all runs went through)
///   nd     1: what was done with another line meanwhile gave something else than at another time
pub fn exec(prog: &Value) -> Value {
    PRE.set(0);
    NEST.set(0);
    if prog["boom"] == json!(1) {
        boom(prog);
    }
    // when it fails by itself, that is for others to find
    DIFFERS.set(0);
    let nest = match if prog["nest"] == json!(1) { catch(elsewhere) } else { None } {
        Some(r) => {
            ELSEWHERE.set(r);
            12
        }
        None => 0,
    };
    PRE.set(prog["pre"].as_u64().unwrap_or(0) as usize);
    NEST.set(nest);
    let mut r = exec_here(prog);
    PRE.set(0);
    NEST.set(0);
    r["nd"] = json!(DIFFERS.get());
    r
}
fn exec_here(prog: &Value) -> Value {
    arena_clear();
    let Some(mut line) = create(prog) else {
        return json!({"cr": {"p": 1, "toks": [], "st": []}, "rs": [], "res": []});
    };
    let tk = toks(&line);
    let st = store(&line);
    let p = st.is_none() as i64;
    let cr = json!({"p": 2 * p, "toks": tk, "st": st.unwrap_or(json!([]))});
    line = peek(prog, line);
    let mut rs = Vec::new();
    for r in arr(&prog["runs"]) {
        let (calls, skip) = (Cell::new(0i64), Cell::new(0i64));
        match catch(|| run(line, r, &calls, &skip)) {
            None => {
                rs.push(json!({"p": 1, "st": [], "ord": [], "calls": calls.get(), "skip": skip.get(), "same": 1}));
                return json!({"cr": cr, "rs": rs, "res": []});
            }
            Some(l) => line = l,
        }
        line = peek(prog, line);
        let same = (json!(toks(&line)) == cr["toks"]) as i64;
        match store(&line) {
            None => rs.push(json!({"p": 2, "st": [], "ord": [], "calls": calls.get(), "skip": skip.get(), "same": same})),
            Some(st) => rs.push(json!({"p": 0, "st": st, "ord": pos_order(&line), "calls": calls.get(), "skip": skip.get(), "same": same})),
        }
    }
    // without having been looked at in between
    if prog["blind"] == json!(1) {
        if let Some(l) = build(prog) {
            line = l;
        }
    }
    let ops = arr(&prog["ops"]);
    // 4: not carried out
    let mut res: Vec<Value> = vec![bad(4); ops.len()];
    let mut sel = Vec::new();
    for (k, op) in ops.iter().enumerate() {
        if is_line_op(op) {
            res[k] = line_op(op, &line, prog).map_or(bad(1), ok);
        } else {
            sel.push(k);
        }
    }
    if line.ll_tokens().is_empty() {
        for k in sel {
            res[k] = bad(3);
        }
    } else if !sel.is_empty() {
        let needs_other = |k: &usize| ops[*k]["f"] == "split_other" || ops[*k]["other"] == json!(1);
        let other = if sel.iter().any(needs_other) { build(prog) } else { None };
        let list: Vec<&Value> = sel.iter().map(|k| &ops[*k]).collect();
        match sel_ops(line, other, &list) {
            Some(rs) => sel.iter().zip(rs).for_each(|(k, r)| res[*k] = r),
            None => {
                // some operation gave an unusable selection: find out which
                for k in sel {
                    let other = if needs_other(&k) { build(prog) } else { None };
                    res[k] = build(prog).and_then(|l| sel_ops(l, other, &[&ops[k]])).map_or(bad(4), |mut r| r.remove(0));
                }
            }
        }
    }
    json!({"cr": cr, "rs": rs, "res": res})
}

/// environment facts of a line: lower-cased texts, dictionary entries and display widths of its tokens
pub fn facts(toks: &[Value]) -> Value {
    use unicode_width::UnicodeWidthStr;
    use wiktionary_part_of_speech_extract::ENGLISH_TAG_LOOKUP;
    let mut lo = Vec::new();
    let mut dict = Vec::new();
    let mut wid = Vec::new();
    for t in toks {
        let text = text_of(&t[2]);
        let low = text.to_lowercase();
        lo.push(cps(&low));
        dict.push(match ENGLISH_TAG_LOOKUP.get(&low) {
            Some(ts) => {
                let mut v: Vec<i64> = ts.tags().map(|t| pos_no(&t)).collect();
                v.sort();
                v
            }
            None => vec![-1],
        });
        wid.push(if t[0] == json!(1) { UnicodeWidthStr::width(text.as_str()) } else { 2 });
    }
    json!({"lo": lo, "dict": dict, "wid": wid})
}
