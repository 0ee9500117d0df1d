//! Random programs per property: inputs to the real code whose recorded executions the specification judges.
use crate::exec;
use crate::types::tag_no;
use layered_nlp::LToken;
use serde_json::{json, Value};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    /// streams of different seeds and numbers have nothing to do with each other
    pub fn new(seed: u64, k: u64) -> Self {
        let mut a = Rng(seed);
        let mut b = Rng(a.next() ^ k.wrapping_mul(0xD6E8FEB86659FD93));
        Rng(b.next() ^ a.next())
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

// ---- texts -------------------------------------------------------------------------------------

const SPECIAL: &[char] = &[
    '\'', '"', '.', ',', ';', ':', '!', '?', '-', '–', '—', '_', '$', '%', '#', '@', '(', ')', '/', '+', '=', '&', '*', '^', '`', '~', '|', '\\', '<',
    '>', '[', ']', '{', '}', '“', '”', '‘', '’', '…', '€', '£', '©', '®', '°', '·', '×', '\u{ad}', '\u{200d}', '\u{fe0f}', '\u{20e3}', '\u{200e}', '\u{203f}',
    '\u{2028}', '\u{0}', '\u{7f}', '\u{85}', '\u{feff}', '\u{b2}', '½', '№', 'ª', 'µ', '\u{fffc}', '\u{fffd}',
    '\u{200b}', '\u{200c}', '\u{200f}', '\u{2029}', '\u{202e}', '\u{2060}', '\u{2067}', '\u{2069}', '\u{61c}', '\u{180e}', '\u{34f}', '\u{3164}', '\u{2800}',
    '\u{1a}', '\u{1b}', '\u{8}', '\u{1f}', '\u{9f}', '\u{e000}', '\u{f8ff}', '\u{10ffff}', '\u{fdd0}', '¿', '¡', '«', '»', '„', '‚', '†', '•', '‽', '、', '。', '，', '！',
    '？', '；', '：', '・', '「', '।', '؟', '،', '؛', '׳', '״', '－', '−', '‑', '‒', '―', '＂', '＇', '․', '‥', '⁄', '₂', '⅓', '＄', '．', '´', '¨', '′', '″', '¦', '§', '¶', '☃', '⟨',
];
const SPACES: &[char] = &[' ', ' ', ' ', '\t', '\n', '\r', '\u{a0}', '\u{2003}', '\u{3000}', '\u{b}', '\u{c}', '\u{202f}', '\u{1680}'];
const LETTERS: &[char] = &[
    'a', 'b', 'Z', 'x', 'é', 'É', 'ß', 'İ', 'ſ', 'Σ', 'ς', 'σ', 'ж', 'Ж', 'א', 'ב', 'あ', 'カ', 'ー', '中', '文', 'ก', 'ا', '한', 'ǅ', 'ﬁ', 'ⅷ', 'ʰ', '𝐀', 'ａ', 'Ａ',
];
const DIGITS: &[char] = &['0', '1', '2', '9', '٣', '१', '１', '²', '𝟗', 'Ⅷ', '①'];
const MARKS: &[char] = &['\u{301}', '\u{308}', '\u{327}', '\u{483}', '\u{93e}', '\u{e31}', '\u{1f3fd}', '\u{fe0f}', '\u{20e3}'];
const EMOJI: &[char] = &['😀', '🦶', '👩', '🇫', '🇷', '🇺', '🏳', '🌈', '❤', '👨', '💻'];

fn any_char(r: &mut Rng) -> char {
    match r.below(16) {
        0..=2 => *r.pick(LETTERS),
        3..=4 => char::from(b'a' + r.below(26) as u8),
        5 => char::from(b'A' + r.below(26) as u8),
        6..=7 => char::from(b'0' + r.below(10) as u8),
        8 => *r.pick(DIGITS),
        9..=10 => *r.pick(SPECIAL),
        11 => *r.pick(SPACES),
        12 => *r.pick(MARKS),
        13 => *r.pick(EMOJI),
        14 => char::from_u32(r.range(0x20, 0x24f) as u32).unwrap_or('a'),
        _ => char::from_u32(r.below(*r.clone().pick(&[0x3100, 0x10000, 0x110000])) as u32).unwrap_or('\u{1F1E6}'),
    }
}

/// wild text: any characters
fn wild_text(r: &mut Rng, max: usize) -> String {
    if max >= 7 && r.one_in(40) {
        return run_text(r);
    }
    let n = r.range(1, max);
    let mode = r.below(8);
    (0..n)
        .map(|k| match mode {
            // digit words
            0 | 1 => match r.below(6) {
                0 | 1 => char::from(b'0' + r.below(10) as u8),
                2 => *r.pick(&[',', '.', '\'', '_', ':', ';', '’', '-', '–', '"', '·', '$', '%']),
                3 => *r.pick(LETTERS),
                4 => *r.pick(MARKS),
                _ => if k == 0 { '7' } else { any_char(r) },
            },
            // ascii only
            2 => char::from_u32(r.range(0x20, 0x7e) as u32).unwrap(),
            // words with joiners
            3 => *r.pick(&['a', 'b', '\'', '-', '–', ' ', 'É', '.', '_', '’', ':', '中', '\u{301}']),
            // flags, joiners, marks
            4 => *r.pick(&['🇫', '🇷', '\u{200d}', '👩', '\u{fe0f}', '💻', 'a', ' ', '\u{301}', '\r', '\n']),
            _ => any_char(r),
        })
        .collect()
}

/// a long run of one character, or two by turns, between others
fn run_text(r: &mut Rng) -> String {
    let n = match r.below(6) {
        0 => r.range(250, 530),
        1..=3 => r.range(60, 140),
        _ => r.range(12, 40),
    };
    let pool = *r.pick(&[SPACES, SPACES, LETTERS, DIGITS, MARKS, EMOJI, SPECIAL, PUNCT_CHARS]);
    let a = *r.pick(pool);
    let b = match r.below(4) {
        0 => *r.pick(pool),
        1 => *r.pick(&['\'', ',', '.', '-', '\u{200d}', '\u{301}', '_', '1', 'a']),
        _ => a,
    };
    let mut t: String = (0..r.below(3)).map(|_| any_char(r)).collect();
    t.extend((0..n).map(|k| if k % 2 == 0 { a } else { b }));
    t.extend((0..r.below(3)).map(|_| any_char(r)));
    t
}
const PUNCT_CHARS: &[char] = &['.', ',', '!', '?', ';', ':', '\'', '"'];

const WORDS: &[&str] = &[
    "a", "I", "x", "the", "The", "if", "If", "IF", "when", "then", "THEN", "and", "And", "run", "Paris", "well", "don't", "re-run", "é", "Éa", "ß", "STRASSE",
    "Σας", "中文", "naïve", "İstanbul", "zzqx", "message", "be", "light", "ΟΔΟΣ", "ΣΑΣ", "Σ", "ẞ", "\u{212a}m", "\u{212b}", "ǅa", "ﬁn", "ŉx", "ÇA", "ΐ",
];
const PUNCTS: &[&str] = &[".", ",", "!", "?", ";", ":", "'", "\""];
const SYMBS: &[&str] = &["$", "#", "😀", "(", "%", "—", "👩\u{200d}💻", "€", "_"];
const NUMS: &[&str] = &["0", "1", "00", "12", "100", "007", "000", "999999", "4294967296", "18446744073709551616"];

fn plain_piece(r: &mut Rng) -> String {
    if r.one_in(60) {
        return long_word(r);
    }
    match r.below(12) {
        0..=4 => {
            let w = r.pick(WORDS).to_string();
            cased(r, w)
        }
        5..=7 => if r.one_in(8) { "  ".into() } else { " ".into() },
        8 => r.pick(PUNCTS).to_string(),
        9 => r.pick(SYMBS).to_string(),
        10 => r.pick(NUMS).to_string(),
        _ if r.one_in(3) => any_char(r).to_string(),
        _ => wild_text(r, 3),
    }
}

/// the word, now and then in another case
fn cased(r: &mut Rng, w: String) -> String {
    match r.below(16) {
        0 | 1 => w.to_uppercase(),
        2 => w.to_lowercase(),
        3 => w.chars().map(|c| if r.one_in(2) { c.to_uppercase().next().unwrap() } else { c }).collect(),
        4 => w.chars().enumerate().flat_map(|(k, c)| if k == 0 { c.to_uppercase().collect::<Vec<_>>() } else { vec![c] }).collect(),
        _ => w,
    }
}

/// a long word, now and then a very long one
fn long_word(r: &mut Rng) -> String {
    let n = match r.below(12) {
        0 => r.range(250, 300),
        1..=3 => r.range(60, 130),
        _ => r.range(12, 40),
    };
    let c = *r.pick(&['a', 'Q', 'é', 'ж']);
    (0..n).map(|k| if k % 7 == 3 { c } else { char::from(b'a' + r.below(26) as u8) }).collect()
}

fn text_input(t: &str) -> Value {
    json!({"k": "T", "cp": exec::cps(t), "at": []})
}
fn custom_input(r: &mut Rng, bare: usize) -> Value {
    let sz = match r.below(5) {
        0 => 0,
        1 => 1,
        2 => r.below(1000),
        3 => *r.pick(&[255, 256, 1000, 65535, 65536, 70000, 1 << 20]),
        _ => r.range(1, 9),
    };
    json!({"k": "V", "sz": sz, "anc": if bare > 0 && r.one_in(bare) { 0 } else { 1 }, "at": []})
}

/// inputs of about `n` tokens: texts of a few pieces and custom tokens
fn inputs(r: &mut Rng, n: usize, bare: usize) -> Vec<Value> {
    let mut v = Vec::new();
    let mut left = n;
    let customs = r.below(3); // how often custom tokens occur
    while left > 0 {
        if customs > 0 && r.one_in(2 + 3 * customs) {
            v.push(custom_input(r, bare));
            left -= 1;
        } else {
            let most = if r.one_in(2) { 2 } else if left > 40 && r.one_in(5) { left } else { 9 };
            let k = r.range(1, left.min(most));
            let mut t = String::new();
            for _ in 0..k {
                t.push_str(&plain_piece(r));
            }
            v.push(text_input(&t));
            left -= k;
        }
    }
    v
}

const SZF: &[&str] = &["u8", "u16", "chars", "one", "zero", "mix"];

pub struct Ids(pub i64);
impl Ids {
    fn next(&mut self) -> i64 {
        self.0 += 1;
        self.0
    }
}

fn value(r: &mut Rng, ty: &str) -> Vec<i64> {
    match ty {
        "tag" => vec![r.range(1, 5) as i64],
        "char" => vec![*r.pick(&[',', '.', 'a', '1', ' ', 'é']) as i64],
        "kw" => vec![r.range(1, 3) as i64],
        "Z" => vec![1],
        "clause" | "C" => vec![r.range(1, 4) as i64],
        _ => vec![r.range(1, 3) as i64],
    }
}
fn id_for(ids: &mut Ids, ty: &str) -> i64 {
    if matches!(ty, "A" | "B" | "C") {
        ids.next()
    } else {
        0
    }
}

fn add_input_attrs(r: &mut Rng, ids: &mut Ids, inp: &mut [Value], types: &[&str], density: usize) {
    for i in inp.iter_mut() {
        if r.one_in(density) {
            let n = if r.one_in(6) { r.range(4, 9) } else { r.range(1, 3) };
            for _ in 0..n {
                let ty = *r.pick(types);
                let at = json!({"ty": ty, "v": value(r, ty), "id": id_for(ids, ty)});
                i["at"].as_array_mut().unwrap().push(at);
            }
        }
    }
}

// ---- programs ------------------------------------------------------------------------------------

/// what the generator knows of the line: the real token count and kinds
struct Shape {
    n: usize,
    tags: Vec<i64>,
}
fn shape(prog: &Value) -> Shape {
    match exec::create(prog) {
        None => Shape { n: 0, tags: vec![] },
        Some(l) => {
            let tags: Vec<i64> = l
                .ll_tokens()
                .iter()
                .map(|t| match t.get_token() {
                    LToken::Text(_, tag) => tag_no(tag),
                    LToken::Value => 0,
                })
                .collect();
            Shape { n: tags.len(), tags }
        }
    }
}

fn span(r: &mut Rng, n: usize) -> (usize, usize) {
    if n > 200 && r.one_in(3) {
        return (r.below(5), n - 1 - r.below(5));
    }
    let s = r.below(n);
    let e = match r.below(6) {
        0 | 1 => s,
        2 => (s + 1).min(n - 1),
        3 => (s + r.below(4)).min(n - 1),
        4 => n - 1,
        _ => r.range(s, n - 1),
    };
    match r.below(12) {
        0 => (0, e),
        1 => (0, n - 1),
        _ => (s, e),
    }
}

fn assign_run(r: &mut Rng, ids: &mut Ids, n: usize, types: &[&str], max: usize) -> Value {
    let ty = *r.pick(types);
    let k = r.range(1, max);
    let mut as_: Vec<Value> = Vec::new();
    let mut last = (0, 0);
    for i in 0..k {
        let mut sp = span(r, n);
        if i > 0 {
            // same span again, same start, same end, nested
            match r.below(9) {
                0 => sp = last,
                // next to it
                3 | 4 if last.1 + 1 < n => sp = (last.1 + 1, sp.1.max(last.1 + 1)),
                1 => sp = (last.0, sp.1.max(last.0)),
                2 => sp = (sp.0.min(last.1), last.1),
                _ => {}
            }
        }
        last = sp;
        as_.push(json!({"s": sp.0, "e": sp.1, "v": value(r, ty), "id": id_for(ids, ty)}));
    }
    json!({"r": "assign", "ty": ty, "as": as_})
}

/// values on very many spans
fn spread(r: &mut Rng, ids: &mut Ids, n: usize, types: &[&str], most: usize) -> Value {
    let ty = *r.pick(types);
    let k = r.range(most / 2, most);
    let wide = r.one_in(2);
    let as_: Vec<Value> = (0..k)
        .map(|i| {
            let (s, e) = if wide { span(r, n) } else { (i % n, (i % n + i / n).min(n - 1)) };
            json!({"s": s, "e": e, "v": value(r, ty), "id": id_for(ids, ty)})
        })
        .collect();
    json!({"r": "assign", "ty": ty, "as": as_})
}

/// very many values on one or two spans
fn heap(r: &mut Rng, ids: &mut Ids, n: usize, types: &[&str], most: usize) -> Value {
    let ty = *r.pick(types);
    let spans = [span(r, n), span(r, n)];
    let k = r.range(most / 2, most);
    let as_: Vec<Value> = (0..k)
        .map(|_| {
            let sp = if r.one_in(4) { spans[1] } else { spans[0] };
            json!({"s": sp.0, "e": sp.1, "v": value(r, ty), "id": id_for(ids, ty)})
        })
        .collect();
    json!({"r": "assign", "ty": ty, "as": as_})
}

fn elementary(r: &mut Rng, types: &[&str]) -> Value {
    let ty = *r.pick(types);
    match r.below(8) {
        0..=2 => json!({"m": "attr", "ty": ty}),
        3 => json!({"m": "eq", "ty": ty, "v": value(r, ty)}),
        4 => {
            let k = r.below(4);
            let mut vs: Vec<_> = (0..k).map(|_| value(r, ty)).collect();
            if r.one_in(5) && matches!(ty, "A" | "B") {
                // most of a long list is of no use
                let at = r.below(vs.len() + 1);
                let n = [r.range(5, 12), r.range(5, 40), r.range(250, 300)][r.below(3)];
                vs.splice(at..at, (0..n).map(|_| vec![r.range(100, 1 << 40) as i64]));
            }
            json!({"m": "has", "ty": ty, "vs": vs})
        }
        5 => json!({"m": "ws"}),
        _ => json!({"m": "text"}),
    }
}
fn matcher(r: &mut Rng, types: &[&str], depth: usize) -> Value {
    if depth == 0 || r.one_in(4) {
        return elementary(r, types);
    }
    let k = if r.one_in(2) { 2 } else { 3 };
    let xs: Vec<Value> = (0..k).map(|_| matcher(r, types, depth - 1)).collect();
    json!({"m": *r.pick(&["seq", "seq", "all", "or", "or"]), "xs": xs})
}
/// rough bound on the matches of a matcher, with at most `per` values per start
fn weight(m: &Value, per: usize) -> usize {
    let w = || m["xs"].as_array().unwrap().iter().map(|x| weight(x, per));
    match m["m"].as_str().unwrap() {
        "seq" | "all" => w().fold(1, usize::saturating_mul),
        "or" => w().max().unwrap(),
        "ws" | "text" => 1,
        _ => per,
    }
}
fn light_matcher(r: &mut Rng, types: &[&str], depth: usize, per: usize) -> Value {
    loop {
        let m = matcher(r, types, depth);
        if weight(&m, per) <= 120 {
            return m;
        }
    }
}

const ABC: &[&str] = &["A", "B", "C", "A", "B", "C", "Z"];
const AB: &[&str] = &["A", "B"];
const ALL: &[&str] = &["A", "B", "C", "Z", "tag", "char", "kw", "clause"];
const MATCHABLE: &[&str] = &["A", "A", "B", "tag", "char"];

/// texts of the tokens of a program's line
fn words_of(inp: &[Value]) -> Vec<String> {
    use unicode_segmentation::UnicodeSegmentation;
    let t: Vec<String> = inp.iter().map(|i| exec::text_of(&i["cp"])).collect();
    t.iter().flat_map(|t| t.split_word_bounds()).map(str::to_string).collect()
}

fn library_run(r: &mut Rng, ids: &mut Ids, words: &[String]) -> Value {
    match r.below(6) {
        0 => amount_run(r),
        1 => kw_run(r, words),
        2 => json!({"r": "clause"}),
        3 => json!({"r": "pos"}),
        _ => text_run(r, ids, words),
    }
}
fn amount_run(r: &mut Rng) -> Value {
    match r.below(5) {
        0 | 1 => json!({"r": "amount", "cfg": "en"}),
        2 | 3 => json!({"r": "amount", "cfg": "fr"}),
        _ => {
            let k = r.below(4);
            let mut del: String = (0..k).map(|_| *r.pick(&[',', '.', '\'', ' ', '_', 'a', '·', '5'])).collect();
            if r.one_in(6) {
                // most of a long list is of no use
                del = (0..r.range(4, 40)).map(|_| char::from_u32(r.range(0x2500, 0x25ff) as u32).unwrap()).chain(del.chars()).collect();
            }
            json!({"r": "amount", "cfg": "new", "del": exec::cps(&del), "dec": *r.pick(&['.', ',', ':', '_', 'p', ' ']) as i64})
        }
    }
}
fn kw_run(r: &mut Rng, words: &[String]) -> Value {
    const LOW: &[&str] = &["if", "when", "then", "and", "or", "é", "straße", "i̇stanbul", "the", "a", "don't", ",", "中文", "σας", "οδος", "ß", "km", "å"];
    if r.one_in(3) {
        let w = |ws: &[&str]| ws.iter().map(|w| exec::cps(w)).collect::<Vec<_>>();
        return json!({"r": "kw", "c": w(&["if", "when"]), "a": w(&["and"]), "t": w(&["then"])});
    }
    let list = |r: &mut Rng| {
        let k = r.below(4);
        let n = if r.one_in(8) { [r.range(4, 12), r.range(12, 70)][r.below(2)] } else { 0 };
        (0..n).map(|i| exec::cps(&format!("no{}", char::from(b'a' + (i % 26) as u8)))).chain((0..k).map(|_| match r.below(3) {
            0 if !words.is_empty() => exec::cps(&r.pick(words).to_lowercase()),
            _ => exec::cps(r.pick(LOW)),
        })).collect::<Vec<_>>()
    };
    json!({"r": "kw", "c": list(r), "a": list(r), "t": list(r)})
}
fn text_run(r: &mut Rng, ids: &mut Ids, words: &[String]) -> Value {
    let ty = *r.pick(AB);
    let arr = r.one_in(3);
    let ci = arr || r.one_in(2);
    let k = r.below(6);
    let mut tab: Vec<Value> = Vec::new();
    for _ in 0..k {
        let mut key = match r.below(8) {
            0 => plain_piece(r),
            1..=4 if !words.is_empty() => r.pick(words).clone(),
            // another case of an earlier key
            5 if !tab.is_empty() => exec::text_of(&r.pick(&tab)["key"]),
            6 if r.one_in(6) => String::new(),
            _ => r.pick(WORDS).to_string(),
        };
        if r.one_in(8) {
            // nearly a word
            match r.below(4) {
                0 => drop(key.pop()),
                1 => key.push_str(r.pick(&["s", " ", "'s", "\u{301}", "a", ".", "\n", "-"])),
                2 => key.insert_str(0, r.pick(&[" ", "a", "'", "#", "\u{feff}"])),
                _ => key = key.chars().skip(1).collect(),
            }
        }
        match r.below(5) {
            0 => key = key.to_lowercase(),
            1 => key = key.to_uppercase(),
            2 => key = key.chars().map(|c| if r.one_in(2) { c.to_uppercase().next().unwrap() } else { c }).collect(),
            _ => {}
        }
        if !arr && tab.iter().any(|t| t["key"] == json!(exec::cps(&key))) {
            continue;
        }
        let nv = if arr { 1 } else if r.one_in(40) { r.range(5, 40) } else { r.below(4) };
        let mut vs: Vec<Value> = (0..nv).map(|_| json!({"v": value(r, ty), "id": ids.next()})).collect();
        if nv > 1 && r.one_in(3) {
            vs.push(vs[0].clone());
        }
        tab.push(json!({"key": exec::cps(&key), "lkey": exec::cps(&key.to_lowercase()), "vs": vs}));
    }
    json!({"r": "text", "ty": ty, "ci": ci as i64, "arr": arr as i64, "tab": tab})
}

/// number-rich text
fn amount_text(r: &mut Rng, max: usize) -> String {
    let n = r.range(1, max);
    let mut t = String::new();
    if max >= 8 && r.one_in(12) {
        // one number of many groups
        let g = [r.range(4, 9), r.range(9, 28), r.range(28, 70)][r.below(3)];
        let (d, m) = *r.pick(&[(',', '.'), ('.', ','), (' ', ','), ('\'', '.'), (',', ',')]);
        let at = r.below(2 * g);
        for i in 0..g {
            if i > 0 {
                t.push(if i == at { m } else { d });
            }
            let zeros = i + 9 < g || r.one_in(3);
            for _ in 0..[1, 1, 3][r.below(3)] {
                t.push(if zeros { '0' } else { char::from(b'0' + r.below(10) as u8) });
            }
        }
        if r.one_in(2) {
            return t;
        }
        t.push(*r.pick(&[',', '.', ' ', 'x']));
    }
    for _ in 0..n {
        match r.below(10) {
            0..=3 => {
                let k = match r.below(12) {
                    0 => r.range(18, 31),
                    1 => r.range(5, 12),
                    _ => r.range(1, 3),
                };
                let zeros = r.one_in(4);
                for _ in 0..k {
                    t.push(if zeros { '0' } else { char::from(b'0' + r.below(10) as u8) });
                }
            }
            4 | 5 => t.push(*r.pick(&[',', '.', '\''])),
            6 => t.push(' '),
            7 => t.push(*r.pick(&[',', ',', '.', '.', '_', ':', '-', '\u{a0}', '%', '$'])),
            8 => t.push_str(r.pick(&["a", "p", "USD", "é", "5a", "·"])),
            _ => t.push(*r.pick(&['.', ',', ' '])),
        }
    }
    t
}

/// sentence-like text with keywords, punctuation and spaces
fn clause_text(r: &mut Rng, max: usize) -> String {
    let n = r.range(1, max);
    let mut t = String::new();
    if max >= 8 && r.one_in(60) {
        // many clauses
        for _ in 0..[r.range(10, 40), r.range(60, 140)][r.below(2)] {
            t.push_str(r.pick(&["x, ", "x. ", "x, ", "if x, ", "x then ", "x and ", "run! "]));
        }
        return t;
    }
    if max >= 8 && r.one_in(25) {
        // long clauses
        for _ in 0..r.range(1, 3) {
            t.push_str(r.pick(&["if ", "then ", "and ", ", ", ". ", "", "when "]));
            t.push_str(&"it works ".repeat([r.range(3, 12), r.range(20, 70)][r.below(2)]));
        }
        return t;
    }
    for _ in 0..n {
        match r.below(9) {
            0 | 1 => t.push_str(r.pick(&["if", "when", "If", "WHEN"])),
            2 => t.push_str(r.pick(&["then", "Then"])),
            3 => t.push_str(r.pick(&["and", "And"])),
            4 => t.push_str(r.pick(PUNCTS)),
            5 | 6 => t.push_str(r.pick(&["x", "run", "it works", "1", "#"])),
            _ => {}
        }
        if !r.one_in(6) {
            t.push_str(r.pick(&[" ", " ", " ", "  ", "\t ", "\n"]));
        }
    }
    if t.is_empty() {
        t.push(' ');
    }
    t
}

fn prog(inp: Vec<Value>, szf: &str, via: &str) -> Value {
    json!({"input": inp, "szf": szf, "via": via, "runs": [], "ops": []})
}
fn push(p: &mut Value, key: &str, v: Value) {
    p[key].as_array_mut().unwrap().push(v);
}

fn size_class(r: &mut Rng, k: usize) -> usize {
    if k % 1000 == 500 {
        r.range(1030, 1060)
    } else if k % 97 == 96 {
        r.range(257, 330)
    } else if k % 11 == 10 {
        r.range(12, 40)
    } else {
        r.range(1, 8)
    }
}

fn sel(op: &str, s: usize, e: usize) -> Value {
    json!({"f": op, "s": s, "e": e})
}
fn sel_m(op: &str, s: usize, e: usize, m: Value) -> Value {
    json!({"f": op, "s": s, "e": e, "m": m})
}

/// a line with overlapping A, B and C attributes
fn layered(r: &mut Rng, k: usize, ids: &mut Ids, bare: usize, input_types: &[&str]) -> (Value, Shape) {
    layered_heavy(r, k, ids, bare, input_types, 0)
}
/// `heavy`: how many values a span may get at most now and then
fn layered_heavy(r: &mut Rng, k: usize, ids: &mut Ids, bare: usize, input_types: &[&str], heavy: usize) -> (Value, Shape) {
    let n = size_class(r, k);
    let mut inp = inputs(r, n, bare);
    if !input_types.is_empty() {
        add_input_attrs(r, ids, &mut inp, input_types, 4);
    }
    let mut p = prog(inp, "chars", "input");
    let sh = shape(&p);
    if sh.n > 0 {
        for _ in 0..r.range(0, 3) {
            let max = if sh.n > 50 { 12 } else { 6 };
            let a = assign_run(r, ids, sh.n, ABC, max);
            push(&mut p, "runs", a);
        }
        if heavy > 0 && k % 50 == 33 {
            let a = heap(r, ids, sh.n, ABC, heavy);
            push(&mut p, "runs", a);
        }
        // something at the far end of long lines
        if sh.n > 50 {
            let a = json!({"r": "assign", "ty": "A", "as": [
                {"s": sh.n - 2, "e": sh.n - 1, "v": [1], "id": ids.next()},
                {"s": 1, "e": sh.n - 2, "v": [2], "id": ids.next()},
                {"s": 256, "e": 256, "v": [1], "id": ids.next()},
                {"s": 255, "e": 256, "v": [3], "id": ids.next()}]});
            push(&mut p, "runs", a);
        }
    }
    (p, sh)
}

/// one step of a chain of operations on selections
fn step(r: &mut Rng, n: usize) -> Value {
    let f = *r.pick(&["find_by", "find_first", "both", "match_f", "match_b", "first_f", "first_b", "split_by", "split_by", "split_with", "trim", "trim_s", "trim_e", "after"]);
    let mut v = json!({"f": f, "pick": r.below(5)});
    match f {
        "after" => {}
        "split_with" => {
            let (s, e) = span(r, n);
            v["s2"] = json!(s);
            v["e2"] = json!(e);
        }
        _ => {
            let d = r.below(2);
            v["m"] = if r.one_in(3) { json!({"m": "ws"}) } else { light_matcher(r, MATCHABLE, d, 3) };
        }
    }
    v
}

/// One trace: one or more programs of `prop`. The resolvers of a trace are shared by its lines.
pub fn programs(prop: &str, r: &mut Rng, k: usize) -> Vec<Value> {
    let mut v = program(prop, r, k);
    // what a line is made with must not matter elsewhere
    if !matches!(prop, "C01" | "C02" | "C03") {
        let (szf, via) = (*r.pick(SZF), if r.one_in(6) { "tokens" } else { "input" });
        let mul = [0, 0, 0, 0, 0, 0, 1, 2][r.below(8)];
        for p in v.iter_mut() {
            p["szf"] = json!(szf);
            p["via"] = json!(via);
            if mul > 0 {
                p["mul"] = json!(mul);
            }
        }
    }
    // nor the thread, nor what is done meanwhile and was done before
    for p in v.iter_mut() {
        if r.one_in(if prop == "C19" { 5 } else { 25 }) {
            p["thr"] = json!(1);
        }
        for (how, n) in [("nest", 8), ("boom", 16), ("blind", 4), ("peek", 6)] {
            if r.one_in(n) {
                p[how] = json!(1);
            }
        }
    }
    // and neither where on a line
    let most: usize = std::env::var("LNVERIF_PREMAX").ok().and_then(|x| x.parse().ok()).unwrap_or(usize::MAX);
    for p in v.iter_mut() {
        let some = |l: &str, key: &str, w: &[&str]| arr(&p[l]).iter().any(|x| w.iter().any(|y| x[key] == *y));
        let empty = arr(&p["input"]).iter().any(|i| i["k"] == "T" && arr(&i["cp"]).is_empty());
        if r.one_in(8) && p["via"] != "string" && !empty && !arr(&p["input"]).is_empty() && !some("runs", "r", &["full", "clause"]) && !some("ops", "f", &["whole"]) {
            let n = if r.one_in(6) { [65535 - r.below(20), 65536, 65537 + r.below(9000)][r.below(3)] } else { [1 + r.below(8), 120 + r.below(20), 250 + r.below(12), 256 * (1 + r.below(20))][r.below(4)] };
            // a display takes time in the square of the tokens
            p["pre"] = json!(if matches!(prop, "C06" | "C13") { n.min(4000) } else { n }.min(most));
        }
    }
    if matches!(prop, "C14" | "C15" | "C16" | "C17" | "C18") && k % 4 == 0 {
        let mut other = program(prop, r, 1).remove(0);
        let runs: Vec<Value> = arr(&v[0]["runs"]).iter().filter(|x| x["r"] != "assign").cloned().collect();
        other["runs"] = json!(runs);
        let mut again = v[0].clone();
        again["input"] = other["input"].clone();
        let inp = again["input"].as_array_mut().unwrap();
        if r.one_in(2) {
            inp.reverse();
        }
        again["runs"] = json!(runs);
        let first = v[0].clone();
        v.extend([other, again, first]);
    }
    v
}
fn arr(v: &Value) -> &[Value] {
    v.as_array().map(|a| a.as_slice()).unwrap_or(&[])
}
fn program(prop: &str, r: &mut Rng, k: usize) -> Vec<Value> {
    let mut ids = Ids(10);
    let ids = &mut ids;
    match prop {
        "C01" | "C02" => {
            if prop == "C01" && k % 1000 == 707 {
                // one very long token
                let t: String = std::iter::repeat(*r.pick(&['a', '7', 'ж', ' ', 'é'])).take(65_530 + r.below(3000)).collect();
                return vec![prog(vec![custom_input(r, 2), text_input(&t), text_input("a.")], "u8", "input")];
            }
            let via = *r.pick(&["input", "input", "input", "tokens", "string"]);
            let mut inp = Vec::new();
            let cnt = if via == "string" { 1 } else if r.one_in(12) { 0 } else { r.range(1, 4) };
            for _ in 0..cnt {
                if via != "string" && r.one_in(5) {
                    inp.push(custom_input(r, 2));
                } else if r.one_in(40) && prop == "C01" {
                    inp.push(text_input(""));
                } else {
                    let max = if k % 500 == 250 { 3000 } else if k % 50 == 49 { 300 } else if r.one_in(3) { 24 } else { 7 };
                    let t = if r.one_in(6) { amount_text(r, max) } else if r.one_in(6) { clause_text(r, max.min(30)) } else { wild_text(r, max) };
                    inp.push(text_input(&t));
                }
            }
            if prop == "C01" {
                add_input_attrs(r, ids, &mut inp, ABC, 5);
            }
            let szf = if via == "string" { "u8" } else { *r.pick(SZF) };
            if via == "string" {
                inp[0]["at"] = json!([]);
            }
            let mut p = prog(inp, szf, via);
            if via != "string" && r.one_in(6) {
                p["mul"] = json!(r.range(1, 2));
            }
            if prop == "C02" {
                let sh = shape(&p);
                if sh.n > 0 && sh.n <= 60 {
                    push(&mut p, "ops", sel_m("both", 0, sh.n - 1, json!({"m": "attr", "ty": *r.pick(&["tag", "char"])})));
                }
            }
            vec![p]
        }
        "C03" => {
            let n = size_class(r, k);
            let mut inp = if r.one_in(3) {
                (0..r.range(1, 4)).map(|_| if r.one_in(3) { custom_input(r, 0) } else { text_input(&wild_text(r, 12)) }).collect()
            } else {
                inputs(r, n, 0)
            };
            add_input_attrs(r, ids, &mut inp, &["A"], 2);
            let via = *r.pick(&["input", "tokens"]);
            let mut p = prog(inp, r.pick(SZF), via);
            if r.one_in(6) {
                p["mul"] = json!(r.range(1, 2));
            }
            let sh = shape(&p);
            if sh.n > 0 {
                let a = assign_run(r, ids, sh.n, &["A"], 6);
                push(&mut p, "runs", a);
                // every single token
                let all: Vec<Value> = (0..sh.n).map(|i| json!({"s": i, "e": i, "v": [9], "id": 0})).collect();
                push(&mut p, "runs", json!({"r": "assign", "ty": "B", "as": all}));
            }
            push(&mut p, "ops", json!({"f": "find", "m": {"m": "attr", "ty": "B"}}));
            push(&mut p, "ops", json!({"f": "find", "m": {"m": "text"}}));
            push(&mut p, "ops", json!({"f": "find", "m": {"m": "attr", "ty": "A"}}));
            let m = light_matcher(r, MATCHABLE, 1, 3);
            push(&mut p, "ops", json!({"f": "find", "m": m}));
            vec![p]
        }
        "C04" => {
            let n = size_class(r, k);
            let mut inp = inputs(r, n, 3);
            let d = r.range(1, 3);
            let types: Vec<&str> = match r.below(3) {
                0 => vec!["A"],
                1 => vec!["A", "B"],
                _ => ALL.to_vec(),
            };
            add_input_attrs(r, ids, &mut inp, &types, d);
            if k % 50 == 33 {
                let i = r.below(inp.len());
                let most = if k % 500 == 33 { 600 } else { 120 };
                for _ in 0..r.range(most / 2, most) {
                    let ty = *r.pick(&types);
                    let at = json!({"ty": ty, "v": value(r, ty), "id": id_for(ids, ty)});
                    inp[i]["at"].as_array_mut().unwrap().push(at);
                }
            }
            for i in inp.iter_mut() {
                for a in i["at"].as_array_mut().unwrap() {
                    if r.one_in(3) {
                        a["pr"] = json!((0..r.range(1, 3)).map(|_| *r.pick(ALL)).collect::<Vec<_>>());
                    }
                }
            }
            let mut p = prog(inp, r.pick(SZF), "input");
            for ty in ["A", "B", "tag", "char"] {
                push(&mut p, "ops", json!({"f": "query", "ty": ty}));
            }
            let sh = shape(&p);
            if sh.n > 0 && sh.n <= 60 {
                push(&mut p, "ops", sel_m("both", 0, sh.n - 1, json!({"m": "attr", "ty": *r.pick(&types)})));
            }
            let ty = *r.pick(ALL);
            let mut tries: Vec<&str> = (0..r.below(4)).map(|_| *r.pick(ALL)).collect();
            tries.push(ty);
            let a = json!({"ty": ty, "v": value(r, ty), "id": id_for(ids, ty)});
            push(&mut p, "ops", json!({"f": "extract", "a": a, "tries": tries}));
            vec![p]
        }
        "C05" => {
            let n = if r.one_in(30) { 0 } else { size_class(r, k) };
            let mut inp = inputs(r, n, 12);
            add_input_attrs(r, ids, &mut inp, ALL, 4);
            let mut p = prog(inp, "u8", "input");
            let sh = shape(&p);
            let many = if k % 150 == 77 { 30 } else { 6 };
            if sh.n > 0 && k % 50 == 33 {
                let most = if k % 500 == 33 { 600 } else { 120 };
                let a = heap(r, ids, sh.n, ABC, most);
                push(&mut p, "runs", a);
            }
            if sh.n > 0 && k % 100 == 58 {
                let most = if k % 500 == 58 { 2200 } else { 700 };
                let a = spread(r, ids, sh.n, ABC, most);
                push(&mut p, "runs", a);
            }
            for _ in 0..r.range(many / 6, many) {
                let run = match r.below(8) {
                    0 | 1 if sh.n > 0 => assign_run(r, ids, sh.n, ALL, 7),
                    2 | 3 if sh.n > 0 => assign_run(r, ids, sh.n, ABC, 7),
                    4 => json!({"r": "full", "ty": "A", "v": [r.range(1, 3)], "id": ids.next()}),
                    5 => {
                        let ty = *r.pick(&["A", "B", "C", "Z", "tag", "char"]);
                        json!({"r": "echo", "ty": ty, "to": if matches!(ty, "tag" | "char" | "Z") { *r.pick(&["A", ty]) } else { *r.pick(&["A", "B", "C"]) }, "add": if matches!(ty, "tag" | "char" | "Z") { 0 } else { 1000 * r.range(1, 9) }})
                    }
                    _ => {
                        let w = words_of(arr(&p["input"]));
                        library_run(r, ids, &w)
                    }
                };
                push(&mut p, "runs", run);
            }
            if sh.n > 0 && sh.n <= 40 {
                for _ in 0..2 {
                    push(&mut p, "ops", sel_m("both", 0, sh.n - 1, json!({"m": "attr", "ty": *r.pick(&["A", "A", "B", "C", "Z", "tag", "char"])})));
                }
            }
            vec![p]
        }
        "C06" => {
            let (mut p, sh) = layered_heavy(r, k, ids, 8, &["A", "B", "tag"], 120);
            if r.one_in(3) {
                let w = words_of(arr(&p["input"]));
                let l = library_run(r, ids, &w);
                push(&mut p, "runs", l);
            }
            for ty in ["A", "B", "tag", "char"] {
                push(&mut p, "ops", json!({"f": "query", "ty": ty}));
                push(&mut p, "ops", json!({"f": "find", "m": {"m": "attr", "ty": ty}}));
            }
            if sh.n > 0 {
                push(&mut p, "ops", sel_m("find_by", 0, sh.n - 1, json!({"m": "attr", "ty": "A"})));
                for i in 0..sh.n {
                    if sh.n > 30 && !(i < 3 || i + 4 > sh.n || (253..259).contains(&i)) {
                        continue;
                    }
                    let ty = *r.pick(&["A", "A", "B", "C", "Z", "tag"]);
                    push(&mut p, "ops", sel_m("match_f", i, i, json!({"m": "attr", "ty": ty})));
                    push(&mut p, "ops", sel_m("match_b", i, i, json!({"m": "attr", "ty": ty})));
                }
            }
            push(&mut p, "ops", json!({"f": "disp", "how": 0, "tys": ["A", "B"]}));
            vec![p]
        }
        "C07" => {
            let (mut p, sh) = layered_heavy(r, k, ids, 3, &["A", "tag", "char"], 120);
            for _ in 0..r.range(6, 14) {
                if sh.n == 0 {
                    break;
                }
                let (s, e) = span(r, sh.n);
                let m = elementary(r, &["A", "A", "B", "C", "Z", "tag", "char"]);
                let f = *r.pick(&["find_by", "both", "match_f", "match_b", "both"]);
                push(&mut p, "ops", sel_m(f, s, e, m));
            }
            let m = elementary(r, &["A", "tag", "char"]);
            push(&mut p, "ops", json!({"f": "find", "m": m}));
            vec![p]
        }
        "C08" => {
            let (mut p, sh) = layered(r, k, ids, 6, &["A"]);
            if sh.n > 1 && k % 15 == 7 {
                // many values next to each other: very many combinations
                let (per, parts) = *r.pick(&[(6, 3), (14, 2), (10, 3), (20, 2)]);
                let i = r.below(sh.n - 1);
                for (ty, s, e) in [("A", i, i), ("B", i + 1, i + 1), ("C", i + 2, i + 2), ("B", i, i), ("A", i + 1, i + 1), ("C", i, i)] {
                    if e < sh.n && !(parts == 3 && per > 6 && s == i && ty != "A") {
                        let as_: Vec<Value> = (0..per).map(|_| json!({"s": s, "e": e, "v": value(r, ty), "id": ids.next()})).collect();
                        push(&mut p, "runs", json!({"r": "assign", "ty": ty, "as": as_}));
                    }
                }
                let m = *r.pick(&["seq", "all", "or"]);
                let tys = *r.pick(&[["A", "B", "C"], ["B", "A", "C"], ["C", "B", "A"]]);
                let xs: Vec<Value> = tys[..parts].iter().map(|ty| json!({"m": "attr", "ty": ty})).collect();
                let m = json!({"m": m, "xs": xs});
                push(&mut p, "ops", sel_m("find_by", i, (i + 2).min(sh.n - 1), m.clone()));
                push(&mut p, "ops", sel_m("both", i, i + 1, m));
                return vec![p];
            }
            if sh.n > 1 && sh.n < 60 && k % 6 == 3 {
                // spans of all lengths between the same few tokens: many ways from one token to another
                let w = r.range(2, 4).min(sh.n);
                let i = r.below(sh.n - w + 1);
                for ty in ["A", "B", "C"] {
                    let mut as_: Vec<Value> = Vec::new();
                    for s in i..i + w {
                        for e in s..i + w {
                            for _ in 0..*r.pick(&[0, 1, 1, 1, 2]) {
                                let at = r.below(as_.len() + 1);
                                as_.insert(at, json!({"s": s, "e": e, "v": value(r, ty), "id": ids.next()}));
                            }
                        }
                    }
                    push(&mut p, "runs", json!({"r": "assign", "ty": ty, "as": as_}));
                }
                fn path(r: &mut Rng, depth: usize) -> Value {
                    if depth == 0 || r.one_in(3) {
                        return json!({"m": "attr", "ty": *r.pick(&["A", "B", "C"])});
                    }
                    let k = if r.one_in(4) { 3 } else { 2 };
                    let xs: Vec<Value> = (0..k).map(|_| path(r, depth - 1)).collect();
                    json!({"m": *r.pick(&["seq", "seq", "all", "all", "or"]), "xs": xs})
                }
                for _ in 0..r.range(3, 6) {
                    let top = *r.pick(&["all", "all", "seq", "or"]);
                    let m = loop {
                        let k = if r.one_in(4) { 3 } else { 2 };
                        let xs: Vec<Value> = (0..k).map(|_| path(r, 2)).collect();
                        let m = json!({"m": top, "xs": xs});
                        if weight(&m, 3) <= 250 {
                            break m;
                        }
                    };
                    let f = *r.pick(&["find_by", "both", "match_f", "match_b"]);
                    let (s, e) = match f {
                        "match_f" if i > 0 => (i - 1, i - 1),
                        "match_b" if i + w < sh.n => (i + w, i + w),
                        "find_by" => (i, i),
                        _ => (i, i + w - 1),
                    };
                    push(&mut p, "ops", sel_m(f, s, e, m));
                }
                return vec![p];
            }
            if sh.n > 3 && r.one_in(4) {
                // spans that end, or begin, at distances that are easily mixed up
                let far = |r: &mut Rng, at: usize| {
                    let d = *r.pick(&[0, 0, 1, 2, 4, 8, 16, 32, 64, 128, 256]);
                    if at + d < sh.n { at + d } else { at.saturating_sub(d) }
                };
                let i = if r.one_in(2) { 0 } else { r.below(sh.n - 2) };
                let e = r.range(i, sh.n - 1);
                let mut as_: Vec<Vec<Value>> = vec![vec![], vec![], vec![]];
                for k in 0..3 {
                    for _ in 0..r.range(1, 3) {
                        let (s, e) = match r.below(4) {
                            0 => (far(r, (e + 1).min(sh.n - 1)), sh.n - 1),
                            1 => (far(r, i), e),
                            _ => (i, far(r, e)),
                        };
                        as_[k].push(json!({"s": s.min(e), "e": e.max(s), "v": [1], "id": ids.next()}));
                    }
                }
                for (ty, as_) in ["A", "B", "C"].iter().zip(as_) {
                    push(&mut p, "runs", json!({"r": "assign", "ty": ty, "as": as_}));
                }
                for m in ["all", "all", "seq", "or"] {
                    let tys = *r.pick(&[["A", "B", "C"], ["B", "A", "C"], ["C", "B", "A"], ["B", "C", "A"]]);
                    let xs: Vec<Value> = tys[..r.range(2, 3)].iter().map(|ty| json!({"m": "attr", "ty": ty})).collect();
                    let f = *r.pick(&["find_by", "find_by", "both", "match_f", "match_b"]);
                    let (s, t) = match f {
                        "match_f" if i > 0 => (i - 1, i - 1),
                        "match_b" if e + 1 < sh.n => (e + 1, e + 1),
                        "find_by" => (i, i),
                        _ => (i, e),
                    };
                    push(&mut p, "ops", sel_m(f, s, t, json!({"m": m, "xs": xs})));
                }
            }
            if sh.n > 10 {
                // neighbours of several lengths
                let tys = *r.pick(&[["A", "B", "C"], ["B", "A", "C"], ["A", "A", "A"]]);
                let mut cut: Vec<usize> = (0..4).map(|_| r.below(sh.n + 1)).collect();
                cut.sort();
                cut.dedup();
                for (w, ty) in cut.windows(2).zip(tys) {
                    push(&mut p, "runs", json!({"r": "assign", "ty": ty, "as": [{"s": w[0], "e": w[1] - 1, "v": [1], "id": ids.next()}]}));
                }
                let xs: Vec<Value> = tys[..cut.len().clamp(3, 4) - 1].iter().map(|ty| json!({"m": "attr", "ty": ty})).collect();
                let m = json!({"m": "seq", "xs": xs});
                if let [a, .., b] = cut[..] {
                    if a < sh.n {
                        push(&mut p, "ops", sel_m("find_by", a, a, m.clone()));
                    }
                    if b > 0 {
                        push(&mut p, "ops", sel_m("both", b - 1, b - 1, m.clone()));
                    }
                    if b < sh.n {
                        push(&mut p, "ops", sel_m("match_b", b, b, m));
                    }
                }
            }
            for _ in 0..r.range(4, 9) {
                if sh.n == 0 {
                    break;
                }
                let (s, e) = span(r, sh.n);
                let d = r.range(1, 3);
                // now and then deep, or with very many combinations
                let (d, most) = match r.below(30) {
                    0 => (5, 120),
                    1 => (2, 1500),
                    _ => (d, 120),
                };
                let m = loop {
                    let m = matcher(r, MATCHABLE, d);
                    if m["xs"].is_array() && weight(&m, 3) <= most && m.to_string().len() < 1500 {
                        break m;
                    }
                };
                let (s, e) = if most > 120 { (s, s) } else { (s, e) };
                let f = *r.pick(&["find_by", "both", "match_f", "match_b", "both"]);
                push(&mut p, "ops", sel_m(f, s, e, m));
            }
            vec![p]
        }
        "C09" => {
            let (mut p, sh) = layered(r, k, ids, 6, &["A"]);
            for _ in 0..r.range(5, 10) * if sh.n > 200 { 3 } else { 1 } {
                if sh.n == 0 {
                    break;
                }
                let (s, e) = span(r, sh.n);
                let m = light_matcher(r, MATCHABLE, r.clone().below(2), 3);
                r.next();
                let f = *r.pick(&["find_by", "find_first", "both", "finish"]);
                push(&mut p, "ops", sel_m(f, s, e, m));
            }
            vec![p]
        }
        "C10" => {
            let (mut p, sh) = layered(r, k, ids, 8, &["A"]);
            for _ in 0..r.range(5, 10) * if sh.n > 200 { 3 } else { 1 } {
                if sh.n == 0 {
                    break;
                }
                let (s, e) = span(r, sh.n);
                match r.below(5) {
                    0..=2 => {
                        let d = r.below(2);
                        let m = light_matcher(r, MATCHABLE, d, 3);
                        push(&mut p, "ops", sel_m("split_by", s, e, m));
                    }
                    3 => {
                        let (s2, e2) = span(r, sh.n);
                        push(&mut p, "ops", json!({"f": "split_with", "s": s, "e": e, "s2": s2, "e2": e2}));
                    }
                    _ => {
                        let (s2, e2) = if r.one_in(2) { (s, e) } else { span(r, sh.n) };
                        push(&mut p, "ops", json!({"f": "split_other", "s": s, "e": e, "s2": s2, "e2": e2}));
                    }
                }
            }
            vec![p]
        }
        "C11" => {
            let (mut p, sh) = layered(r, k, ids, 6, &["A"]);
            for _ in 0..r.range(6, 12) * if sh.n > 200 { 3 } else { 1 } {
                if sh.n == 0 {
                    break;
                }
                let (mut s, mut e) = span(r, sh.n);
                // near the ends
                match r.below(8) {
                    0 => s = 0,
                    1 => s = s.min(1).min(e),
                    2 => e = sh.n - 1,
                    3 => e = e.max(sh.n.saturating_sub(2)),
                    _ => {}
                }
                let d = r.below(2);
                let m = light_matcher(r, MATCHABLE, d, 3);
                let f = *r.pick(&["match_f", "match_b", "first_f", "first_b"]);
                push(&mut p, "ops", sel_m(f, s, e, m));
            }
            vec![p]
        }
        "C12" => {
            if k % 300 == 133 {
                // far from the ends
                let n = r.range(400, 1100);
                let inp: Vec<Value> = (0..n).map(|_| custom_input(r, 2)).collect();
                let mut p = prog(inp, "u8", "input");
                for _ in 0..4 {
                    let (s, e) = span(r, n);
                    push(&mut p, "ops", sel("after", s, e));
                    push(&mut p, "ops", sel("after", r.below(9), 9 + r.below(9)));
                    push(&mut p, "ops", json!({"f": "eq", "s": s, "e": e, "s2": s, "e2": if r.one_in(2) { e } else { r.range(s, n - 1) }, "other": 0}));
                }
                push(&mut p, "ops", json!({"f": "whole"}));
                return vec![p];
            }
            if r.one_in(50) {
                let mut p = prog(vec![], "u8", "input");
                push(&mut p, "ops", json!({"f": "whole"}));
                return vec![p];
            }
            let (mut p, sh) = layered(r, k, ids, 8, &["A"]);
            for _ in 0..r.range(6, 12) * if sh.n > 200 { 3 } else { 1 } {
                if sh.n == 0 {
                    break;
                }
                let (s, e) = span(r, sh.n);
                match r.below(8) {
                    0..=4 => {
                        let d = r.below(2);
                        let m = if r.one_in(4) { json!({"m": "ws"}) } else { light_matcher(r, MATCHABLE, d, 3) };
                        let f = *r.pick(&["trim", "trim_s", "trim_e"]);
                        push(&mut p, "ops", sel_m(f, s, e, m));
                    }
                    5 => push(&mut p, "ops", sel("after", s, e)),
                    // whatever they give, it is part of the line
                    6 if r.one_in(2) => {
                        let mut op = step(r, sh.n);
                        op["s"] = json!(s);
                        op["e"] = json!(e);
                        op["wf"] = json!(1);
                        push(&mut p, "ops", op);
                    }
                    6 | 7 if r.one_in(3) => {
                        let steps: Vec<Value> = (0..r.range(2, 5)).map(|_| step(r, sh.n)).collect();
                        push(&mut p, "ops", json!({"f": "chain", "s": s, "e": e, "steps": steps}));
                    }
                    _ => {
                        let (s2, e2) = match r.below(4) {
                            0 | 1 => (s, e),
                            2 => (s, span(r, sh.n).1.max(s)),
                            _ => (span(r, sh.n).0.min(e), e),
                        };
                        push(&mut p, "ops", json!({"f": "eq", "s": s, "e": e, "s2": s2, "e2": e2, "other": r.one_in(3) as i64}));
                    }
                }
            }
            if r.one_in(2) {
                push(&mut p, "ops", json!({"f": "whole"}));
            }
            vec![p]
        }
        "C13" => {
            if k % 3000 == 707 {
                // a display wider than a page
                let t: String = std::iter::repeat(*r.pick(&['a', 'é', 'カ'])).take(65_530 + r.below(3000)).collect();
                let mut p = prog(vec![custom_input(r, 2), text_input(&t), text_input("b."), custom_input(r, 2)], "u8", "input");
                push(&mut p, "runs", json!({"r": "assign", "ty": "A", "as": [{"s": 2, "e": 4, "v": [1], "id": ids.next()}, {"s": 0, "e": 3, "v": [2], "id": ids.next()}]}));
                push(&mut p, "ops", json!({"f": "disp", "how": 0, "tys": ["A"]}));
                return vec![p];
            }
            let n = if k % 97 == 96 { 120 } else { r.range(1, 10) };
            let mut inp = inputs(r, n, 3);
            add_input_attrs(r, ids, &mut inp, &["A", "B", "tag", "kw", "clause", "Z"], 3);
            let mut p = prog(inp, "u8", "input");
            let sh = shape(&p);
            if sh.n > 0 {
                for _ in 0..r.range(0, 3) {
                    let a = assign_run(r, ids, sh.n, ABC, 5);
                    push(&mut p, "runs", a);
                }
                if r.one_in(2) {
                    push(&mut p, "runs", json!({"r": "amount", "cfg": r.pick(&["en", "fr"])}));
                }
            }
            let ascii = exec::create(&p).is_some_and(|l| exec::toks(&l).iter().all(|t| arr(&t[2]).len() != 1 || matches!(t[2][0].as_u64(), Some(9 | 10 | 32..=126))));
            let shown = ["A", "B", "C", "tag", "kw", "clause", "amount", "Z", "char"];
            for how in 0..3 {
                let tys: Vec<&str> = (0..r.range(0, 4)).map(|_| *r.pick(&shown[..if ascii { 9 } else { 8 }])).collect();
                push(&mut p, "ops", json!({"f": "disp", "how": how, "tys": tys}));
            }
            vec![p]
        }
        "C14" => {
            let n = size_class(r, k);
            let mut inp = inputs(r, n, 3);
            add_input_attrs(r, ids, &mut inp, &["A", "B", "tag"], 5);
            let mut p = prog(inp, "u8", "input");
            for _ in 0..r.range(1, 3) {
                let w = words_of(arr(&p["input"]));
                let t = text_run(r, ids, &w);
                push(&mut p, "runs", t);
            }
            vec![p]
        }
        "C15" => {
            let max = if k % 97 == 96 { 200 } else if r.one_in(4) { 20 } else { 8 };
            let mut inp = Vec::new();
            for _ in 0..r.range(1, 3) {
                if r.one_in(6) {
                    inp.push(custom_input(r, 2));
                }
                inp.push(text_input(&amount_text(r, max)));
            }
            if r.one_in(4) {
                add_input_attrs(r, ids, &mut inp, &["A", "char", "tag"], 3);
            }
            let mut p = prog(inp, "u8", "input");
            for _ in 0..r.range(1, 2) {
                let a = amount_run(r);
                push(&mut p, "runs", a);
            }
            vec![p]
        }
        "C16" => {
            let n = size_class(r, k);
            let mut inp = inputs(r, n, 3);
            if r.one_in(2) {
                inp.push(text_input(&clause_text(r, 8)));
            }
            let mut w = words_of(&inp);
            w.truncate(40);
            let runs: Vec<Value> = (0..r.range(1, 2)).map(|_| kw_run(r, &w)).collect();
            if r.one_in(2) {
                // keywords in other cases, and what is nearly one
                let kws: Vec<String> = runs.iter().flat_map(|k| ["c", "a", "t"].map(|l| arr(&k[l]).clone())).flatten().map(|k| exec::text_of(&k)).collect();
                let mut t = String::new();
                for _ in 0..r.range(1, 6) {
                    if kws.is_empty() {
                        break;
                    }
                    let mut k = r.pick(&kws).clone();
                    match r.below(10) {
                        0 => k.push_str(r.pick(&["s", "'s", "'", "-", "\u{301}", "1", "_", "\u{200d}", "’s"])),
                        1 => k.insert_str(0, r.pick(&["a", "'", "1", "-", "\u{301}"])),
                        2 => drop(k.pop()),
                        _ => {}
                    }
                    k = if r.one_in(3) { k.to_uppercase() } else { cased(r, k) };
                    t.push_str(&k);
                    t.push_str(r.pick(&[" ", " ", ", ", "  ", "-", "."]));
                }
                if !t.is_empty() {
                    inp.push(text_input(&t));
                }
            }
            add_input_attrs(r, ids, &mut inp, &["A", "kw"], 6);
            let mut p = prog(inp, "u8", "input");
            for a in runs {
                push(&mut p, "runs", a);
            }
            vec![p]
        }
        "C17" => {
            let max = if k % 97 == 96 { 150 } else if r.one_in(4) { 24 } else { 9 };
            let mut inp = vec![text_input(&clause_text(r, max))];
            if r.one_in(4) {
                inp.push(custom_input(r, 2));
                inp.push(text_input(&clause_text(r, 5)));
            }
            if r.one_in(5) {
                add_input_attrs(r, ids, &mut inp, &["kw", "tag", "A"], 2);
            }
            let mut p = prog(inp, "u8", "input");
            let sh = shape(&p);
            if !r.one_in(8) {
                let w = |ws: &[&str]| ws.iter().map(|w| exec::cps(w)).collect::<Vec<_>>();
                push(&mut p, "runs", json!({"r": "kw", "c": w(&["if", "when"]), "a": w(&["and"]), "t": w(&["then"])}));
            }
            if sh.n > 0 && r.one_in(5) {
                // keywords and punctuation of several tokens
                let ty = *r.pick(&["kw", "kw", "tag"]);
                let a = assign_run(r, ids, sh.n, &[ty], 3);
                push(&mut p, "runs", a);
            }
            push(&mut p, "runs", json!({"r": "clause"}));
            vec![p]
        }
        "C18" => {
            let n = size_class(r, k);
            let mut inp = inputs(r, n, 3);
            let mut t: Vec<String> = (0..r.range(1, 4)).map(|_| dictionary_word(r)).collect();
            if r.one_in(2) {
                // words that are nearly the same, in both orders
                for _ in 0..r.range(1, 4) {
                    let mut w: Vec<char> = r.pick(&t).chars().collect();
                    let Some(last) = w.len().checked_sub(1) else { break };
                    let at = if r.one_in(2) { last } else { r.below(w.len()) };
                    match r.below(5) {
                        0 => w.swap(at, last / 2),
                        1 => w.truncate(at),
                        2 => w.insert(at, char::from(b'a' + r.below(26) as u8)),
                        _ => w[at] = char::from(b'a' + r.below(26) as u8),
                    }
                    let at = r.below(t.len() + 1);
                    t.insert(at, w.into_iter().collect());
                }
            }
            inp.push(text_input(&t.join(" ")));
            add_input_attrs(r, ids, &mut inp, &["A", "tag"], 6);
            let mut p = prog(inp, "u8", "input");
            if r.one_in(3) {
                let w = words_of(arr(&p["input"]));
                let l = library_run(r, ids, &w);
                push(&mut p, "runs", l);
            }
            push(&mut p, "runs", json!({"r": "pos"}));
            vec![p]
        }
        "C19" => {
            let n = if r.one_in(3) { 3 } else { size_class(r, k).min(30) };
            let mut inp = inputs(r, n, 3);
            if r.one_in(2) {
                inp.push(text_input(&amount_text(r, 8)));
            }
            if r.one_in(2) {
                let t: Vec<String> = (0..r.range(1, 4)).map(|_| dictionary_word(r)).collect();
                inp.push(text_input(&t.join(" ")));
            }
            if r.one_in(2) {
                inp.push(text_input(&clause_text(r, 8)));
            }
            add_input_attrs(r, ids, &mut inp, &["A", "tag", "char"], 5);
            let m = r.range(2, 4);
            let words = words_of(&inp);
            let runs: Vec<Value> = (0..m).map(|_| library_run(r, ids, &words)).collect();
            // a line with words like those of the first
            let mut near = inp.clone();
            for i in near.iter_mut().filter(|i| i["k"] == "T") {
                let t = exec::text_of(&i["cp"]);
                let t: Vec<String> = t
                    .split(' ')
                    .map(|w| match r.below(4) {
                        0 if w.chars().count() > 2 => w.chars().take(w.chars().count() - r.range(1, 2)).collect(),
                        1 => format!("{w}{}", r.pick(&["s", "ly", "ed", "1", ","])),
                        2 => w.to_uppercase(),
                        _ => w.to_string(),
                    })
                    .collect();
                let t = t.join(" ");
                if !t.is_empty() {
                    i["cp"] = json!(exec::cps(&t));
                }
            }
            if r.one_in(2) {
                near.reverse();
            }
            let near = {
                let mut p = prog(near, "u8", "input");
                p["runs"] = json!(runs);
                p
            };
            let base = prog(inp, "u8", "input");
            let with = |rs: Vec<Value>| {
                let mut p = base.clone();
                p["runs"] = json!(rs);
                p
            };
            let mut v = vec![with(runs.clone()), with(runs.clone())];
            for _ in 0..3 {
                let mut rs = runs.clone();
                for i in (1..rs.len()).rev() {
                    rs.swap(i, r.below(i + 1));
                }
                if r.one_in(2) {
                    let again = r.pick(&rs).clone();
                    rs.push(again);
                } else if r.one_in(2) && rs.len() > 1 {
                    rs.pop();
                }
                v.push(with(rs));
            }
            // before and after other lines, with new resolvers or those used before
            v.insert(r.below(v.len()), near.clone());
            v.push(near);
            for p in v.iter_mut() {
                if r.one_in(3) {
                    p["fresh"] = json!(1);
                }
            }
            v
        }
        _ => panic!("property {prop}"),
    }
}

fn dictionary_word(r: &mut Rng) -> String {
    const W: &[&str] = &[
        "the", "run", "quickly", "paris", "london", "of", "and", "he", "two", "ouch", "not", "to", "up", "wait", "email", "well", "light", "fast", "about", "ago",
        "monday", "us", "me", "a", "i", "o", "an", "yes", "no", "who", "that", "this", "xyzzyq", "café", "don't", "can't", "o'clock", "self-made", "ten", "hundred",
        "before", "hence", "notwithstanding", "round", "down", "so", "be", "set", "like", "past", "over", "but", "it", "it's", "one's", "let's", "that's", "he'll",
        "naïve", "élite", "über", "résumé", "jalapeño", "soufflé", "what", "as", "in", "on", "out", "off", "by", "then", "if", "when", "much", "more", "most", "less",
        "still", "even", "back", "right", "left", "close", "near", "next", "last", "long", "still", "hard", "good", "better", "best", "bad", "worse", "man", "dog",
        "cat", "house", "run", "ran", "running", "go", "went", "gone", "being", "been", "is", "are", "was", "were", "have", "has", "had", "do", "does", "did", "will",
        "would", "can", "could", "may", "might", "must", "shall", "should", "china", "turkey", "march", "august", "mark", "bill", "rose", "english", "french", "polish",
        "wow", "hey", "please", "thanks", "ok", "okay", "etc", "vs", "per", "plus", "minus", "times", "via", "re", "pro", "anti", "ex", "non", "pre", "first", "second",
        "third", "half", "zero", "one", "three", "million", "dozen", "each", "every", "any", "some", "none", "all", "both", "either", "neither", "there", "here",
        "where", "why", "how", "which", "whose", "myself", "yourself", "themselves", "ain't", "y'all", "ma'am", "rock-n-roll", "mother-in-law", "x-ray", "e-mail",
    ];
    // a sample of the dictionary: every set of tags, words with apostrophes, the shortest and the longest
    static MORE: std::sync::OnceLock<Vec<&str>> = std::sync::OnceLock::new();
    let more = MORE.get_or_init(|| include_str!("words.txt").split_whitespace().collect());
    let mut w = if r.one_in(2) { r.pick(W).to_string() } else { r.pick(more).to_string() };
    if w.contains('k') && r.one_in(6) {
        // the only letter outside of ASCII with a lower case in ASCII (the Kelvin sign)
        w = w.replace('k', "\u{212a}");
    }
    match r.below(10) {
        0 => w.push_str(r.pick(&["'s", "s", "'", "ed", "ing", "ly", "n't", "'ll", "'re", "-like", "er", "est", "ness", "'S", "s'", "’s", "\u{301}"])),
        1 => w.insert_str(0, r.pick(&["un", "re", "non-", "o'", "e-", "'", "x"])),
        2 => w = format!("{w}{}{}", r.pick(&["-", "", "'", "–", "."]), r.pick(W)),
        3 => w = (0..r.range(1, 5)).map(|_| char::from(b'a' + r.below(26) as u8)).collect(),
        _ => {}
    }
    match r.below(5) {
        0 => w.to_uppercase(),
        // mixed
        2 => w.chars().map(|c| if r.one_in(2) { c.to_uppercase().next().unwrap() } else { c }).collect(),
        1 => {
            let mut c = w.chars();
            c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
        }
        _ => w,
    }
}

/// programs with every character: alone, doubled, in a word, in a number
pub fn sweep(seed: u32, stride: u32) -> Vec<Value> {
    let uniform = |c: u32| {
        matches!(c, 0x3400..=0x4dbf | 0x4e00..=0x9fff | 0xac00..=0xd7a3 | 0xe000..=0xf8ff | 0x12000..=0x16fff | 0x17000..=0x18cff | 0x20000..=0xdffff | 0xe0200..=0x10ffff)
    };
    let cs: Vec<char> = (0..0x110000u32).filter(|c| !uniform(*c) || (c + seed) % stride == 0).filter_map(char::from_u32).collect();
    cs.chunks(40)
        .enumerate()
        .map(|(k, cs)| {
            let inp = cs.iter().flat_map(|c| [text_input(&c.to_string()), text_input(&format!("{c}{c} a{c} 1{c}2"))]).collect();
            prog(inp, "chars", if k % 2 == 0 { "input" } else { "tokens" })
        })
        .collect()
}

/// Runs a program and adds what happened and the facts of the environment it relied on.
pub fn record(p: Value) -> Value {
    if p["thr"] == json!(1) {
        return std::thread::scope(|sc| {
            std::thread::Builder::new().name("main".into()).stack_size(256 << 20).spawn_scoped(sc, || record_here(p)).unwrap().join().unwrap()
        });
    }
    record_here(p)
}
fn record_here(p: Value) -> Value {
    use unicode_segmentation::UnicodeSegmentation;
    if p["fresh"] == json!(1) {
        exec::fresh();
    }
    let r = exec::exec(&p);
    let mut p = p;
    let mut lens = Vec::new();
    let (mut al, mut ws) = (Vec::new(), Vec::new());
    for i in p["input"].as_array().unwrap() {
        let t = exec::text_of(&i["cp"]);
        lens.push(t.split_word_bounds().map(|w| w.chars().count()).collect::<Vec<_>>());
        for c in t.chars() {
            if c.is_alphabetic() && !al.contains(&(c as u32)) {
                al.push(c as u32);
            }
            if c.is_whitespace() && !ws.contains(&(c as u32)) {
                ws.push(c as u32);
            }
        }
    }
    let f = exec::facts(r["cr"]["toks"].as_array().unwrap());
    p["env"] = json!({"lens": lens, "al": al, "ws": ws, "lo": f["lo"], "dict": f["dict"], "wid": f["wid"]});
    p["cr"] = r["cr"].clone();
    p["rs"] = r["rs"].clone();
    p["res"] = r["res"].clone();
    p["nd"] = r["nd"].clone();
    p
}
