#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from the definitions below and confirms each in a scratch copy of /repo.
usage: mkseeded.py [id ...]    (development tool; no check uses it)"""
import json, os, shutil, subprocess, sys
OUT = os.environ.get('SEED_OUT', '/verif/seeded')
SCR = '/tmp/seedscratch'
DEMO = '''#!/bin/bash
# run with cwd = the repository, after its build: exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
layered-nlp = { path = "$repo" }
layered-amount = { path = "$repo/layered-amount" }
layered-clauses = { path = "$repo/layered-clauses" }
layered-part-of-speech = { path = "$repo/layered-part-of-speech" }
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 280 cargo run -q --offline
'''
PRE = '''#![allow(unused, deprecated)]
use layered_nlp::*;
use std::rc::Rc;
fn line(s: &str) -> LLLine { create_line_from_string(s) }
fn text(s: &str) -> InputToken { InputToken::text(s.to_string(), vec![]) }
fn texts(l: &LLLine) -> Vec<String> {
    l.ll_tokens().iter().map(|t| match t.get_token() { LToken::Text(s, _) => s.clone(), LToken::Value => "<>".into() }).collect()
}
#[derive(Debug, Clone, PartialEq, Eq)] struct A(u32);
#[derive(Debug, Clone, PartialEq, Eq)] struct B(u32);
#[derive(Debug, Clone, PartialEq, Eq)] struct C(u32);
/// assigns values to spans (start token, end token)
struct Put<T>(Vec<(usize, usize, T)>);
impl<T: std::fmt::Debug + Clone + Send + Sync + 'static> Resolver for Put<T> {
    type Attr = T;
    fn go(&self, s: LLSelection) -> Vec<LLCursorAssignment<T>> {
        self.0.iter().map(|(a, b, v)| sel(&s, *a, *b).finish_with_attr(v.clone())).collect()
    }
}
/// the selection of tokens a..=b
fn sel(all: &LLSelection, a: usize, b: usize) -> LLSelection {
    let mut s = all.clone();
    let toks = tokens(all);
    if b + 1 < toks.len() { s = s.split_with(&toks[b + 1])[0].clone().unwrap(); }
    if a > 0 { s = s.split_with(&toks[a - 1])[1].clone().unwrap(); }
    s
}
/// one selection per token; every token must be text or carry an A, B or C
fn tokens(all: &LLSelection) -> Vec<LLSelection> { all.find_by(&x::token_text()).into_iter().map(|(s, _)| s).collect() }
fn span(s: &LLSelection) -> (usize, usize) {
    let d = format!("{:?}", s);
    let n: Vec<usize> = d.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    (n[0], n[1])
}
fn whole(l: LLLine) -> LLSelection { LLSelection::from_line(Rc::new(l)).unwrap() }
'''
S = {}
def seed(id, prop, file, edits, needs, breaks, main):
    S[id] = dict(prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, main=main)

CT, LL, SE, XX = 'src/create_tokens.rs', 'src/ll_line.rs', 'src/ll_line/ll_selection.rs', 'src/ll_line/x.rs'
seed('c01-zero-width', 'C01', CT, [('if !unicode_word[last_apostrophe_index..].is_empty() {',
      "if !unicode_word[last_apostrophe_index..].trim_matches('\\u{200b}').is_empty() {")],
     'a zero width space standing alone between words', 'the tokens of the text no longer concatenate to it',
     'fn main() { let l = line("a \\u{200b} b"); assert_eq!(texts(&l).concat(), "a \\u{200b} b"); }')
seed('c01-size-zero', 'C01', CT, [('InputToken::Custom { size, attrs } => (vec![(LToken::Value, size)], attrs),',
      'InputToken::Custom { size, attrs } => (\n            std::iter::once((LToken::Value, size))\n                .filter(|(_, size)| *size > 0 || !attrs.is_empty())\n                .collect(),\n            attrs,\n        ),')],
     'a custom input of size 0 without attributes', 'creating the line panics',
     'fn main() { let l = create_line_from_input_tokens(vec![text("a"), InputToken::custom(0, vec![])], |s| s.len()); assert_eq!(texts(&l), ["a", "<>"]); }')
seed('c02-domain-word', 'C02', 'src/create_tokens/get_word_tag.rs', [("'\\'' | '-' | '–' => continue,", "'\\'' | '-' | '–' | '.' => continue,")],
     'a word with a period in the middle', 'example.com is tagged WORD instead of SYMB',
     'fn main() { let l = line("see example.com"); assert!(matches!(l.ll_tokens()[2].get_token(), LToken::Text(_, TextTag::SYMB))); }')
seed('c02-char-bytes', 'C02', LL, [('if let (Some(c), None) = (chars.next(), chars.next()) {', 'if let (Some(c), true, None) = (chars.next(), text.len() < 4, chars.next()) {')],
     'a token that is one character of four bytes', 'it has no char attribute',
     'fn main() { let l = line("ab \U0001F600"); let q = l.query::<char>(); assert_eq!(q.iter().map(|q| (q.0, *q.2[0])).collect::<Vec<_>>(), [((1, 1), \' \'), ((2, 2), \'\U0001F600\')]); }')
seed('c02-other-digits', 'C02', CT, [('if unicode_word.chars().next().unwrap().is_ascii_digit() {', 'if unicode_word.chars().next().unwrap().is_numeric() {')],
     'a word that begins with a non-ASCII digit', 'the word is cut into single characters',
     'fn main() { let l = line("\\u{663}\\u{664} x"); assert_eq!(texts(&l), ["\\u{663}\\u{664}", " ", "x"]); }')
seed('c03-letters-size', 'C03', CT, [('let size = get_text_size(&collected_letters);', 'let size = collected_letters.len();')],
     'letters inside a digit word with a size function other than len', 'positions after the letters are off',
     'fn main() { let l = create_line_from_input_tokens(vec![text("5kg x")], |s| 2 * s.len()); let f = l.find(&x::token_text()); assert_eq!(f.last().unwrap().range(), (8, 10)); }')
seed('c03-custom-size', 'C03', CT, [('let next_size = current_size + size;', 'let next_size = current_size + size.max(1);')],
     'a token of size 0', 'the token takes one position',
     'fn main() { let l = create_line_from_input_tokens(vec![text("a"), InputToken::custom(0, vec![]), text("b")], |s| s.len()); let f = l.find(&x::token_text()); assert_eq!(f.last().unwrap().range(), (1, 2)); }')
seed('c04-leading-space', 'C04', CT, [('let to_idx = lltokens.len() - 1;', 'let to_idx = lltokens.len() - 1;\n        // links and the like do not include the blank before them\n        let from_idx = match &lltokens[from_idx].token {\n            LToken::Text(_, TextTag::SPACE) if from_idx + 2 < lltokens.len() => from_idx + 1,\n            _ => from_idx,\n        };')],
     'attributes on an input text that starts with whitespace and has at least two more tokens', 'the attribute does not cover the first token of its input',
     'fn main() { let l = create_line_from_input_tokens(vec![InputToken::text(" a b".into(), vec![AnyAttribute::new(A(1))])], |s| s.len()); assert_eq!(l.query::<A>()[0].0, (0, 3)); }')
seed('c04-extract', 'C04', 'src/type_bucket.rs', [('.map_err(|e| AnyAttribute(key, empty_bucket, e))', '.map_err(|e| AnyAttribute(TypeId::of::<T>().min(key), empty_bucket, e))')],
     'asking a prepared attribute for another type before giving it to an input', 'the attribute is filed under the type it was asked for',
     'fn main() { let a = AnyAttribute::new(A(1)).extract::<B>().unwrap_err(); let a = a.extract::<C>().unwrap_err(); let b = AnyAttribute::new(B(1)).extract::<A>().unwrap_err(); let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![a, b])], |s| s.len()); assert_eq!(l.query::<A>()[0].2, [&A(1)]); assert_eq!(l.query::<B>()[0].2, [&B(1)]); }')
seed('c05-sorted', 'C05', LL, [('        } in assignments\n        {', '        } in {\n            let mut assignments = assignments;\n            assignments.sort_by_key(|assignment| assignment.start_idx);\n            assignments\n        } {')],
     'a resolver that assigns to a later span before an earlier one', 'the order of its assignments is lost',
     'fn main() { let l = line("a b c").run(&Put(vec![(2, 2, A(1)), (0, 0, A(2))])); assert_eq!(l.query::<A>().iter().map(|q| q.0).collect::<Vec<_>>(), [(2, 2), (0, 0)]); }')
seed('c05-trailing-space', 'C05', LL, [('end_idx: ll_line.ll_tokens().len() - 1,', 'end_idx: match ll_line.ll_tokens() {\n                // nothing to recognize in the blank at the end\n                [_, .., LLToken {\n                    token: LToken::Text(_, TextTag::SPACE),\n                    ..\n                }] => ll_line.ll_tokens().len() - 2,\n                ll_tokens => ll_tokens.len() - 1,\n            },')],
     'a line that ends in whitespace', 'the resolver is not given the whole line',
     'struct R; impl Resolver for R { type Attr = A; fn go(&self, s: LLSelection) -> Vec<LLCursorAssignment<A>> { vec![s.finish_with_attr(A(1))] } }\nfn main() { let l = line("a b ").run(&R); assert_eq!(l.query::<A>()[0].0, (0, 3)); }')
seed('c06-distinct', 'C06', 'src/type_id_to_many.rs', [('''        let entry = self.map.entry(TypeId::of::<Type>()).or_default();

        if !entry.contains(&value_to_add) {''', '''        let entry = self.map.entry(TypeId::of::<Type>()).or_default();

        // equal spans come one after the other
        if entry.last() != Some(&value_to_add) {''')],
     'a span assigned to again after another span of the same type', 'values are reported twice',
     'fn main() { let l = line("a b").run(&Put(vec![(0, 0, A(1)), (2, 2, A(2)), (0, 0, A(3))])); assert_eq!(l.query::<A>().len(), 2); }')
seed('c06-input-ends', 'C06', LL, [('                .get_mut(end_idx)\n                .expect("has initial ends_at value in bounds")\n                .insert_any_distinct', '                .get_mut(start_idx)\n                .expect("has initial ends_at value in bounds")\n                .insert_any_distinct')],
     'an input attribute over several tokens, matched backwards', 'the attribute is not found backwards from its end',
     'fn main() { let l = create_line_from_input_tokens(vec![InputToken::text("a b".into(), vec![AnyAttribute::new(A(1))]), text("!")], |s| s.len()); let s = whole(l); let t = tokens(&s); assert_eq!(t[3].match_backwards(&x::attr::<A>()).len(), 1); }')
seed('c06-query-text', 'C06', LL, [('String::from_iter(self.ll_tokens[range.0..=range.1].iter().map(|token| {', 'String::from_iter(self.ll_tokens[range.0..=range.1].iter().take(8).map(|token| {')],
     'a span of more than eight tokens', 'query reports only part of its text',
     'fn main() { let s = "a b c d e f g"; let l = create_line_from_input_tokens(vec![InputToken::text(s.into(), vec![AnyAttribute::new(A(1))])], |s| s.len()); assert_eq!(l.query::<A>()[0].1, s); }')
seed('c07-eq-backwards', 'C07', XX, [('''                    .filter_map(move |val| {
                        if val == equals {
                            Some(((), ToIdx(range.0)))''', '''                    .filter_map(|val| {
                        if val == equals {
                            Some(((), ToIdx(self.from_idx)))''')],
     'attr_eq met backwards on a span of several tokens', 'the match ends at the span\'s last instead of its first token',
     'fn main() { let l = line("a b c").run(&Put(vec![(0, 2, A(1))])); let s = whole(l); let t = tokens(&s); assert_eq!(span(&t[3].match_backwards(&x::attr_eq(&A(1)))[0].0), (0, 3)); }')
seed('c07-eq-first', 'C07', XX, [('''                    .filter_map(move |val| {
                        if val == equals {
                            Some(((), ToIdx(range.1)))
                        } else {
                            None
                        }
                    })
            })''', '''                    .filter_map(move |val| {
                        if val == equals {
                            Some(((), ToIdx(range.1)))
                        } else {
                            None
                        }
                    })
                    // the outputs are all the same
                    .take(1)
            })''')],
     'the same value twice on one span', 'attr_eq reports it once',
     'fn main() { let l = line("a b").run(&Put(vec![(0, 0, A(1)), (0, 0, A(1))])); assert_eq!(l.find(&x::attr_eq(&A(1))).len(), 2); }')
seed('c08-all3', 'C08', 'src/ll_line/x/all.rs', [('if &a_to_idx == b_to_idx && &a_to_idx == c_to_idx {', 'if b_to_idx == c_to_idx && a_to_idx.0.max(b_to_idx.0) == c_to_idx.0 {')],
     'three parts whose first match is shorter than the second and third', 'all matches parts that end at different tokens',
     'fn main() { let l = line("a b").run(&Put(vec![(0, 0, A(1))])).run(&Put(vec![(0, 2, B(1))])).run(&Put(vec![(0, 2, C(1))])); assert_eq!(l.find(&x::all((x::attr::<A>(), x::attr::<B>(), x::attr::<C>()))).len(), 0); }')
seed('c08-after-zero', 'C08', XX, [('        if idx > 0 {\n            Some(XBackwards', '        if idx > 1 {\n            Some(XBackwards')],
     'a sequence matched backwards whose last part is the first token of the line', 'the sequence is not matched',
     'fn main() { let s = whole(line("a b")); let t = tokens(&s); assert_eq!(t[2].match_backwards(&x::seq((x::whitespace(), x::token_text()))).len(), 1); }')
seed('c08-any3', 'C08', 'src/ll_line/x/any_of.rs', [('''            if !b.is_empty() {
                b.into_iter().map(|(b, idx)| (AnyOf3::B(b), idx)).collect()
            } else {
                self.2
                    .go(direction, ll_line)
                    .into_iter()
                    .map(|(c, idx)| (AnyOf3::C(c), idx))
                    .collect()
            }''', '''            b.into_iter()
                .map(|(b, idx)| (AnyOf3::B(b), idx))
                .chain(
                    self.2
                        .go(direction, ll_line)
                        .into_iter()
                        .map(|(c, idx)| (AnyOf3::C(c), idx)),
                )
                .collect()''')],
     'a choice of three whose second and third part both match', 'both are reported',
     'fn main() { let l = line("a b"); assert_eq!(l.find(&x::any_of((x::attr::<A>(), x::token_text(), x::attr::<TextTag>()))).len(), 3); }')
seed('c09-first-shortest', 'C09', SE, [('self.find_by(matcher).into_iter().next()', 'self.find_by(matcher)\n            .into_iter()\n            .min_by_key(|(selection, _)| (selection.start_idx, selection.end_idx))')],
     'two spans starting at one token, the longer assigned first', 'find_first_by is not the first of find_by',
     'fn main() { let l = line("a b").run(&Put(vec![(0, 2, A(1)), (0, 0, A(2))])); let s = whole(l); assert_eq!(s.find_first_by(&x::attr::<A>()).unwrap().1, &A(1)); }')
seed('c09-both', 'C09', SE, [('                        matcher.go(&backwards, &self.ll_line).into_iter().map(\n                            move', '                        matcher.go(&backwards, &self.ll_line).into_iter().skip_while(move |(_, next_idx)| next_idx.0 == i).map(\n                            move')],
     'a match on a single token', 'find_by_forwards_and_backwards leaves out the backwards match',
     'fn main() { let s = whole(line("a")); assert_eq!(s.find_by_forwards_and_backwards(&x::token_text()).len(), 2); }')
seed('c10-lines', 'C10', LL, [('if !Rc::ptr_eq(first, second) {', 'if first.ll_tokens.len() != second.ll_tokens.len() {')],
     'selections of two lines with the same number of tokens', 'split_with mixes two lines',
     'fn main() { let s = whole(line("a b")); let u = whole(line("c d")); assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.split_with(&u))).is_err()); }')
seed('c11-first-back', 'C11', SE, [('self.match_backwards(matcher).into_iter().next()', 'self.match_backwards(matcher)\n            .into_iter()\n            .min_by_key(|(selection, _)| selection.start_idx)')],
     'two spans ending at one token, the shorter assigned first', 'match_first_backwards is not the first of match_backwards',
     'fn main() { let l = line("a b c").run(&Put(vec![(2, 2, A(1)), (0, 2, A(2))])); let s = whole(l); let t = tokens(&s); assert_eq!(t[3].match_first_backwards(&x::attr::<A>()).unwrap().1, &A(1)); }')
seed('c12-eq', 'C12', SE, [('&& Rc::ptr_eq(&self.ll_line, &other.ll_line)', '&& self.ll_line.ll_tokens.len() == other.ll_line.ll_tokens.len()')],
     'selections of two lines', 'the same span of two lines is equal',
     'fn main() { assert!(whole(line("a b")) != whole(line("c d"))); }')
seed('c12-trim-both', 'C12', SE, [('                    &XBackwards {\n                        from_idx: self.end_idx,\n                    },', '                    &XBackwards {\n                        from_idx: self.end_idx.max(new_start),\n                    },')],
     'trim where the leading match runs past the end of the selection', 'looks at tokens outside the selection',
     'fn main() { let l = line("a b").run(&Put(vec![(0, 2, A(1))])); let s = whole(l); let t = tokens(&s); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t[0].trim(&x::attr::<A>()))); assert!(matches!(r, Ok(None))); }')
seed('c13-columns', 'C13', 'src/ll_line/display.rs', [('token_idx_to_start_display_char_idx.push(UnicodeWidthStr::width(&*opening_line));', 'token_idx_to_start_display_char_idx.push(opening_line.chars().count());')],
     'a wide or zero width character before the span', 'the line is drawn at the wrong column',
     'fn main() { let l = line("\\u{4e2d}a").run(&Put(vec![(1, 1, A(1))])); let d = LLLineDisplay::new(&l).with::<A>().to_string(); assert_eq!(d, "\\u{4e2d}  a\\n    \\u{2570}A(1)"); }')
seed('c13-once', 'C13', 'src/ll_line/display.rs', [('                self.include_attrs.push((*ll_range, debug_value));', '                // several resolvers may have come to the same conclusion\n                if self.include_attrs.last() != Some(&(*ll_range, debug_value.clone())) {\n                    self.include_attrs.push((*ll_range, debug_value));\n                }')],
     'two values of a span with the same Debug text', 'only one of them is drawn',
     'fn main() { let l = line("a").run(&Put(vec![(0, 0, A(1)), (0, 0, A(1))])); let d = LLLineDisplay::new(&l).with::<A>().to_string(); assert_eq!(d.lines().count(), 3); }')
seed('c14-ascii-case', 'C14', 'src/resolvers/text_match.rs', [('self.lookup.get(&text.to_lowercase())', 'self.lookup.get(&text.to_ascii_lowercase())')],
     'a capital non-ASCII letter in the line', 'the entry is not found',
     'fn main() { let l = line("\\u{c9}mile").run(&TextMatchAssignResolver::new_case_insensitive_str_arr([("\\u{c9}mile", A(1))])); assert_eq!(l.query::<A>().len(), 1); }')
seed('c15-decimal-char', 'C15', 'layered-amount/src/amounts.rs', [("number_string.push('.');", "number_string.push(if self.delimiters.contains(&'.') { self.decimal } else { '.' });")],
     'a locale in which the period is a delimiter', 'decimals are not parsed and yield no amount',
     'use layered_amount::*;\nfn main() { let l = line("1.000,5").run(&AmountResolver::new(vec![\'.\'], \',\')); let q = l.query::<Amount>(); assert_eq!(q.len(), 1); assert_eq!(q[0].2[0].get_decimal().to_string(), "1000.5"); }')
seed('c15-resume', 'C15', 'layered-amount/src/amounts.rs', [('if let [_, Some(right_sel)] = search_range_sel.split_with(&selection) {', 'if let Some(right_sel) = search_range_sel.split_with(&selection)[1]\n                .clone()\n                .and_then(|right_sel| right_sel.trim_start(&x::token_text()))\n            {')],
     'two amounts with nothing but a single token (or nothing) between them', 'the second amount is missed',
     'use layered_amount::*;\nfn main() { let l = create_line_from_input_tokens(vec![text("1"), text("2")], |s| s.len()).run(&AmountResolver::english()); assert_eq!(l.query::<Amount>().len(), 2); }')
seed('c16-order', 'C16', 'layered-clauses/src/clause_keyword.rs', [('''} else if self.then.contains(&text.as_str()) {
                        ClauseKeyword::Then
                    } else if self.and.contains(&text.as_str()) {
                        ClauseKeyword::And
                    }''', '''} else if self.and.contains(&text.as_str()) {
                        ClauseKeyword::And
                    } else if self.then.contains(&text.as_str()) {
                        ClauseKeyword::Then
                    }''')],
     'a word listed as both then and and', 'it is marked And instead of Then',
     'use layered_clauses::*;\nfn main() { let l = line("a so b").run(&ClauseKeywordResolver::new(&["if"], &["so"], &["so"])); assert_eq!(l.query::<ClauseKeyword>()[0].2, [&ClauseKeyword::Then]); }')
seed('c17-then-found', 'C17', 'layered-clauses/src/clauses.rs', [('''                            ClauseKeyword::Then => Some(
                                trimmed_clause_selection.finish_with_attr(Clause::TrailingEffect),
                            ),''', '''                            ClauseKeyword::Then => {
                                condition_clause_found = true;

                                Some(
                                    trimmed_clause_selection
                                        .finish_with_attr(Clause::TrailingEffect),
                                )
                            }''')],
     'then without a preceding condition, and another clause behind it', 'clauses behind it count as behind a condition',
     'use layered_clauses::*;\nfn main() { let l = line("a then b, c").run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default()); let q = l.query::<Clause>(); assert_eq!(q[2].2, [&Clause::LeadingEffect]); }')
seed('c17-lone', 'C17', 'layered-clauses/src/clauses.rs', [('clauses[0].match_first_backwards(&x::attr::<ClauseKeyword>())', 'trimmed_clause_selection\n                        .match_first_backwards(&x::attr::<ClauseKeyword>())\n                        .or_else(|| selection.find_first_by(&x::attr::<ClauseKeyword>()))')],
     'a lone piece and a condition start behind it', 'the piece is a Condition',
     'use layered_clauses::*;\nfn main() { let l = line("a if").run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default()); let q = l.query::<Clause>(); assert_eq!(q[0].2, [&Clause::Independent]); }')
seed('c19-again', 'C19', 'layered-part-of-speech/src/lib.rs', [('            .into_iter()\n            .flat_map(', '            .into_iter()\n            // already tagged\n            .filter(|(selection, _)| selection.find_first_by(&x::attr::<Tag>()).is_none())\n            .flat_map(')],
     'running the resolver again', 'the second run assigns nothing',
     'use layered_part_of_speech::*;\nfn main() { let l = line("cat").run(&POSTagResolver::default()); let n = l.query::<Tag>()[0].2.len(); let l = l.run(&POSTagResolver::default()); assert_eq!(l.query::<Tag>()[0].2.len(), 2 * n); }')
seed('c10-clamp', 'C10', SE, [('end_idx = end_idx.min(self.end_idx);', 'end_idx = end_idx.min(self.ll_line.ll_tokens.len() - 1);')],
     'split_with a selection that lies behind this one', 'the part before it leaves the selection',
     'fn main() { let s = whole(line("a b c d")); let t = tokens(&s); let r = t[1].split_with(&t[4]); println!("{:?}", r); assert_eq!(span(r[0].as_ref().unwrap()), (1, 1)); assert!(r[1].is_none()); }')
seed('c11-dedup', 'C11', SE, [("""                    LLSelection {
                        start_idx: self.start_idx,
                        end_idx: next_idx.0,
                        ll_line: self.ll_line.clone(),
                    },
                    out,
                )
            })
            .collect()""", """                    LLSelection {
                        start_idx: self.start_idx,
                        end_idx: next_idx.0,
                        ll_line: self.ll_line.clone(),
                    },
                    out,
                )
            })
            .fold(Vec::new(), |mut matches: Vec<(LLSelection, M::Out)>, found| {
                // one continuation per selection is enough
                if !matches.iter().any(|(selection, _)| *selection == found.0) {
                    matches.push(found);
                }
                matches
            })""")],
     'two values on the span right behind the selection', 'only the first is reported',
     'fn main() { let l = line("a b").run(&Put(vec![(1, 2, A(1)), (1, 1, A(2)), (1, 2, A(3))])); let s = whole(l); let t = tokens(&s); assert_eq!(t[0].match_forwards(&x::attr::<A>()).len(), 3); }')
seed('c18-genitive', 'C18', 'layered-part-of-speech/src/lib.rs', [('.get(&word.to_lowercase())', '.get(word.to_lowercase().trim_end_matches("\'s"))')],
     'a word the dictionary lists with its genitive or contracted s', 'it gets the tags of its stem',
     'use layered_part_of_speech::*;\nfn main() { let t = |s: &str| line(s).run(&POSTagResolver::default()).query::<Tag>().into_iter().flat_map(|q| q.2.into_iter().map(|t| format!("{:?}", t)).collect::<Vec<_>>()).collect::<Vec<_>>(); println!("{:?} {:?} {:?}", t("one\'s"), t("quickly\'s"), t("it\'s")); assert_eq!(t("quickly\'s"), ["Noun"]); }')
seed('c19-hash', 'C19', 'layered-part-of-speech/src/lib.rs', [("""                    .tags()
                    .map(move""", """                    .tags()
                    .enumerate()
                    .fold(std::collections::HashMap::new(), |mut groups: std::collections::HashMap<usize, Vec<Tag>>, (i, tag)| {
                        groups.entry(i / 5).or_default().push(tag);
                        groups
                    })
                    .into_values()
                    .flatten()
                    .map(move""")],
     'a word with more than five tags, over several runs', 'the order of its tags is not always the same',
     'use layered_part_of_speech::*;\nfn main() { let t = |s: &str| line(s).run(&POSTagResolver::default()).query::<Tag>().into_iter().flat_map(|q| q.2.into_iter().map(|t| format!("{:?}", t)).collect::<Vec<_>>()).collect::<Vec<_>>(); for _ in 0..60 { assert_eq!(t("like as well round down"), t("like as well round down")); } }')

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds2.py')).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds3.py')).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds4.py")).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds5.py")).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds6.py")).read())

def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)

def main():
    ids = sys.argv[1:] or list(S)
    if not os.path.isdir(SCR):
        subprocess.check_call(['cp', '-a', '/repo', SCR])
    base = json.load(open('/opt/vp/BASELINE.json'))
    for i in ids:
        d = S[i]
        sh('git checkout -q -- .', SCR)
        o = f'{OUT}/{i}'
        src = {}
        for e in d['edits']:
            a, b = e[:2]
            p = f"{SCR}/{e[2] if len(e) > 2 else d['file']}"
            s = src.get(p) or open(p).read()
            if s.count(a) < 1: print(i, 'NO MATCH', a[:60]); break
            src[p] = s.replace(a, b, 1)
        else:
            os.makedirs(o, exist_ok=True)
            open(f'{o}/demo.sh', 'w').write(DEMO)
            os.chmod(f'{o}/demo.sh', 0o755)
            open(f'{o}/main.rs', 'w').write(PRE + d['main'] + '\n')
            json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(f'{o}/meta.json', 'w'), indent=1)
            r0 = sh(f'bash {o}/demo.sh', SCR)
            for p, s in src.items(): open(p, 'w').write(s)
            open(f'{o}/patch.diff', 'w').write(sh('git diff', SCR).stdout)
            t = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', SCR)
            ok = sum(1 for l in t.stdout.splitlines() if l.startswith('test ') and l.endswith('... ok'))
            bad = [l for l in t.stdout.splitlines() if l.startswith('test ') and 'FAILED' in l]
            r1 = sh(f'bash {o}/demo.sh', SCR)
            good = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
            print(i, 'GOOD' if good else 'BAD', 'demo', r0.returncode, r1.returncode, 'tests', t.returncode, ok, bad, flush=True)
            if r0.returncode: print([l for l in r0.stderr.splitlines() if 'error' in l or 'panicked' in l][:4])
            if not good and t.returncode and not bad: print([l for l in t.stderr.splitlines() if l.startswith('error')][:4])
            if 'error[' in r1.stderr or 'could not compile' in r1.stderr: print('  DEMO DOES NOT COMPILE', [l for l in r1.stderr.splitlines() if 'error' in l or 'panicked' in l][:4])
            if not good: shutil.rmtree(o)
    sh('git checkout -q -- .', SCR)
main()
