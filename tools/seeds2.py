# second batch of planted changes (read by mkseeded.py)
TB, DI, TM = 'src/type_bucket.rs', 'src/ll_line/display.rs', 'src/resolvers/text_match.rs'
AM, KW, CL, PO = 'layered-amount/src/amounts.rs', 'layered-clauses/src/clause_keyword.rs', 'layered-clauses/src/clauses.rs', 'layered-part-of-speech/src/lib.rs'
TI, TAG = 'src/type_id_to_many.rs', 'src/create_tokens/get_word_tag.rs'

seed('c01-bom', 'C01', CT, [('    input\n        .split_word_bounds()', "    input\n        .strip_prefix('\\u{feff}')\n        .filter(|rest| !rest.is_empty())\n        .unwrap_or(input)\n        .split_word_bounds()")],
     'a text that begins with a byte order mark', 'the mark is dropped from the tokens',
     r'fn main() { let l = line("\u{feff}ab c"); assert_eq!(texts(&l).concat(), "\u{feff}ab c"); }')
seed('c01-soft-hyphen', 'C01', CT, [('for ch in unicode_word.chars() {', "for ch in unicode_word.chars().filter(|ch| *ch != '\\u{ad}') {")],
     'a soft hyphen inside a word that begins with a digit', 'the soft hyphen is lost',
     r'fn main() { let l = line("x 12\u{ad}3"); assert_eq!(texts(&l).concat(), "x 12\u{ad}3"); }')
seed('c01-blank-first', 'C01', CT, [('''        assert!(
            !ltokens.is_empty(),
            "Cannot create a LLLine from empty String"
        );
''', '''        if ltokens.is_empty() && lltokens.len() > 1 {
            continue;
        }
        assert!(
            !ltokens.is_empty(),
            "Cannot create a LLLine from empty String"
        );
''')], 'an empty text behind at least two tokens', 'the empty text is not refused',
     r'fn main() { let r = std::panic::catch_unwind(|| create_line_from_input_tokens(vec![text("a b"), text("")], |s| s.len()).ll_tokens().len()); assert!(r.is_err()); }')
seed('c01-value-run', 'C01', CT, [('InputToken::Custom { size, attrs } => (vec![(LToken::Value, size)], attrs),', 'InputToken::Custom { size, attrs } => (\n            (0..=size / usize::MAX).map(|_| (LToken::Value, size)).collect(),\n            attrs,\n        ),')],
     'a custom input of size usize::MAX', 'it becomes two tokens (and positions overflow)',
     r'fn main() { let l = create_line_from_input_tokens(vec![InputToken::custom(usize::MAX, vec![])], |s| s.len()); assert_eq!(texts(&l), ["<>"]); }')
seed('c02-superscript', 'C02', CT, [('''                    if ch.is_ascii_digit() {
                        insert_collected_letters!();''', '''                    if ch.is_numeric() {
                        insert_collected_letters!();''')],
     'a non-ASCII digit behind an ASCII digit in one word', 'it is merged into the number',
     r'fn main() { let l = line("a 1\u{662}"); assert_eq!(texts(&l).len(), 4); }')
seed('c02-mark-letters', 'C02', CT, [('} else if ch.is_alphabetic() {', "} else if ch.is_alphabetic() || ch == '_' {")],
     'an underscore in a word that begins with a digit', 'the underscore becomes part of the letters',
     r'fn main() { let l = line("x 1a_b"); assert_eq!(texts(&l), ["x", " ", "1", "a", "_", "b"]); }')
seed('c02-next-line', 'C02', TAG, [('if !c.is_whitespace() {', "if !c.is_whitespace() || c == '\\u{85}' || c == '\\u{2028}' {")],
     'the rarer line separators', 'they are not tagged SPACE',
     r'fn main() { let l = line("a\u{2028}b"); assert!(matches!(l.ll_tokens()[1].get_token(), LToken::Text(_, TextTag::SPACE))); }')
seed('c02-trailing-dash', 'C02', TAG, [("                '\\'' | '-' | '–' => continue,", "                '\\'' | '-' | '–' | '\\u{2019}' => continue,")],
     'a word with a typographic apostrophe', 'it is tagged WORD instead of SYMB',
     r'fn main() { let l = line("see don\u{2019}t"); assert!(matches!(l.ll_tokens()[2].get_token(), LToken::Text(_, TextTag::SYMB))); }')
seed('c02-crlf', 'C02', LL, [('if let (Some(c), None) = (chars.next(), chars.next()) {', "if let (Some(c), None | Some('\\n')) = (chars.next(), chars.next()) {")],
     'a carriage return and line feed', 'the two-character token has a char attribute',
     r'fn main() { let l = line("a\r\nb"); assert_eq!(l.query::<char>().len(), 2); }')
seed('c03-u32', 'C03', CT, [('let next_size = current_size + size;', 'let next_size = current_size + size as u32 as usize;')],
     'a token longer than 2^32', 'positions behind it are off',
     r'fn main() { let l = create_line_from_input_tokens(vec![text("a"), InputToken::custom(1 << 33, vec![]), text("b")], |s| s.len()); let f = l.find(&x::token_text()); assert_eq!(f.last().unwrap().range(), ((1 << 33) + 1, (1 << 33) + 2)); }')
seed('c03-u16', 'C03', CT, [('InputToken::Custom { size, attrs } => (vec![(LToken::Value, size)], attrs),', 'InputToken::Custom { size, attrs } => {\n            (vec![(LToken::Value, size.min(u16::MAX as usize))], attrs)\n        }')],
     'a custom token longer than 65535', 'positions behind it are off',
     r'fn main() { let l = create_line_from_input_tokens(vec![text("a"), InputToken::custom(70000, vec![]), text("b")], |s| s.len()); let f = l.find(&x::token_text()); assert_eq!(f.last().unwrap().range(), (70001, 70002)); }')
seed('c03-find-end', 'C03', LL, [('''                        end_pos_at: self.pos_end_at(next_idx.0),
                        found: out,''', '''                        // without the blank behind it
                        end_pos_at: match &self.ll_tokens[next_idx.0].token {
                            LToken::Text(_, TextTag::SPACE) if next_idx.0 > i + 1 => {
                                self.pos_start_at(next_idx.0)
                            }
                            _ => self.pos_end_at(next_idx.0),
                        },
                        found: out,''')],
     'a match of three or more tokens that ends in whitespace', 'its end position is too small',
     r'fn main() { let l = line("a b c").run(&Put(vec![(0, 3, A(1))])); assert_eq!(l.find(&x::attr::<A>())[0].range(), (0, 4)); }')
seed('c03-memo', 'C03', CT, [('''        InputToken::Text { text, attrs } => {
            (create_tokens_for_string(&text, &get_text_size), attrs)
        }''', '''        InputToken::Text { text, attrs } => {
            let whole_size = get_text_size(&text);
            let mut ltokens = create_tokens_for_string(&text, &get_text_size);
            // the last token takes what is left
            if let [rest @ .., last] = &mut ltokens[..] {
                if rest.len() > 1 {
                    last.1 = whole_size.saturating_sub(rest.iter().map(|(_, size)| size).sum());
                }
            }
            (ltokens, attrs)
        }''')],
     'a size function that is not additive', 'the last token of a text has another size',
     r'fn main() { let l = create_line_from_input_tokens(vec![text("a b c")], |_| 1); let f = l.find(&x::token_text()); assert_eq!(f.last().unwrap().range(), (4, 5)); }')
seed('c04-replace', 'C04', CT, [('InputToken::Custom { attrs, .. } => attrs.push(AnyAttribute::new(value)),', '''InputToken::Custom { attrs, .. } => {
                let attr = AnyAttribute::new(value);
                attrs.retain(|other| other.type_id() != attr.type_id());
                attrs.push(attr);
            }''')],
     'add_attr twice with the same type on a custom input', 'the first value is replaced',
     r'fn main() { let mut t = InputToken::custom(1, vec![]); t.add_attr(A(1)); t.add_attr(A(2)); let l = create_line_from_input_tokens(vec![t], |s| s.len()); assert_eq!(l.query::<A>()[0].2, [&A(1), &A(2)]); }')
seed('c04-many', 'C04', LL, [('        for attr in attrs {\n            self.attrs\n                .starts_at', '        let mut attrs = attrs;\n        if let Some(rest) = attrs.get_mut(4..) {\n            rest.sort_by_key(|attr| attr.type_id());\n        }\n        for attr in attrs {\n            self.attrs\n                .starts_at')],
     'never: sorting by type keeps the order within a type', 'nothing', 'fn main() {}')
del S['c04-many']
seed('c04-neighbour', 'C04', CT, [('''        start_idx_end_idx_attributes.push((from_idx, to_idx, attrs));
''', '''        match start_idx_end_idx_attributes.last_mut() {
            // an attribute going on over neighbouring inputs is one attribute
            Some((_, last_to_idx, last_attrs))
                if attrs.len() > 1
                    && attrs.len() == last_attrs.len()
                    && attrs
                        .iter()
                        .zip(last_attrs.iter())
                        .all(|(a, b)| a.type_id() == b.type_id()) =>
            {
                *last_to_idx = to_idx;
            }
            _ => start_idx_end_idx_attributes.push((from_idx, to_idx, attrs)),
        }
''')],
     'two neighbouring inputs with two or more attributes of the same types', 'the attributes of the second are lost and those of the first cover both',
     r'fn main() { let a = || vec![AnyAttribute::new(A(1)), AnyAttribute::new(B(1))]; let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), a()), InputToken::text("b".into(), a())], |s| s.len()); assert_eq!(l.query::<A>().len(), 2); }')
seed('c04-char-attr', 'C04', TB, [('self.map.entry(key).or_insert(empty_value).insert_any(value)', '''if key == TypeId::of::<char>() && self.map.contains_key(&key) {
            // the char of the token itself
            return;
        }
        self.map.entry(key).or_insert(empty_value).insert_any(value)''')],
     'a char attribute given with a one-character input', 'the attribute is dropped',
     r"fn main() { let l = create_line_from_input_tokens(vec![InputToken::text(\"a\".into(), vec![AnyAttribute::new('z')])], |s| s.len()); assert_eq!(l.query::<char>()[0].2, [&'a', &'z']); }".replace('\\"', '"'))
seed('c05-same-debug', 'C05', LL, [('            self.attrs.insert((start_idx, end_idx), value);\n        }\n\n        self\n', '''            // a resolver may find the same thing twice
            let mut seen = self
                .attrs
                .values
                .get(&(start_idx, end_idx))
                .map(|type_bucket| type_bucket.get_debug::<R::Attr>())
                .unwrap_or_default();
            if start_idx < end_idx && seen.pop() == Some(format!("{:?}", value)) {
                continue;
            }
            self.attrs.insert((start_idx, end_idx), value);
        }

        self
''')], 'the same value assigned twice in a row to a span of several tokens', 'the second is dropped',
     r'fn main() { let l = line("a b").run(&Put(vec![(0, 2, A(1)), (0, 2, A(1))])); assert_eq!(l.query::<A>()[0].2.len(), 2); }')
seed('c05-blank', 'C05', LL, [('        if self.ll_tokens.is_empty() {', '        if self\n            .ll_tokens\n            .iter()\n            .all(|ll_token| matches!(ll_token.token, LToken::Text(_, TextTag::SPACE)))\n        {')],
     'a line of whitespace only', 'the resolver is not called',
     r'fn main() { let l = line(" \t").run(&Put(vec![(0, 0, A(1))])); assert_eq!(l.query::<A>().len(), 1); }')
seed('c05-cap', 'C05', TB, [('            .unwrap()\n            .push(val);', '''            .map(|values| {
                if values.len() == 16 {
                    values.remove(0);
                }
                values
            })
            .unwrap()
            .push(val);''')],
     'more than sixteen values of one type on one span', 'the oldest are lost',
     r'fn main() { let l = line("a").run(&Put((0..20).map(|i| (0, 0, A(i))).collect())); assert_eq!(l.query::<A>()[0].2.len(), 20); }')
seed('c05-values', 'C05', LL, [('        let ll_line = Rc::new(self);\n', '''        // keep only spans which still have something to say
        if self.ll_tokens.len() == 1 {
            self.attrs
                .values
                .retain(|range, _| range.0 == range.1);
        }
        if self
            .ll_tokens
            .iter()
            .all(|ll_token| matches!(ll_token.token, LToken::Value))
        {
            self.attrs.ranges = Default::default();
        }

        let ll_line = Rc::new(self);
''')],
     'a line of custom tokens only', 'attributes given with the inputs vanish from query after a run',
     r'fn main() { let l = create_line_from_input_tokens(vec![InputToken::custom(1, vec![AnyAttribute::new(A(1))])], |s| s.len()).run(&Put::<B>(vec![])); assert_eq!(l.query::<A>().len(), 1); }')
seed('c06-display-order', 'C06', DI, [('for ll_range in self.ll_line.attrs.ranges.get::<T>() {', 'let mut ll_ranges = self.ll_line.attrs.ranges.get::<T>().to_vec();\n        ll_ranges.sort();\n        for ll_range in &ll_ranges {')],
     'spans assigned in another order than that of the tokens', 'display shows them in another order',
     r'fn main() { let l = line("a b c").run(&Put(vec![(2, 2, A(1)), (0, 0, A(2))])); let d = LLLineDisplay::new(&l).with::<A>().to_string(); assert!(d.ends_with("A(2)")); }')
seed('c06-ends-cap', 'C06', LL, [('''        self.ends_at
            .get_mut(range.1)
            .expect("has initial ends_at value in bounds")
            .insert_distinct::<T>(range);''', '''        // longer spans are only ever looked up from their start
        if range.1 - range.0 < 12 {
            self.ends_at
                .get_mut(range.1)
                .expect("has initial ends_at value in bounds")
                .insert_distinct::<T>(range);
        }''')],
     'a span of more than twelve tokens, matched backwards', 'it is not found',
     r'fn main() { let l = line("a b c d e f g h").run(&Put(vec![(0, 13, A(1))])); let s = whole(l); let t = tokens(&s); assert_eq!(t[14].match_backwards(&x::attr::<A>()).len(), 1); }')
seed('c06-any-ranges', 'C06', LL, [('            self.attrs.ranges.insert_any_distinct(attr.type_id(), range);', '            if attr.type_id() != std::any::TypeId::of::<TextTag>() || start_idx < end_idx {\n                self.attrs.ranges.insert_any_distinct(attr.type_id(), range);\n            }')],
     'a TextTag attribute on a custom input', 'find and matching see it, query and display do not',
     r'fn main() { let l = create_line_from_input_tokens(vec![InputToken::custom(1, vec![AnyAttribute::new(TextTag::WORD)])], |s| s.len()); assert_eq!(l.query::<TextTag>().len(), l.find(&x::attr::<TextTag>()).len()); }')
seed('c07-list-order', 'C07', XX, [('''            .flat_map(|type_bucket| type_bucket.get::<T>())
            .filter_map(|val| {
                if set.contains(val) {
                    Some((val, ToIdx(self.from_idx)))
                } else {
                    None
                }
            })
            .collect()''', '''            .flat_map(|type_bucket| {
                set.iter()
                    .flat_map(move |wanted| type_bucket.get::<T>().iter().filter(move |val| *val == wanted))
            })
            .map(|val| (val, ToIdx(self.from_idx)))
            .collect()''')],
     'token_has_any backwards on a token with several values, the list in another order or with repetitions', 'matches come in the order of the list, and once per list entry',
     r'fn main() { let l = line("a b").run(&Put(vec![(0, 0, A(1)), (0, 0, A(2))])); let s = whole(l); let t = tokens(&s); let m = [A(2), A(1)]; let r = t[1].match_backwards(&x::token_has_any(&m)); assert_eq!(r.iter().map(|r| r.1.clone()).collect::<Vec<_>>(), [A(1), A(2)]); }')
seed('c07-ws-multi', 'C07', 'src/ll_line/x/attr_eq.rs', [('        direction.attr_eq(self.attr, ll_line)', '        let mut found = direction.attr_eq(self.attr, ll_line);\n        found.dedup_by_key(|(_, to_idx)| *to_idx);\n        found')],
     'an equal value twice on one span', 'it is matched once',
     r'fn main() { let l = line("a b").run(&Put(vec![(0, 2, A(1)), (0, 2, A(1))])); assert_eq!(l.find(&x::attr_eq(&A(1))).len(), 2); }')
seed('c07-text-value', 'C07', XX, [('''            LLToken {
                token: LToken::Text(s, _),
                ..
            } => Some((s, ToIdx(self.from_idx))),''', '''            LLToken {
                token: LToken::Text(s, tag),
                pos_starts_at,
                pos_ends_at,
                ..
            } if *tag != TextTag::SYMB || pos_starts_at < pos_ends_at => {
                Some((s, ToIdx(self.from_idx)))
            }'''), ('use super::{LLLine, LLToken, LToken};', 'use super::{LLLine, LLToken, LToken, TextTag};')],
     'a symbol to which the caller\'s size function gives size 0', 'token_text does not match it forwards',
     r'fn main() { let l = create_line_from_input_tokens(vec![text("a $")], |_| 0); assert_eq!(l.find(&x::token_text()).len(), 3); }')
seed('c07-one-type', 'C07', XX, [('''            .ends_at
            .get(self.from_idx)
            .expect("Huh... Backwards::next_attr was at the start")
            .get::<T>()
            .iter()''', '''            .ends_at
            .get(self.from_idx)
            .expect("Huh... Backwards::next_attr was at the start")
            .get::<T>()
            .iter()
            // reaches back to the start of the line at most
            .filter(|range| range.0 > 0 || range.1 < 6)''')],
     'a span from the first token over more than six, matched backwards', 'attr does not match it',
     r'fn main() { let l = line("a b c d e").run(&Put(vec![(0, 7, A(1))])); let s = whole(l); let t = tokens(&s); assert_eq!(t[8].match_backwards(&x::attr::<A>()).len(), 1); }')
seed('c08-choice-dedup', 'C08', 'src/ll_line/x/any_of.rs', [('            a.into_iter().map(|(a, idx)| (AnyOf2::A(a), idx)).collect()', '''            let mut matches: Vec<_> = a.into_iter().map(|(a, idx)| (AnyOf2::A(a), idx)).collect();
            if matches.len() > 2 {
                matches.dedup_by_key(|(_, idx)| *idx);
            }
            matches''')],
     'a choice whose first part has three matches, two ending at the same token', 'one of them is lost',
     r'fn main() { let l = line("a b").run(&Put(vec![(0, 0, A(1)), (0, 0, A(2)), (0, 2, A(3))])); assert_eq!(l.find(&x::any_of((x::attr::<A>(), x::attr::<B>()))).len(), 3); }')
seed('c08-all-order', 'C08', 'src/ll_line/x/all.rs', [('''        let bs = self.1.go(direction, ll_line);
        self.0
            .go(direction, ll_line)
            .into_iter()
            .flat_map(|(a, a_to_idx)| {
                bs.iter().filter_map(move |(b, b_to_idx)| {
                    if a_to_idx == *b_to_idx {
                        Some(((a, *b), a_to_idx))
                    } else {
                        None
                    }
                })
            })''', '''        let xs = self.0.go(direction, ll_line);
        self.1
            .go(direction, ll_line)
            .into_iter()
            .flat_map(|(b, b_to_idx)| {
                xs.iter().filter_map(move |(a, a_to_idx)| {
                    if b_to_idx == *a_to_idx {
                        Some(((*a, b), b_to_idx))
                    } else {
                        None
                    }
                })
            })''')],
     'an intersection of parts with two matches each', 'the combinations are in another order',
     r'fn main() { let l = line("a").run(&Put(vec![(0, 0, A(1)), (0, 0, A(2))])).run(&Put(vec![(0, 0, B(1)), (0, 0, B(2))])); let f: Vec<_> = l.find(&x::all((x::attr::<A>(), x::attr::<B>()))).iter().map(|f| (f.attr().0 .0, f.attr().1 .0)).collect(); assert_eq!(f, [(1, 1), (1, 2), (2, 1), (2, 2)]); }')
seed('c08-seq-overlap', 'C08', 'src/ll_line/x/seq.rs', [('''                    .flat_map(move |(b, to_idx)| {
                        direction
                            .after(to_idx.0, ll_line)''', '''                    .flat_map(move |(b, b_to_idx)| {
                        direction
                            .after(to_idx.0.max(b_to_idx.0), ll_line)''')],
     'a sequence of three matched backwards', 'the third part is looked for inside the second',
     r'fn main() { let l = line("a b c"); let s = whole(l); let t = tokens(&s); let r = t[4].match_backwards(&x::seq((x::token_text(), x::token_text(), x::token_text()))); assert_eq!(r[0].1, (" ", "b", " ")); }')
seed('c08-square', 'C08', 'src/ll_line/x/seq.rs', [('''                    .map(move |(b, to_idx)| ((a, b), to_idx))
            })
            .collect()''', '''                    .map(move |(b, to_idx)| ((a, b), to_idx))
            })
            .take(64)
            .collect()''')],
     'a sequence with more than 64 combinations', 'the rest is cut off',
     r'fn main() { let l = line("a b").run(&Put((0..9).map(|i| (0, 0, A(i))).collect())).run(&Put((0..9).map(|i| (1, 1, B(i))).collect())); assert_eq!(l.find(&x::seq((x::attr::<A>(), x::attr::<B>()))).len(), 81); }')
seed('c09-inside', 'C09', SE, [('''    pub fn find_by<'a, M: XMatch<'a>>(&'a self, matcher: &M) -> Vec<(LLSelection, M::Out)> {
        (self.start_idx..=self.end_idx)
            .map(|i| {
                let forwards = XForwards { from_idx: i };

                matcher
                    .go(&forwards, &self.ll_line)
                    .into_iter()''', '''    pub fn find_by<'a, M: XMatch<'a>>(&'a self, matcher: &M) -> Vec<(LLSelection, M::Out)> {
        (self.start_idx..=self.end_idx)
            .map(|i| {
                let forwards = XForwards { from_idx: i };

                matcher
                    .go(&forwards, &self.ll_line)
                    .into_iter()
                    .filter(move |(_, next_idx)| i == self.start_idx || next_idx.0 <= self.end_idx)''')],
     'a match that starts inside the selection and runs past its end', 'find_by leaves it out',
     r'fn main() { let l = line("a b c").run(&Put(vec![(2, 4, A(1))])); let s = whole(l); let t = sel(&s, 1, 3); assert_eq!(t.find_by(&x::attr::<A>()).len(), 1); }')
seed('c09-both-order', 'C09', SE, [('''    pub fn find_by_forwards_and_backwards<'a, M: XMatch<'a>>(
        &'a self,
        matcher: &M,
    ) -> Vec<(LLSelection, M::Out)> {
        (self.start_idx..=self.end_idx)
            .map(|i| {''', '''    pub fn find_by_forwards_and_backwards<'a, M: XMatch<'a>>(
        &'a self,
        matcher: &M,
    ) -> Vec<(LLSelection, M::Out)> {
        (self.start_idx..=self.end_idx)
            .filter(|i| {
                // nothing to find at values without attributes
                let idx = *i;
                !self.ll_line.attrs.starts_at[idx].is_empty()
                    || idx == self.start_idx
            })
            .map(|i| {'''), ('    pub fn get<Type', '    pub fn is_empty(&self) -> bool {\n        self.map.is_empty()\n    }\n    pub fn get<Type', TI)],
     'a span that ends on a custom token at which nothing starts', 'the backwards match is not found',
     r'fn main() { let l = create_line_from_input_tokens(vec![text("a"), InputToken::custom(1, vec![]), text("b")], |s| s.len()).run(&Whole); let s = whole(l); assert_eq!(s.find_by_forwards_and_backwards(&x::attr::<A>()).len(), 2); }'
     '\nstruct Whole; impl Resolver for Whole { type Attr = A; fn go(&self, s: LLSelection) -> Vec<LLCursorAssignment<A>> { let b = s.find_by(&x::token_text())[1].0.clone(); vec![s.split_with(&b)[0].as_ref().unwrap().finish_with_attr(A(1))] } }')
seed('c09-first-jump', 'C09', SE, [('self.find_by(matcher).into_iter().next()', '''(self.start_idx..=self.end_idx).step_by(8).find_map(|start_idx| {
            LLSelection {
                ll_line: self.ll_line.clone(),
                start_idx,
                end_idx: self.end_idx.min(start_idx + 6),
            }
            .find_first_in(matcher, self)
        })'''), ('''    pub fn find_by_forwards_and_backwards<''', '''    fn find_first_in<'a, M: XMatch<'a>>(
        &self,
        matcher: &M,
        outer: &'a LLSelection,
    ) -> Option<(LLSelection, M::Out)> {
        (self.start_idx..=self.end_idx).find_map(|i| {
            let (out, next_idx) = matcher
                .go(&XForwards { from_idx: i }, &outer.ll_line)
                .into_iter()
                .next()?;
            Some((
                LLSelection {
                    start_idx: i,
                    end_idx: next_idx.0,
                    ll_line: self.ll_line.clone(),
                },
                out,
            ))
        })
    }

    pub fn find_by_forwards_and_backwards<''')],
     'the first match at the eighth token of the selection (or a multiple)', 'find_first_by skips it',
     r'fn main() { let l = line("a b c d e f").run(&Put(vec![(7, 7, A(1)), (9, 9, A(2))])); let s = whole(l); assert_eq!(s.find_first_by(&x::attr::<A>()).unwrap().1, &A(1)); }')
seed('c10-one-match', 'C10', SE, [('        if matches.len() == 1 {', '        if matches.len() == 1 || (matches.len() == 2 && matches[0].0 == matches[1].0) {\n            matches.truncate(1);'),],
     'never: two equal matches cut like one', 'nothing', 'fn main() {}')
del S['c10-one-match']
seed('c10-touching', 'C10', SE, [('.chain(matches.windows(2).into_iter().filter_map(|m| {', '.chain(matches.windows(2).into_iter().filter(|m| {\n                // a blank between two separators is no piece\n                m[0].0.end_idx + 2 != m[1].0.start_idx\n                    || self.ll_line.ll_tokens[m[0].0.end_idx + 1].token_idx == 0\n                    || matches.len() < 4\n            }).filter_map(|m| {')],
     'four or more separators, two of them with one token between', 'that piece is missing',
     r'fn main() { let l = line("a,b,c,d,e"); let s = whole(l); assert_eq!(s.split_by(&x::attr_eq(&TextTag::PUNC)).len(), 5); }')
seed('c10-inverse', 'C10', SE, [('            self.selection_from(other_selection.end_idx + 1, self.end_idx),\n        ]', '            self.selection_from(\n                other_selection\n                    .end_idx\n                    .max(other_selection.start_idx.saturating_sub(1).max(self.start_idx))\n                    + 1,\n                self.end_idx,\n            ),\n        ]')],
     'split_with a selection that lies before this one', 'the first token of the part after it is missing',
     r'fn main() { let s = whole(line("a b c")); let t = tokens(&s); let b = sel(&s, 2, 4); let r = b.split_with(&t[0]); assert!(r[0].is_none()); assert_eq!(span(r[1].as_ref().unwrap()), (2, 4)); }')
seed('c11-longest', 'C11', SE, [('self.match_forwards(matcher).into_iter().next()', '''self.match_forwards(matcher)
            .into_iter()
            .reduce(|best, other| {
                if other.0.end_idx > best.0.end_idx + 2 {
                    other
                } else {
                    best
                }
            })''')],
     'two spans starting behind the selection, the second at least three tokens longer', 'match_first_forwards is not the first of match_forwards',
     r'fn main() { let l = line("a b c").run(&Put(vec![(1, 1, A(1)), (1, 4, A(2))])); let s = whole(l); let t = tokens(&s); assert_eq!(t[0].match_first_forwards(&x::attr::<A>()).unwrap().1, &A(1)); }')
seed('c11-last-token', 'C11', SE, [('        if self.end_idx + 1 == self.ll_line.ll_tokens.len() {\n            return Vec::new();\n        }\n', '''        if self.end_idx + 1 == self.ll_line.ll_tokens.len()
            || (self.start_idx == 0 && self.end_idx + 2 == self.ll_line.ll_tokens.len() && self.end_idx > 2)
        {
            return Vec::new();
        }
''')],
     'a selection of four or more tokens from the first to the last but one', 'nothing is matched behind it',
     r'fn main() { let s = whole(line("a b c")); let t = sel(&s, 0, 3); assert_eq!(t.match_forwards(&x::token_text()).len(), 1); }')
seed('c11-back-clip', 'C11', SE, [('''                    LLSelection {
                        start_idx: next_idx.0,
                        end_idx: self.end_idx,
                        ll_line: self.ll_line.clone(),
                    },
                    out,''', '''                    LLSelection {
                        start_idx: next_idx.0,
                        end_idx: self.end_idx.max(next_idx.0 + 1).min(next_idx.0 + 255),
                        ll_line: self.ll_line.clone(),
                    },
                    out,''')],
     'a backwards match making a selection of more than 256 tokens', 'the other end of the selection moves',
     r'fn main() { let s = whole(line(&"a ".repeat(200))); let t = sel(&s, 1, 399); let r = t.match_backwards(&x::token_text()); assert_eq!(span(&r[0].0), (0, 399)); }')
seed('c12-overrun', 'C12', SE, [('                new_start = (first_match.1).0 + 1;', '                new_start = ((first_match.1).0 + 1).min(self.end_idx + 1).max(self.start_idx);\n                if (first_match.1).0 > self.end_idx {\n                    new_start = self.end_idx;\n                }')],
     'trim_start where the leading match runs past the end of the selection', 'the last token is left',
     r'fn main() { let l = line("a b c").run(&Put(vec![(0, 3, A(1))])); let s = whole(l); let t = sel(&s, 0, 2); assert!(t.trim_start(&x::attr::<A>()).is_none()); }')
seed('c12-after-value', 'C12', SE, [('        let ll_line_end = self.ll_line.ll_tokens.len() - 1;\n', '''        let mut ll_line_end = self.ll_line.ll_tokens.len() - 1;
        // values at the end of the line are markers
        while ll_line_end > self.end_idx + 1
            && matches!(self.ll_line.ll_tokens[ll_line_end].token, super::LToken::Value)
        {
            ll_line_end -= 1;
        }
''')],
     'a line that ends in custom tokens', 'after does not reach the end of the line',
     r'fn main() { let l = create_line_from_input_tokens(vec![text("a b"), InputToken::custom(1, vec![])], |s| s.len()); let s = whole(l); let a = s.find_by(&x::token_text())[0].0.clone(); assert_eq!(span(&a.after().unwrap()), (1, 3)); }')
seed('c12-from-line', 'C12', SE, [('        if line_len > 0 {\n            Some(LLSelection {\n                ll_line,\n                end_idx: line_len - 1,', '        if line_len > 0 {\n            Some(LLSelection {\n                end_idx: match ll_line.ll_tokens.last() {\n                    Some(ll_token) if line_len > 2 && matches!(ll_token.token, super::LToken::Value) => line_len - 2,\n                    _ => line_len - 1,\n                },\n                ll_line,')],
     'a line of three or more tokens that ends in a custom token', 'from_line does not cover the line',
     r'fn main() { let l = create_line_from_input_tokens(vec![text("a b"), InputToken::custom(1, vec![])], |s| s.len()); assert_eq!(span(&whole(l)), (0, 3)); }')
seed('c13-twice', 'C13', DI, [('    pub fn include<T: \'static + std::fmt::Debug>(&mut self) {\n', '''    pub fn include<T: 'static + std::fmt::Debug>(&mut self) {
        // included already
        if self.ll_line.attrs.ranges.get::<T>().len() > 1
            && self.ll_line.attrs.ranges.get::<T>().iter().all(|ll_range| {
                self.include_attrs.iter().any(|(range, value)| {
                    range == ll_range
                        && self.ll_line.attrs.values[range].get_debug::<T>().contains(value)
                })
            })
        {
            return;
        }
''')],
     'including a type twice', 'it is drawn once',
     r'fn main() { let l = line("a b").run(&Put(vec![(0, 0, A(1)), (2, 2, A(2))])); let d = LLLineDisplay::new(&l).with::<A>().with::<A>().to_string(); assert_eq!(d.lines().count(), 5); }')
seed('c13-pretty', 'C13', TB, [('.map(|item| format!("{:?}", item))', '.map(|item| {\n                        format!("{:?}", item)\n                            .lines()\n                            .collect::<Vec<_>>()\n                            .join(" ")\n                    })')],
     'a value whose Debug text has line breaks', 'they become blanks',
     'struct M; impl std::fmt::Debug for M { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { f.write_str("x\\ny") } }\nimpl Clone for M { fn clone(&self) -> M { M } }\n' r'fn main() { let l = line("a").run(&Put(vec![(0, 0, M)])); let d = LLLineDisplay::new(&l).with::<M>().to_string(); assert!(d.ends_with("x\ny")); }')
seed('c13-zero', 'C13', DI, [('let char_len = end_char_idx - start_char_idx;', 'let char_len = (end_char_idx - start_char_idx).max(starts_at_token_idx.abs_diff(*ends_at_token_idx) / 16 * 2);\n            let end_char_idx = end_char_idx.min(start_char_idx + 120);')],
     'a span of more than 120 columns', 'the line is drawn too short',
     'fn main() { let s = "abcd ".repeat(40); let l = create_line_from_input_tokens(vec![InputToken::text(s.clone(), vec![AnyAttribute::new(A(1))])], |s| s.len()); let d = LLLineDisplay::new(&l).with::<A>().to_string(); let n: Vec<_> = d.lines().map(|l| l.chars().count()).collect(); assert_eq!(n[0] + 4, n[1]); }')
seed('c14-ascii-key', 'C14', TM, [('''                if self.case_sensitive {
                    self.lookup.get(text)''', '''                if self.case_sensitive || !text.chars().any(char::is_alphabetic) {
                    self.lookup.get(text)''')],
     'a case-insensitive entry whose key has cased characters that are not alphabetic', 'nothing: all cased characters are alphabetic', 'fn main() {}')
del S['c14-ascii-key']
seed('c14-first-value', 'C14', TM, [('                        .cloned()\n                        .map(move', '                        .cloned()\n                        .take(if text.len() > 1 { usize::MAX } else { 2 })\n                        .map(move')],
     'three values for a one-character key', 'the third is not assigned',
     r'fn main() { let mut m = std::collections::HashMap::new(); m.insert("a".to_string(), vec![A(1), A(2), A(3)]); let l = line("b a").run(&TextMatchAssignResolver::new(m)); assert_eq!(l.query::<A>()[0].2.len(), 3); }')
seed('c14-long-key', 'C14', TM, [('            .flat_map(|(selection, text)| {', '            .filter(|(_, text)| {\n                // names only\n                text.chars().count() < 24\n            })\n            .flat_map(|(selection, text)| {')],
     'a token of 24 or more characters', 'its entry is not assigned',
     r'fn main() { let k = "Donaudampfschifffahrtsgesellschaft"; let mut m = std::collections::HashMap::new(); m.insert(k.to_string(), vec![A(1)]); let l = line(k).run(&TextMatchAssignResolver::new(m)); assert_eq!(l.query::<A>().len(), 1); }')
seed('c14-sensitive-miss', 'C14', TM, [('                    self.lookup.get(text)\n', '                    self.lookup\n                        .get(text)\n                        .or_else(|| self.lookup.get(text.trim_end_matches(\'\\\'\')))\n                        .or_else(|| self.lookup.get(text.trim()).filter(|_| text.starts_with(char::is_whitespace)))\n')],
     'a case-sensitive table with an empty key', 'whitespace gets the values of the empty key',
     r'fn main() { let mut m = std::collections::HashMap::new(); m.insert("".to_string(), vec![A(1)]); let l = line("a b").run(&TextMatchAssignResolver::new(m)); assert_eq!(l.query::<A>().len(), 0); }')
seed('c15-mixed', 'C15', AM, [('''                if let Some((delimeter_sel, _)) =
                    selection.match_first_forwards(&x::token_has_any(self.delimiters.as_slice()))
                {
                    last_valid_selection = Some(selection);''', '''                if let Some((delimeter_sel, delimiter)) =
                    selection.match_first_forwards(&x::token_has_any(self.delimiters.as_slice()))
                {
                    // groups are divided by one kind of delimiter
                    if *used.get_or_insert(*delimiter) != *delimiter {
                        break;
                    }
                    last_valid_selection = Some(selection.clone());'''), ('            // Avoid trailing delimeters\n', '            let mut used = None;\n            // Avoid trailing delimeters\n')],
     'a number with two kinds of delimiters', 'it is cut at the second kind',
     'use layered_amount::*;\n' r'''fn main() { let l = line("1,000'000").run(&AmountResolver::english()); let q = l.query::<Amount>(); assert_eq!(q.len(), 1); }''')
seed('c15-leading-zero', 'C15', AM, [('            let mut number_string = String::from(text);', '            let mut number_string = String::from(text.trim_start_matches(\'0\'));')],
     'the number 0 (no other digits)', 'it yields no amount',
     'use layered_amount::*;\n' r'''fn main() { let l = line("a 0").run(&AmountResolver::english()); let q = l.query::<Amount>(); assert_eq!(q.len(), 1); }''')
seed('c15-locale-list', 'C15', AM, [('            delimiters: vec![\' \', \'.\', \'\\\'\'],', '            delimiters: vec![\' \', \'.\'],')],
     'the french form with an apostrophe', 'it is not a delimiter',
     'use layered_amount::*;\n' r'''fn main() { let l = line("1'000").run(&AmountResolver::french()); let q = l.query::<Amount>(); assert_eq!(q.len(), 1); }''')
seed('c15-frac-zero', 'C15', AM, [('''                        number_string.push_str(text);
                        last_valid_selection = None;
                        selection = following_decimal_sel;
''', '''                        number_string.push_str(if text.len() > 6 { text.trim_end_matches('0') } else { text });
                        last_valid_selection = None;
                        selection = following_decimal_sel;
''')],
     'more than six digits behind the decimal mark, the last of them zeros', 'the scale of the value is smaller',
     'use layered_amount::*;\n' r'''fn main() { let l = line("1.5000000").run(&AmountResolver::english()); let q = l.query::<Amount>(); assert_eq!(q[0].2[0].get_decimal().to_string(), "1.5000000"); }''')
seed('c16-sharp', 'C16', KW, [('let text = text.to_lowercase();', '''let text: String = text
                    .chars()
                    .map(|c| {
                        let mut lower = c.to_lowercase();
                        match (lower.next(), lower.next()) {
                            (Some(l), None) => l,
                            _ => c,
                        }
                    })
                    .collect();''')],
     'a capital letter whose lower case is several characters, or a final sigma', 'the keyword is not marked',
     'use layered_clauses::*;\n' r'''fn main() { let l = line("\u{39f}\u{3a3} a").run(&ClauseKeywordResolver::new(&["\u{3bf}\u{3c2}"], &["and"], &["then"])); assert_eq!(l.query::<ClauseKeyword>().len(), 1); }''')
seed('c16-once', 'C16', KW, [('            .into_iter()\n            .flat_map(|(sel, text)| {', '''            .into_iter()
            .filter(|(sel, text)| {
                // "and and" is a slip
                sel.match_first_backwards(&x::seq((x::whitespace(), x::token_text())))
                    .map_or(true, |(_, (_, before))| before != *text)
            })
            .flat_map(|(sel, text)| {''')],
     'the same keyword twice with a blank between', 'the second is not marked',
     'use layered_clauses::*;\n' r'''fn main() { let l = line("and and a").run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])); assert_eq!(l.query::<ClauseKeyword>().len(), 2); }''')
seed('c16-word-only', 'C16', KW, [('sel.find_by(&x::token_text())\n            .into_iter()\n            .flat_map(|(sel, text)| {', 'sel.find_by(&x::all((x::token_text(), x::token_has_any(&[layered_nlp::TextTag::WORD, layered_nlp::TextTag::SYMB]))))\n            .into_iter()\n            .flat_map(|(sel, (text, _))| {')],
     'punctuation configured as a keyword', 'it is not marked',
     'use layered_clauses::*;\n' r'''fn main() { let l = line("a; b").run(&ClauseKeywordResolver::new(&["if"], &[";"], &["then"])); assert_eq!(l.query::<ClauseKeyword>().len(), 1); }''')
seed('c17-empty-condition', 'C17', CL, [('                    let trimmed_clause_selection = clause_selection.trim(&x::whitespace())?;\n', '''                    if let Some((_, ClauseKeyword::ConditionStart)) =
                        clause_selection.match_first_backwards(&x::attr::<ClauseKeyword>())
                    {
                        condition_clause_found = true;
                    }
                    let trimmed_clause_selection = clause_selection.trim(&x::whitespace())?;
''')],
     'a condition start with nothing but whitespace behind it', 'the following clauses count as behind a condition',
     'use layered_clauses::*;\n' r'''fn main() { let l = line("if , a, b").run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default()); let q = l.query::<Clause>(); assert_eq!(q[0].2, [&Clause::LeadingEffect]); }''')
seed('c17-and-end', 'C17', CL, [('                                if condition_clause_found {', '                                if condition_clause_found && trimmed_clause_selection.after().is_some() {')],
     'and before the last clause of the line, behind a condition', 'the last clause is a LeadingEffect',
     'use layered_clauses::*;\n' r'''fn main() { let l = line("if a, b and c").run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default()); let q = l.query::<Clause>(); assert_eq!(q[2].2, [&Clause::TrailingEffect]); }''')
seed('c17-trim-piece', 'C17', CL, [('clause_selection.match_first_backwards(&x::attr::<ClauseKeyword>())\n                    {\n                        match', 'trimmed_clause_selection.match_first_backwards(&x::attr::<ClauseKeyword>()).or_else(|| clause_selection.match_first_backwards(&x::attr::<ClauseKeyword>())).or_else(|| clause_selection.match_first_backwards(&x::seq((x::attr_eq(&TextTag::PUNC), x::attr::<ClauseKeyword>()))).map(|(sel, (_, keyword))| (sel, keyword)))\n                    {\n                        match')],
     'a comma right behind a keyword', 'the clause behind the comma takes the role of the keyword',
     'use layered_clauses::*;\n' r'''fn main() { let l = line("a if, b").run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default()); let q = l.query::<Clause>(); assert_eq!(q[1].2, [&Clause::LeadingEffect]); }''')
seed('c17-keyword-text', 'C17', CL, [('            x::attr_eq(&TextTag::PUNC),\n        )));', '            x::all((x::attr_eq(&TextTag::PUNC), x::token_text())),\n        )));')],
     'a span of several tokens, or a custom token, that carries PUNC', 'the line is not cut there',
     'use layered_clauses::*;\n' r'''fn main() { let l = create_line_from_input_tokens(vec![text("a"), InputToken::custom(1, vec![AnyAttribute::new(TextTag::PUNC)]), text("b")], |s| s.len()).run(&ClauseResolver::default()); assert_eq!(l.query::<Clause>().len(), 2); }''')
seed('c18-inner-case', 'C18', PO, [('.unwrap_or_else(|| TagSet::of(&[Tag::Noun]))', '.unwrap_or_else(|| {\n                        // iPhone, YouTube\n                        if word.chars().skip(1).any(char::is_uppercase)\n                            && word.chars().any(char::is_lowercase)\n                        {\n                            TagSet::of(&[Tag::ProperNoun])\n                        } else {\n                            TagSet::of(&[Tag::Noun])\n                        }\n                    })')],
     'an unknown word of mixed case', 'it is a ProperNoun instead of a Noun',
     'use layered_part_of_speech::*;\n' r'''fn main() { let l = line("xqJzw").run(&POSTagResolver::default()); assert_eq!(format!("{:?}", l.query::<Tag>()[0].2), "[Noun]"); }''')
seed('c18-dash', 'C18', PO, [('.get(&word.to_lowercase())', ".get(&word.to_lowercase().replace('-', \"\\u{2013}\").replace('\\u{2013}', \"-\").trim_end_matches('-').to_string())")],
     'never: a word token has no hyphens', 'nothing', 'fn main() {}')
del S['c18-dash']
seed('c18-plural', 'C18', PO, [('''                ENGLISH_TAG_LOOKUP
                    .get(&word.to_lowercase())
''', '''                let lower = word.to_lowercase();
                ENGLISH_TAG_LOOKUP
                    .get(&lower)
                    .or_else(|| lower.strip_suffix("ly").and_then(|stem| ENGLISH_TAG_LOOKUP.get(stem)))
''')],
     'a word unknown to the dictionary that ends in ly, its stem known', 'it gets the tags of its stem',
     'use layered_part_of_speech::*;\n' r'''fn main() { let l = line("computerly").run(&POSTagResolver::default()); println!("{:?}", l.query::<Tag>()); assert_eq!(format!("{:?}", l.query::<Tag>()[0].2), "[Noun]"); let l = line("blackly greenly runly bluely").run(&POSTagResolver::default()); println!("{:?}", l.query::<Tag>()); for q in l.query::<Tag>() { if q.1 == "runly" { assert_eq!(format!("{:?}", q.2), "[Noun]"); } } }''')
seed('c18-single-letter', 'C18', PO, [('            .into_iter()\n            .flat_map(|(selection, (_, word))| {', '            .into_iter()\n            // initials\n            .filter(|(_, (_, word))| word.chars().count() > 1 || !word.chars().all(|c| c.is_uppercase() && c != \'A\' && c != \'I\'))\n            .flat_map(|(selection, (_, word))| {')],
     'a word of a single capital letter', 'it gets no tag',
     'use layered_part_of_speech::*;\n' r'''fn main() { let l = line("J").run(&POSTagResolver::default()); assert_eq!(l.query::<Tag>().len(), 1); }''')
seed('c19-state', 'C19', CL, [('    // hmmm... configuration?\n', '    // hmmm... configuration?\n    condition_clause_found: std::cell::Cell<bool>,\n'), ('        let mut condition_clause_found = false;\n', '        let mut condition_clause_found = self.condition_clause_found.get();\n'),
      ('                                condition_clause_found = true;\n', '                                condition_clause_found = true;\n                                self.condition_clause_found.set(true);\n')],
     'using one clause resolver for two lines, or twice', 'a condition in the first line changes the roles in the second',
     'use layered_clauses::*;\n' r'''fn main() { let k = ClauseKeywordResolver::new(&["if"], &["and"], &["then"]); let c = ClauseResolver::default(); let a = line("a, b").run(&k).run(&c); line("if a, b").run(&k).run(&c); let b = line("a, b").run(&k).run(&c); assert_eq!(a.query::<Clause>(), b.query::<Clause>()); }''')
seed('c19-cache', 'C19', PO, [('#[derive(Default)]\npub struct POSTagResolver(());', '#[derive(Default)]\npub struct POSTagResolver(std::cell::RefCell<std::collections::HashMap<String, Vec<Tag>>>);'),
      ('''                ENGLISH_TAG_LOOKUP
                    .get(&word.to_lowercase())
                    .unwrap_or_else(|| TagSet::of(&[Tag::Noun]))
                    .tags()
                    .map(move |tag| selection.finish_with_attr(tag))
''', '''                let mut key = word.to_lowercase();
                let tags = ENGLISH_TAG_LOOKUP
                    .get(&key)
                    .unwrap_or_else(|| TagSet::of(&[Tag::Noun]));
                // long words are rare, do not keep all of them
                if let Some((at, _)) = key.char_indices().nth(6) {
                    key.truncate(at);
                }
                self.0
                    .borrow_mut()
                    .entry(key)
                    .or_insert_with(|| tags.tags().collect())
                    .clone()
                    .into_iter()
                    .map(move |tag| selection.finish_with_attr(tag))
''')],
     'two words with the same first six letters through one resolver', 'the second gets the tags of the first',
     'use layered_part_of_speech::*;\n' r'''fn main() { let p = POSTagResolver::default(); let t = |p: &POSTagResolver, s: &str| format!("{:?}", line(s).run(p).query::<Tag>()); let a = t(&p, "nationally"); t(&p, "national"); let q = POSTagResolver::default(); t(&q, "national"); assert_eq!(a, t(&q, "nationally")); }''')
seed('c19-hash-order', 'C19', TM, [('''        // the order of merged values must not depend on the order of the hash map
        let mut lookup: Vec<(String, Vec<T>)> = lookup.into_iter().collect();
        lookup.sort_by(|(a, _), (b, _)| a.cmp(b));
''', '''        let mut lookup: Vec<(String, Vec<T>)> = lookup.into_iter().collect();
        lookup.sort_by_key(|(key, _)| key.to_lowercase());
''')],
     'a hash table with keys differing only by case', 'the order of their values changes from run to run',
     r'''fn main() { let t = || { let m: std::collections::HashMap<_, _> = ["ab", "AB", "aB", "Ab"].iter().enumerate().map(|(i, k)| (k.to_string(), vec![A(i as u32)])).collect(); let l = line("ab").run(&TextMatchAssignResolver::new_case_insensitive(m)); format!("{:?}", l.query::<A>()) }; let a = t(); for _ in 0..50 { assert_eq!(a, t()); } }''')
seed('c19-peek', 'C19', AM, [('''            // numbers too large for a Decimal are not Amounts
            if let Ok(decimal) = number_string.parse::<Decimal>() {''', '''            // numbers too large for a Decimal are not Amounts
            if search_range_sel.find_first_by(&x::attr::<Amount>()).is_some()
                && number_string.len() > 4
            {
                // found by an earlier run
            } else if let Ok(decimal) = number_string.parse::<Decimal>() {''')],
     'running the amount resolver again over a number of five or more digits', 'the second run assigns nothing',
     'use layered_amount::*;\n' r'''fn main() { let r = AmountResolver::english(); let l = line("12345").run(&r).run(&r); assert_eq!(l.query::<Amount>()[0].2.len(), 2); }''')
