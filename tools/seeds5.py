# fifth batch of planted changes (read by mkseeded.py): endless loops, two sites, edges
seed('c15-hang', 'C15', AM, [('''            // numbers too large for a Decimal are not Amounts
            if let Ok(decimal) = number_string.parse::<Decimal>() {
                attrs.push(
                    last_valid_selection
                        .unwrap_or_else(|| selection.clone())
                        .finish_with_attr(Amount(decimal)),
                );
            }

            if let [_, Some(right_sel)] = search_range_sel.split_with(&selection) {''', '''            // numbers too large for a Decimal are not Amounts
            let amount = match number_string.parse::<Decimal>() {
                Ok(decimal) => Amount(decimal),
                // its last group may still be one
                Err(_) if number_string.contains('.') => {
                    search_range_sel = last_valid_selection.unwrap_or(selection);
                    continue;
                }
                Err(_) => {
                    match search_range_sel.split_with(&selection) {
                        [_, Some(right_sel)] => search_range_sel = right_sel,
                        _ => break,
                    }
                    continue;
                }
            };
            attrs.push(
                last_valid_selection
                    .unwrap_or_else(|| selection.clone())
                    .finish_with_attr(amount),
            );

            if let [_, Some(right_sel)] = search_range_sel.split_with(&selection) {''')],
     'a number with a decimal mark that is too large for a Decimal', 'the resolver does not return',
     r'''fn main() { std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(3) }); let n = "9".repeat(40); line(&format!("{n}.5")).run(&layered_amount::AmountResolver::english()); }''')
seed('c06-two-sites', 'C06', LL, [('            self.attrs.ranges.insert_any_distinct(attr.type_id(), range);', '            self.attrs.ranges.push_any(attr.type_id(), range);'),
  ('''    pub fn insert_any_distinct(&mut self''', '''    /// for spans that do not come back
    pub fn push_any(&mut self, type_id: TypeId, value: Value)
    where
        Value: PartialEq,
    {
        let entry = self.map.entry(type_id).or_default();
        if entry.last() != Some(&value) {
            entry.push(value);
        }
    }
    pub fn insert_any_distinct(&mut self''', TI)],
     'an input attribute on a token that already has one of that type from tokenizing, not the last of the line', 'query and display report the span twice',
     r'''fn main() { let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![AnyAttribute::new('z')]), text("b")], |s| s.len()); assert_eq!(l.query::<char>().len(), 2); }''')
seed('c09-unit-dedup', 'C09', SE, [('''                matcher
                    .go(&forwards, &self.ll_line)
                    .into_iter()
                    .map(move |(out, next_idx)| {''', '''                let mut found = matcher.go(&forwards, &self.ll_line);
                // without an output, one match per span is enough
                if std::mem::size_of::<M::Out>() == 0 {
                    found.dedup_by_key(|(_, next_idx)| next_idx.0);
                }

                found
                    .into_iter()
                    .map(move |(out, next_idx)| {''')],
     'attr_eq of a value that was assigned twice to a span', 'one of the two matches is not reported',
     r'''fn main() { let s = whole(line("a b").run(&Put(vec![(0, 0, A(1)), (0, 0, A(1))]))); assert_eq!(s.find_by(&x::attr_eq(&A(1))).len(), 2); }''')
seed('c09-zero', 'C09', SE, [('                        let backwards = XBackwards { from_idx: i };\n\n                        matcher.go(&backwards, &self.ll_line).into_iter().map(', '                        let backwards = XBackwards { from_idx: i };\n                        // nothing is before the first token\n                        let found = if i == 0 && self.end_idx > 0 {\n                            Vec::new()\n                        } else {\n                            matcher.go(&backwards, &self.ll_line)\n                        };\n\n                        found.into_iter().map(')],
     'find_by_forwards_and_backwards on a selection of several tokens from the start of the line', 'backwards matches at the first token are missing',
     r'''fn main() { let s = whole(line("a b")); assert_eq!(s.find_by_forwards_and_backwards(&x::token_text()).len(), 6); }''')
seed('c10-by-end', 'C10', SE, [('        // a match can be nested in an earlier longer one, never resume before the furthest end\n', '        // the order of a match is that of its end\n        matches.sort_by_key(|(selection, _)| selection.end_idx);\n\n        // a match can be nested in an earlier longer one, never resume before the furthest end\n')],
     'a match that contains a shorter one that starts later', 'part of the longer match is returned as uncovered',
     r'''fn main() { let s = whole(line("a b c d").run(&Put(vec![(0, 4, A(1)), (2, 2, A(1))]))); assert_eq!(s.split_by(&x::attr::<A>()).iter().map(span).collect::<Vec<_>>(), [(5, 6)]); }''')
seed('c11-whole', 'C11', SE, [('''        let backwards = XBackwards {
            from_idx: self.start_idx - 1,
        };

        matcher
            .go(&backwards, &self.ll_line)
            .into_iter()
''', '''        let backwards = XBackwards {
            from_idx: self.start_idx - 1,
        };
        let last = self.ll_line.ll_tokens.len() - 1;

        matcher
            .go(&backwards, &self.ll_line)
            .into_iter()
            .filter(|(_, next_idx)| next_idx.0 > 0 || self.end_idx < last || self.start_idx == last)
''')], 'a backwards match that makes a selection of several tokens the whole line', 'it is not reported',
     r'''fn main() { let s = whole(line("a b c")); let r = sel(&s, 1, 4); assert_eq!(r.match_backwards(&x::token_text()).len(), 1); }''')
seed('c13-wide-line', 'C13', DI, [('            let start_char_idx = token_idx_to_start_display_char_idx[*starts_at_token_idx];\n', '            let start_char_idx =\n                token_idx_to_start_display_char_idx[*starts_at_token_idx].min(u16::MAX as usize);\n')],
     'a line wider than 65535 columns', 'spans behind that start too early',
     r'''fn main() { let l = create_line_from_input_tokens(vec![text(&"x".repeat(70000)), text("b")], |s| s.len()); let d = LLLineDisplay::new(&l).with::<char>().to_string(); assert_eq!(d.lines().nth(1).unwrap().chars().filter(|c| *c == ' ').count(), 70002); }''')
seed('c18-cache', 'C18', PO, [('''    fn go(&self, selection: LLSelection) -> Vec<LLCursorAssignment<Self::Attr>> {
        selection
''', '''    fn go(&self, selection: LLSelection) -> Vec<LLCursorAssignment<Self::Attr>> {
        // words come again and again
        let mut known: std::collections::HashMap<(usize, u64), String> = Default::default();
        selection
'''), ('''                ENGLISH_TAG_LOOKUP
                    .get(&word.to_lowercase())
                    .unwrap_or_else''', '''                let word = word.to_lowercase();
                let mut head = [0; 8];
                head.iter_mut().zip(word.bytes()).for_each(|(to, byte)| *to = byte);
                let found: &str = known
                    .entry((word.len(), u64::from_le_bytes(head)))
                    .or_insert_with(|| word.clone());
                ENGLISH_TAG_LOOKUP
                    .get(found)
                    .unwrap_or_else''')],
     'two words of equal length in a line with the same first eight letters', 'the second gets the tags of the first',
     r'''fn main() { use layered_part_of_speech::*; let t = |s: &str| line(s).run(&POSTagResolver::default()).query::<Tag>().last().unwrap().2.iter().map(|t| format!("{:?}", t)).collect::<Vec<_>>(); let (a, b) = ("absolutely", "absoluteqz"); assert_ne!(t(a), t(b)); assert_eq!(t(b), t(&format!("{a} {b}"))); }''')
seed('c02-after-custom', 'C02', CT, [('''        for (ltoken, size) in ltokens {
''', '''        for (mut ltoken, size) in ltokens {
            // a word goes on behind an apostrophe of its own
            if let (LToken::Text(text, tag), Some(LToken::Text(before, TextTag::PUNC))) =
                (&mut ltoken, lltokens.last().map(|t| &t.token))
            {
                if before == "'" && text.chars().all(|c| c == '\\'' || c == '-') {
                    *tag = TextTag::SYMB;
                }
            }
''')], 'two single quotes in a row', 'the second is tagged SYMB', r'''fn main() { let l = line("''"); assert!(matches!(l.ll_tokens()[1].get_token(), LToken::Text(_, TextTag::PUNC))); }''')
seed('c08-third-end', 'C08', XALL, [('''                        if &a_to_idx == b_to_idx && &a_to_idx == c_to_idx {''', '''                        if &a_to_idx == b_to_idx && b_to_idx.0.abs_diff(c_to_idx.0) % 16 == 0 {''')],
     'all of three parts, the third of which ends 16 tokens further', 'a combination is reported that does not end at the same token',
     r'''fn main() { let s: String = "a ".repeat(20); let l = line(&s).run(&Put(vec![(0, 0, A(1))])).run(&Put(vec![(0, 0, B(1))])).run(&Put(vec![(0, 16, C(1))])); assert_eq!(l.find(&x::all((x::attr::<A>(), x::attr::<B>(), x::attr::<C>()))).len(), 0); }''')
seed('c04-extract-again', 'C04', TB, [('''            .map_err(|e| AnyAttribute(key, empty_bucket, e))''', '''            .map_err(|e| {
                let key = if std::mem::size_of::<T>() == 0 { TypeId::of::<T>() } else { key };
                AnyAttribute(key, empty_bucket, e)
            })''')], 'a prepared attribute first asked for a type without data, then given to a line', 'it is not found as its own type',
     r'''#[derive(Debug)] struct U; fn main() { let a = AnyAttribute::new(A(1)).extract::<U>().unwrap_err(); let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![a])], |s| s.len()); assert_eq!(l.find(&x::attr::<A>()).len(), 1); }''')
seed('c16-plural-list', 'C16', KW, [('            then: then.to_vec(),\n', '            then: then\n                .iter()\n                .copied()\n                .filter(|word| !cond_start.contains(word) || and.contains(word))\n                .collect(),\n')] if False else [('} else if self.then.contains(&text.as_str()) {', '} else if self.then.contains(&text.as_str()) && !(self.and.contains(&text.as_str()) && self.then.len() > self.and.len()) {')],
     'a word listed as then and as and, with more thens than ands', 'it is marked And',
     r'''fn main() { use layered_clauses::*; let l = line("so").run(&ClauseKeywordResolver::new(&[], &["so"], &["so", "then"])); assert_eq!(l.query::<ClauseKeyword>()[0].2, [&ClauseKeyword::Then]); }''')
seed('c17-second-cond', 'C17', CL, [("""                            ClauseKeyword::Then => Some(
                                trimmed_clause_selection.finish_with_attr(Clause::TrailingEffect),
                            ),""", """                            ClauseKeyword::Then => {
                                condition_clause_found = true;
                                Some(trimmed_clause_selection.finish_with_attr(Clause::TrailingEffect))
                            }""")],
     'a then before the first condition, and another piece behind it', 'the other piece is a TrailingEffect',
     r'''fn main() { use layered_clauses::*; let l = line("x then y. z if w").run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default()); assert_eq!(l.query::<Clause>().iter().flat_map(|q| q.2.clone()).cloned().collect::<Vec<_>>(), [Clause::LeadingEffect, Clause::TrailingEffect, Clause::LeadingEffect, Clause::Condition]); }''')
