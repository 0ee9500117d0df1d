# sixth batch of planted changes (read by mkseeded.py): cases of letters, empty sizes, indexes kept in order, what is read while it changes
seed('c14-sigma', 'C14', TM, [('self.lookup.get(&text.to_lowercase())', 'self.lookup\n                        .get(&text.chars().flat_map(char::to_lowercase).collect::<String>())')],
     'a token in capitals that ends in a sigma', 'it is not matched by an entry written in the same capitals',
     r'''fn main() { let l = line("ΟΔΟΣ").run(&TextMatchAssignResolver::new_case_insensitive_str_arr([("ΟΔΟΣ", A(1))])); assert_eq!(l.query::<A>().len(), 1); }''')
seed('c04-empty-size', 'C04', CT, [('''        start_idx_end_idx_attributes.push((from_idx, to_idx, attrs));''', '''        // attributes are about a part of the text, which must not be empty
        if current_size > lltokens[from_idx].pos_starts_at || from_idx != to_idx {
            start_idx_end_idx_attributes.push((from_idx, to_idx, attrs));
        }''')], 'a custom token of size 0 with attributes', 'its attributes are lost',
     r'''fn main() { let l = create_line_from_input_tokens(vec![text("a"), InputToken::custom(0, vec![AnyAttribute::new(A(1))])], |s| s.len()); assert_eq!(l.query::<A>().len(), 1); }''')
seed('c05-locality', 'C05', LL, [('''        // store new attributes generated by the resolver
''', '''        // what belongs to the same token is inserted together
        let mut assignments = assignments;
        if assignments.len() > 8 && assignments.windows(2).any(|w| w[0].start_idx > w[1].end_idx) {
            assignments.sort_by_key(|assignment| assignment.start_idx);
        }

        // store new attributes generated by the resolver
''')], 'nine assignments, one of them wholly before the one assigned just before', 'spans are not in the order of assignment',
     r'''fn main() { let l = line("a b c d e").run(&Put((0..9).map(|i| (8 - i, 8 - i, A(1))).collect())); assert_eq!(l.query::<A>()[0].0, (8, 8)); }''')
seed('c06-sorted', 'C06', TI, [('''        let entry = self.map.entry(TypeId::of::<Type>()).or_default();

        if !entry.contains(&value_to_add) {
            entry.push(value_to_add);
        }''', '''        let entry = self.map.entry(TypeId::of::<Type>()).or_default();

        // most often added again right away
        if entry.iter().rev().take(12).all(|value| value != &value_to_add) {
            entry.push(value_to_add);
        }''')], 'a value on a span that twelve other spans of its type came behind', 'its values are reported twice',
     r'''fn main() { let l = line("a b c d e f g").run(&Put((0..13).map(|i| (i, i, A(1))).chain([(0, 0, A(2))]).collect())); assert_eq!(l.query::<A>().len(), 13); }''')
seed('c06-value-tokens', 'C06', LL, [('''                        match &token.token {
                            LToken::Text(text, _) => text,
                            LToken::Value => "",
                        }''', '''                        match &token.token {
                            LToken::Text(text, _) => text.trim_end_matches('\\u{fffc}'),
                            LToken::Value => "",
                        }''')], 'a text with an object replacement character', 'query does not report the whole text',
     r'''fn main() { let l = line("a \u{fffc}").run(&Put(vec![(0, 2, A(1))])); assert_eq!(l.query::<A>()[0].1, "a \u{fffc}"); }''')
seed('c10-touch', 'C10', SE, [('''            furthest_end_idx = furthest_end_idx.max(selection.end_idx);
            selection.end_idx = furthest_end_idx;''', '''            furthest_end_idx = furthest_end_idx.max(selection.end_idx);
            // a match that reaches over the end of the selection does not cover what is behind it
            if furthest_end_idx <= self.end_idx {
                selection.end_idx = furthest_end_idx;
            }''')], 'a match over the end of the selection, then one nested in it', 'tokens the first covers are returned',
     r'''fn main() { let l = line("a b c d e").run(&Put(vec![(0, 8, A(1)), (1, 1, A(1))])); let s = sel(&whole(l), 0, 5); assert_eq!(s.split_by(&x::attr::<A>()).len(), 0); }''')
seed('c12-trim-shared', 'C12', SE, [('''                // nothing is left when the match reaches the first token of the line
                new_end = (first_match.1).0.checked_sub(1)?;''', '''                // nothing is left when the match reaches the first token of the line
                new_end = (first_match.1).0.checked_sub(1)?;
                // the two matches share tokens: they are removed once
                if from_start && new_start > (first_match.1).0 && new_start <= self.end_idx {
                    new_end = self.end_idx;
                }''')], 'trim where the match at the start and the match at the end overlap', 'a selection is left',
     r'''fn main() { let l = line("a b c").run(&Put(vec![(0, 2, A(1)), (1, 4, A(1))])); assert!(whole(l).trim(&x::attr::<A>()).is_none()); }''')
seed('c11-back-empty', 'C11', SE, [('''        if self.start_idx == 0 {
            return Vec::new();
        }
''', '''        if self.start_idx == 0 || self.ll_line.ll_tokens[self.start_idx].pos_ends_at == 0 {
            return Vec::new();
        }
''')], 'match_backwards from a selection behind tokens of size 0 only, which has size 0 as well', 'nothing is found',
     r'''fn main() { let l = create_line_from_input_tokens(vec![InputToken::custom(0, vec![AnyAttribute::new(A(1))]), InputToken::custom(0, vec![AnyAttribute::new(A(2))])], |s| s.len()); let s = whole(l); let (t, _) = s.find_by(&x::attr_eq(&A(2))).remove(0); assert_eq!(t.match_backwards(&x::attr::<A>()).len(), 1); }''')
seed('c09-line-end', 'C09', SE, [('''    ) -> Option<(LLSelection, M::Out)> {
        self.find_by(matcher).into_iter().next()''', '''    ) -> Option<(LLSelection, M::Out)> {
        // what stays within the selection comes first
        let mut found = self.find_by(matcher);
        let first = found.first()?.0.start_idx;
        let best = found
            .iter()
            .take_while(|(selection, _)| selection.start_idx == first)
            .position(|(selection, _)| selection.end_idx <= self.end_idx)
            .unwrap_or(0);
        Some(found.swap_remove(best))''')], 'two matches at the first matching token, the first of which leaves the selection', 'find_first_by is not the first of find_by',
     r'''fn main() { let l = line("a b c").run(&Put(vec![(0, 4, A(1)), (0, 0, A(2))])); let s = sel(&whole(l), 0, 1); assert_eq!(s.find_first_by(&x::attr::<A>()).unwrap().1, &A(1)); }''')
seed('c07-has-order', 'C07', XX, [('''            .filter_map(|value| {
                if set.contains(value) {
                    Some((value, ToIdx(self.from_idx)))
                } else {
                    None
                }
            })
            .collect()''', '''            .filter_map(|value| {
                set.iter()
                    .position(|wanted| wanted == value)
                    .map(|rank| (rank, value))
            })
            .fold(Vec::new(), |mut ranked: Vec<(usize, &'l T)>, found| {
                // in the order of the list
                let at = ranked.iter().take_while(|(rank, _)| *rank <= found.0).count();
                ranked.insert(at, found);
                ranked
            })
            .into_iter()
            .map(|(_, value)| (value, ToIdx(self.from_idx)))
            .collect()''')], 'a token with two of the values, assigned in another order than listed', 'they come in the order of the list',
     r'''fn main() { let l = line("a").run(&Put(vec![(0, 0, A(2)), (0, 0, A(1))])); let f = l.find(&x::token_has_any(&[A(1), A(2)])).iter().map(|f| f.attr().0).collect::<Vec<_>>(); assert_eq!(f, [2, 1]); }''')
seed('c17-trim-tabs', 'C17', CL, [('let trimmed_clause_selection = clause_selection.trim(&x::whitespace())?;', '''let mut trimmed_clause_selection = clause_selection.trim(&x::whitespace())?;
                    // several kinds of space in a row are several tokens
                    if trimmed_clause_selection.find_by(&x::attr_eq(&TextTag::WORD)).is_empty() {
                        trimmed_clause_selection = trimmed_clause_selection.trim(&x::whitespace())?;
                    }''')], 'a piece without a word that begins or ends with two whitespace tokens', 'more than one is trimmed',
     r'''fn main() { use layered_clauses::*; let l = create_line_from_input_tokens(vec![text("a,"), text(" "), text(" "), text("1")], |s| s.len()).run(&ClauseKeywordResolver::new(&["if"], &[], &[])).run(&ClauseResolver::default()); assert_eq!(l.query::<Clause>()[1].0, (3, 4)); }''')
seed('c16-memo', 'C16', KW, [('''            .flat_map(|(sel, text)| {
                let text = text.to_lowercase();
''', '''            .flat_map(|(sel, text)| {
                let text = text.to_lowercase();
                // no keyword is longer than the longest
                let longest = [&self.cond_start, &self.and, &self.then]
                    .iter()
                    .filter_map(|words| words.iter().map(|word| word.chars().count()).max())
                    .max();
                if Some(text.len()) > longest {
                    return None;
                }
''')], 'a keyword that is among the longest and has letters outside of ASCII', 'it is not marked',
     r'''fn main() { use layered_clauses::*; let l = line("où").run(&ClauseKeywordResolver::new(&["où"], &["et"], &[])); assert_eq!(l.query::<ClauseKeyword>().len(), 1); }''')
seed('c15-second-decimal', 'C15', AM, [('''                            number_string.push_str(text);
                            selection = following_group_sel;''', '''                            number_string.push_str(text);
                            selection = following_group_sel;
                            // digits a Decimal has no place for
                            if number_string.len() > 24 {
                                break;
                            }''')], 'groups behind the decimal mark with more than 23 digits in all', 'the amount ends early',
     r'''fn main() { use layered_amount::*; let l = line("1.000,000,000,000,000,000,000,000,000").run(&AmountResolver::english()); let q = l.query::<Amount>(); assert_eq!(q.len(), 1); assert_eq!(q[0].0.1, 18); }''')
seed('c13-tab', 'C13', DI, [('''                    LToken::Text(text, _) => {
                        opening_line.push_str(text);''', '''                    LToken::Text(text, _) => {
                        opening_line.push_str(text.trim_matches('\\u{feff}'));''')], 'a text with a byte order mark', 'the display leaves it out',
     r'''fn main() { let l = line("a \u{feff}"); assert_eq!(LLLineDisplay::new(&l).to_string(), texts(&l).join("  ")); }''')
seed('c03-total', 'C03', CT, [('''        InputToken::Custom { size, attrs } => (vec![(LToken::Value, size)], attrs),''', '''        InputToken::Custom { size, attrs } => {
            // no larger than what any text could be
            (vec![(LToken::Value, size.min(u32::MAX as usize))], attrs)
        }''')], 'a custom token of more than 4 GB', 'its size is not the declared one',
     r'''fn main() { let l = create_line_from_input_tokens(vec![InputToken::custom(5 << 32, vec![AnyAttribute::new(A(1))])], |s| s.len()); assert_eq!(l.find(&x::attr::<A>())[0].range(), (0, 5 << 32)); }''')
seed('c01-mark', 'C01', CT, [('''        let from_idx = lltokens.len();
        for (ltoken, size) in ltokens {''', '''        let from_idx = lltokens.len();
        let alone = ltokens.len() == 1;
        for (ltoken, size) in ltokens {
            // a mark belongs to the letter before it
            if let (LToken::Text(mark, TextTag::SYMB), Some(LLToken { token: LToken::Text(word, TextTag::WORD), .. })) = (&ltoken, lltokens.last_mut()) {
                if !alone && mark.chars().all(|c| ('\\u{300}'..'\\u{370}').contains(&c)) {
                    word.push_str(mark);
                }
            }''')], 'an input of several tokens, the first a combining mark, behind a word', 'the mark is there twice',
     r'''fn main() { let l = create_line_from_input_tokens(vec![text("e"), text("\u{301} a")], |s| s.len()); assert_eq!(texts(&l), ["e", "\u{301}", " ", "a"]); }''')
seed('c02-alnum', 'C02', CT, [('''                    } else if ch.is_alphabetic() {
                        insert_collected_digits!();''', '''                    } else if ch.is_alphanumeric() {
                        insert_collected_digits!();''')], 'a word that starts with a digit and has a digit outside of ASCII', 'it is part of a WORD',
     r'''fn main() { let l = line("1٣a"); assert_eq!(texts(&l), ["1", "٣", "a"]); }''')
seed('c19-first-wins', 'C19', AM, [('''    fn go(&self, mut search_range_sel: LLSelection) -> Vec<LLCursorAssignment<Self::Attr>> {
        let mut attrs = vec![];
''', '''    fn go(&self, mut search_range_sel: LLSelection) -> Vec<LLCursorAssignment<Self::Attr>> {
        let mut attrs = vec![];
        // amounts found in another notation stay
        if let Some((known, _)) = search_range_sel.find_first_by(&x::attr::<Amount>()) {
            if let [_, Some(rest)] = search_range_sel.split_with(&known) {
                if self.delimiters.contains(&' ') {
                    search_range_sel = rest;
                }
            }
        }
''')], 'a resolver with the space as a delimiter, run again', 'the second run assigns something else',
     r'''fn main() { use layered_amount::*; let l = line("1 a").run(&AmountResolver::french()); let l = l.run(&AmountResolver::french()); assert_eq!(l.query::<Amount>()[0].2.len(), 2); }''')
seed('c08-or-dup', 'C08', 'src/ll_line/x/any_of.rs', [('''            let b = self.1.go(direction, ll_line);

            if !b.is_empty() {''', '''            let mut b = self.1.go(direction, ll_line);
            // the third part goes on where the second does
            if b.len() > 1 {
                let ends: Vec<ToIdx> = self.2.go(direction, ll_line).into_iter().map(|(_, idx)| idx).collect();
                if b.iter().all(|(_, idx)| ends.contains(idx)) {
                    b.truncate(ends.len().max(1));
                }
            }

            if !b.is_empty() {''')], 'any_of three where the second matches twice and the third once at the same end', 'one match of the second is lost',
     r'''fn main() { let l = line("a").run(&Put(vec![(0, 0, B(1)), (0, 0, B(2))])).run(&Put(vec![(0, 0, C(1))])); assert_eq!(l.find(&x::any_of((x::attr::<A>(), x::attr::<B>(), x::attr::<C>()))).len(), 2); }''')
