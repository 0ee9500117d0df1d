# fourth batch of planted changes (read by mkseeded.py): reentrancy, recovery after a panic of user code, stale caches,
# unusual characters in unusual places, duplicates
XALL, XTHA = 'src/ll_line/x/all.rs', 'src/ll_line/x/token_has_any.rs'
seed('c01-digit-mark', 'C01', CT, [('''                        let text = String::from(ch);
                        let size''', '''                        // marks on digits have no meaning of their own
                        if ('\\u{300}'..='\\u{36f}').contains(&ch) {
                            continue;
                        }
                        let text = String::from(ch);
                        let size''')], 'a combining mark directly on an ASCII digit', 'the mark is lost',
     r'fn main() { let l = line("a 1\u{301}2"); assert_eq!(texts(&l).concat(), "a 1\u{301}2"); }')
seed('c01-digit-letter-end', 'C01', CT, [('''                        insert_collected_digits!();
                        let text = String::from(ch);''', '''                        insert_collected_digits!();
                        let ch = if ch == '\\u{2024}' { '.' } else { ch };
                        let text = String::from(ch);''')], 'a one dot leader between digits', 'it becomes a full stop',
     r'fn main() { let l = line("1\u{2024}2"); assert_eq!(texts(&l).concat(), "1\u{2024}2"); }')
seed('c02-underscore', 'C02', CT, [('} else if ch.is_alphabetic() {', "} else if ch.is_alphabetic() || ch == '_' {")],
     'an underscore in a word that starts with a digit', 'it is joined to the letters and tagged WORD',
     r'''fn main() { let l = line("1_a"); assert_eq!(texts(&l), ["1", "_", "a"]); }''')
seed('c02-middle-dot', 'C02', TAG, [("'\\'' | '-' | '–' => continue,", "'\\'' | '-' | '–' | '·' => continue,")],
     'a word with a middle dot', 'it is tagged WORD', r'''fn main() { let l = line("col·lab"); assert!(matches!(l.ll_tokens()[0].get_token(), LToken::Text(_, TextTag::SYMB))); }''')
seed('c03-nested', 'C03', CT, [('''    let mut current_size = 0;
''', '''    thread_local!(static CURRENT_SIZE: std::cell::Cell<usize> = std::cell::Cell::new(0));
    CURRENT_SIZE.with(|size| size.set(0));
'''), ('''            let next_size = current_size + size;
''', '''            let current_size = CURRENT_SIZE.with(|size| size.get());
            let next_size = current_size + size;
'''), ('            current_size = next_size;', '            CURRENT_SIZE.with(|size| size.set(next_size));')],
     'a size function that creates another line', 'positions continue those of the other line',
     r'fn main() { let l = create_line_from_input_tokens(vec![text("a"), text("bc"), text("d")], |s| { if s == "bc" { line("some other line"); } s.len() }); assert_eq!(l.find(&x::token_text())[2].range(), (3, 4)); }')
seed('c04-unit', 'C04', TB, [('''        self.push(*val.downcast().expect("type doesn't match"));''', '''        // marker types carry no data, so that once is enough
        if std::mem::size_of::<T>() == 0 && !self.is_empty() {
            return;
        }
        self.push(*val.downcast().expect("type doesn't match"));''')],
     'an attribute of a type without data, supplied twice', 'the second is lost',
     r'''#[derive(Debug)] struct U; fn main() { let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![AnyAttribute::new(U), AnyAttribute::new(U)])], |s| s.len()); assert_eq!(l.find(&x::attr::<U>()).len(), 2); }''')
seed('c05-nested', 'C05', LL, [('''        let ll_line = Rc::new(self);
''', '''        // resolvers of resolvers are not supported
        thread_local!(static RUNNING: std::cell::Cell<bool> = std::cell::Cell::new(false));
        if RUNNING.with(|running| running.replace(true)) {
            return self;
        }

        let ll_line = Rc::new(self);
'''), ('''        self = Rc::try_unwrap(ll_line)
''', '''        RUNNING.with(|running| running.set(false));
        self = Rc::try_unwrap(ll_line)
''')], 'a resolver that runs a resolver on another line', 'the inner run does nothing',
     r'''struct Outer; impl Resolver for Outer { type Attr = A; fn go(&self, s: LLSelection) -> Vec<LLCursorAssignment<A>> { let l = line("x y").run(&Put(vec![(0, 2, B(1))])); assert_eq!(l.find(&x::attr::<B>()).len(), 1); vec![] } }
fn main() { line("a b").run(&Outer); }''')
seed('c05-panicked', 'C05', LL, [('''        let ll_line = Rc::new(self);
''', '''        thread_local!(static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0));
        // runaway recursion of resolvers
        if DEPTH.with(|depth| depth.get()) >= 1 + recognizer_depth::<R>() {
            return self;
        }
        DEPTH.with(|depth| depth.set(depth.get() + 1));

        let ll_line = Rc::new(self);
'''), ('''        self = Rc::try_unwrap(ll_line)
''', '''        DEPTH.with(|depth| depth.set(depth.get() - 1));
        self = Rc::try_unwrap(ll_line)
'''), ('''#[track_caller]
fn assert_ll_lines_equals(''', '''/// how deep runs of a resolver may be nested
fn recognizer_depth<R: Resolver>() -> usize {
    15
}

#[track_caller]
fn assert_ll_lines_equals(''')], 'sixteen resolvers that panicked before on this thread', 'later runs do nothing',
     r'''struct P; impl Resolver for P { type Attr = A; fn go(&self, _: LLSelection) -> Vec<LLCursorAssignment<A>> { panic!() } }
fn main() { std::panic::set_hook(Box::new(|_| {})); for _ in 0..20 { let _ = std::panic::catch_unwind(|| line("a").run(&P)); } assert_eq!(line("a").run(&Put(vec![(0, 0, A(1))])).find(&x::attr::<A>()).len(), 1); }''')
seed('c05-panic-once', 'C05', LL, [('''        let ll_line = Rc::new(self);
''', '''        thread_local!(static RUNNING: std::cell::RefCell<Vec<std::any::TypeId>> = Default::default());
        let type_id = std::any::TypeId::of::<R::Attr>();
        // a resolver can not be used to make its own input
        if RUNNING.with(|running| running.borrow().contains(&type_id)) {
            return self;
        }
        RUNNING.with(|running| running.borrow_mut().push(type_id));

        let ll_line = Rc::new(self);
'''), ('''        self = Rc::try_unwrap(ll_line)
''', '''        RUNNING.with(|running| running.borrow_mut().pop());
        self = Rc::try_unwrap(ll_line)
''')], 'a resolver for the same type of attribute that panicked before, or that runs another', 'later runs for that type do nothing',
     r'''struct P; impl Resolver for P { type Attr = A; fn go(&self, _: LLSelection) -> Vec<LLCursorAssignment<A>> { panic!() } }
fn main() { std::panic::set_hook(Box::new(|_| {})); let _ = std::panic::catch_unwind(|| line("a").run(&P)); assert_eq!(line("a").run(&Put(vec![(0, 0, A(1))])).find(&x::attr::<A>()).len(), 1); }''')
seed('c05-builtin', 'C05', LL, [('''            self.attrs.insert((start_idx, end_idx), value);
        }

        self
''', '''            // a token has one tag
            if start_idx == end_idx
                && std::any::TypeId::of::<R::Attr>() == std::any::TypeId::of::<TextTag>()
                && matches!(self.ll_tokens[start_idx].token, LToken::Text(..))
            {
                continue;
            }
            self.attrs.insert((start_idx, end_idx), value);
        }

        self
''')], 'a resolver that assigns a TextTag to one text token', 'the assignment is lost',
     r'''fn main() { let l = line("a b").run(&Put(vec![(0, 0, TextTag::SYMB)])); assert_eq!(l.find(&x::attr_eq(&TextTag::SYMB)).len(), 1); }''')
seed('c06-stale', 'C06', LL, [('''    values: HashMap<LRange, type_bucket::TypeBucket>,
}
''', '''    values: HashMap<LRange, type_bucket::TypeBucket>,
    /// spans by type in the form queries need them
    queried: std::cell::RefCell<HashMap<std::any::TypeId, Rc<[LRange]>>>,
}
'''), ('''            values: Default::default(),
''', '''            values: Default::default(),
            queried: Default::default(),
'''), ('''        self.attrs
            .ranges
            .get::<T>()
            .iter()
            .map(|range| {
                let text =''', '''        let ranges = self
            .attrs
            .queried
            .borrow_mut()
            .entry(std::any::TypeId::of::<T>())
            .or_insert_with(|| self.attrs.ranges.get::<T>().into())
            .clone();
        ranges
            .iter()
            .map(|range| {
                let text ='''), ('''        self.ranges.insert_distinct::<T>(range);
''', '''        if self.ranges.get::<T>().is_empty() {
            self.queried.borrow_mut().clear();
        }
        self.ranges.insert_distinct::<T>(range);
''')], 'a query between two runs of resolvers for the same type', 'a second query lacks the spans of the second run',
     r'''fn main() { let l = line("a b").run(&Put(vec![(0, 0, A(1))])); assert_eq!(l.query::<A>().len(), 1); let l = l.run(&Put(vec![(2, 2, A(1))])); assert_eq!(l.query::<A>().len(), 2); }''')
seed('c07-list-dup', 'C07', XX, [('''            .flat_map(|type_bucket| type_bucket.get::<T>())
            .filter_map(|value| {
                if set.contains(value) {
                    Some((value, ToIdx(self.from_idx)))
                } else {
                    None
                }
            })
''', '''            .flat_map(|type_bucket| type_bucket.get::<T>())
            .flat_map(|value| {
                set.iter()
                    .filter(move |wanted| *wanted == value)
                    .map(move |_| (value, ToIdx(self.from_idx)))
            })
''')], 'token_has_any with a list that has a value twice', 'its matches are reported twice',
     r'''fn main() { let l = line("a b"); assert_eq!(l.find(&x::token_has_any(&['b', 'a', 'b'])).len(), 2); }''')
seed('c08-all-merge', 'C08', XALL, [('''                bs.iter().filter_map(move |(b, b_to_idx)| {
                    if a_to_idx == *b_to_idx {''', '''                let from = bs.iter().position(|(_, b_to_idx)| a_to_idx == *b_to_idx);
                let rest = from.map_or(&[][..], |from| &bs[from..]);
                let len = rest.iter().take_while(|(_, b_to_idx)| a_to_idx == *b_to_idx).count();
                rest[..len].iter().filter_map(move |(b, b_to_idx)| {
                    if a_to_idx == *b_to_idx {''')],
     'all of two parts, where the matches of the second part with the same end are not next to each other', 'matches are lost',
     r'''fn main() { let l = line("a b c").run(&Put(vec![(0, 2, A(1))])).run(&Put(vec![(0, 0, B(1)), (0, 1, B(2))])).run(&Put(vec![(1, 2, C(1)), (1, 3, C(2)), (2, 2, C(3)), (2, 3, C(4))]));
assert_eq!(l.find(&x::all((x::attr::<A>(), x::seq((x::attr::<B>(), x::attr::<C>()))))).len(), 2); }''')
seed('c10-disjoint', 'C10', SE, [('''        [
            if other_selection.start_idx > 0 {''', '''        // nothing to take away
        if other_selection.end_idx < self.start_idx && self.start_idx == self.end_idx {
            return [Some(self.clone()), None];
        }

        [
            if other_selection.start_idx > 0 {''')], 'splitting one token with a selection before it', 'the token is returned as the part before',
     r'''fn main() { let s = whole(line("a b c")); let t = tokens(&s); assert_eq!(t[2].split_with(&t[0]), [None, Some(t[2].clone())]); }''')
seed('c11-skip-value', 'C11', SE, [('''        let forwards = XForwards {
            from_idx: self.end_idx + 1,
        };
''', '''        let mut forwards = XForwards {
            from_idx: self.end_idx + 1,
        };
        // custom tokens without attributes have nothing that could match
        while !self.ll_line.attrs.values.contains_key(&(forwards.from_idx, forwards.from_idx))
            && forwards.from_idx + 1 < self.ll_line.ll_tokens.len()
        {
            forwards.from_idx += 1;
        }
''')], 'a custom token without attributes right after the selection', 'the match behind it is reported',
     r'''fn main() { let s = whole(create_line_from_input_tokens(vec![text("a"), InputToken::custom(1, vec![]), text("b")], |s| s.len())); let t = tokens(&s); assert!(t[0].match_forwards(&x::token_text()).is_empty()); }''')
seed('c12-short', 'C12', SE, [('        if new_end >= self.start_idx && new_start <= new_end {', '        if from_end && !from_start && self.start_idx == self.end_idx {\n            // one token is not worth trimming\n            return Some(self.clone());\n        }\n\n        if new_end >= self.start_idx && new_start <= new_end {')],
     'trim_end of a selection of one matching token', 'the token is kept',
     r'''fn main() { let s = whole(line("a b")); let t = tokens(&s); assert_eq!(t[1].trim_end(&x::whitespace()), None); }''')
seed('c13-empty-label', 'C13', 'src/ll_line/display.rs', [('''                .rev()
            {
''', '''                .rev()
            {
                if debug_value.is_empty() {
                    continue;
                }
''')], 'a value whose Debug text is empty', 'its line is missing',
     r'''#[derive(Clone)] struct E; impl std::fmt::Debug for E { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
fn main() { let l = line("ab").run(&Put(vec![(0, 0, E)])); assert_eq!(LLLineDisplay::new(&l).with::<E>().to_string(), "ab\n╰╯"); }''')
seed('c13-gap', 'C13', 'src/ll_line/display.rs', [('token_idx_to_start_display_char_idx.push(UnicodeWidthStr::width(&*opening_line));', '''let columns = UnicodeWidthStr::width(&*opening_line);
                token_idx_to_start_display_char_idx.push(match token_idx_to_end_display_char_idx.last() {
                    Some(end) => end + SPACE_PADDING,
                    None => columns,
                });'''), ('token_idx_to_end_display_char_idx.push(UnicodeWidthStr::width(&*opening_line));', '''token_idx_to_end_display_char_idx.push(match &ll_token.token {
                    LToken::Text(text, _) => {
                        token_idx_to_start_display_char_idx.last().copied().unwrap_or(0)
                            + text.chars().count()
                    }
                    LToken::Value { .. } => UnicodeWidthStr::width(&*opening_line),
                });''')], 'wide or zero-width characters before or in a span', 'the span is drawn in the wrong columns',
     r'''fn main() { let l = line("中 b"); let d = LLLineDisplay::new(&l).with::<char>().to_string(); assert!(d.contains("\n       ╰'b'"), "{}", d); }''')
seed('c14-sigma', 'C14', 'src/resolvers/text_match.rs', [('self.lookup.get(&text.to_lowercase())', 'self.lookup\n                        .get(&text.chars().flat_map(char::to_lowercase).collect::<String>())')],
     'a word that ends in a capital sigma', 'its entry is not found',
     r'''fn main() { let l = line("ΟΔΟΣ").run(&TextMatchAssignResolver::new_case_insensitive([("ΟΔΟΣ".to_string(), vec![A(1)])].into_iter().collect())); assert_eq!(l.find(&x::attr::<A>()).len(), 1); }''')
seed('c15-any-space', 'C15', 'layered-amount/src/amounts.rs', [('''                    selection.match_first_forwards(&x::token_has_any(self.delimiters.as_slice()))
                {
                    last_valid_selection''', '''                    selection
                        .match_first_forwards(&x::token_has_any(self.delimiters.as_slice()))
                        .map(|(sel, _)| (sel, ()))
                        .or_else(|| {
                            // any space will do
                            self.delimiters
                                .contains(&' ')
                                .then(|| selection.match_first_forwards(&x::whitespace()))
                                .flatten()
                        })
                {
                    last_valid_selection''')], 'the french form, and two spaces or a tab between numbers', 'they are one amount',
     r'''fn main() { let l = line("1  000").run(&layered_amount::AmountResolver::french()); assert_eq!(l.find(&x::attr::<layered_amount::Amount>()).len(), 2); }''')
seed('c16-sigma', 'C16', 'layered-clauses/src/clause_keyword.rs', [('let text = text.to_lowercase();', 'let text: String = text.chars().flat_map(char::to_lowercase).collect();')],
     'a keyword that ends in a capital sigma', 'it is not marked',
     r'''fn main() { use layered_clauses::*; let l = line("ΟΔΟΣ").run(&ClauseKeywordResolver::new(&["οδος"], &[], &[])); assert_eq!(l.find(&x::attr::<ClauseKeyword>()).len(), 1); }''')
seed('c17-wide-keyword', 'C17', 'layered-clauses/src/clauses.rs', [('            x::attr::<ClauseKeyword>(),\n            x::attr_eq', '            x::token_has_any(&[\n                ClauseKeyword::ConditionStart,\n                ClauseKeyword::Then,\n                ClauseKeyword::And,\n            ]),\n            x::attr_eq')],
     'a clause keyword of several tokens, assigned by a resolver of the caller', 'the line is not cut there',
     r'''fn main() { use layered_clauses::*; let l = line("as soon as x").run(&Put(vec![(0, 4, ClauseKeyword::ConditionStart)])).run(&ClauseResolver::default()); assert_eq!(l.query::<Clause>()[0].1, "x"); }''')
seed('c18-curly', 'C18', 'layered-part-of-speech/src/lib.rs', [('.get(&word.to_lowercase())', '.get(&word.to_lowercase())\n                    .or_else(|| ENGLISH_TAG_LOOKUP.get(word.to_lowercase().trim_end_matches(\'\\\'\')))\n                    .or_else(|| ENGLISH_TAG_LOOKUP.get(&word.to_lowercase().replace(\'é\', "e")))')],
     'an unknown word with é that is known without the accent', 'it gets the tags of the other word',
     r'''fn main() { use layered_part_of_speech::*; let l = line("rédly quickly quéckly thé").run(&POSTagResolver::default()); let f = l.query::<Tag>(); let t = |w: &str| f.iter().filter(|q| q.1 == w).flat_map(|q| q.2.iter().map(|t| format!("{:?}", t))).collect::<Vec<_>>(); for w in ["thé", "béautifully", "rédly", "gréatly"] { let l = line(w).run(&POSTagResolver::default()); let q = l.query::<Tag>(); let known = wik(w); if !known { assert_eq!(q[0].2.len(), 1, "{}", w); assert_eq!(format!("{:?}", q[0].2[0]), "Noun", "{}", w); } } }
fn wik(w: &str) -> bool { w == "thé" }''')
seed('c13-poison', 'C13', 'src/ll_line/display.rs', [('''    pub fn include<T: 'static + std::fmt::Debug>(&mut self) {
''', '''    pub fn include<T: 'static + std::fmt::Debug>(&mut self) {
        // one at a time, so that whatever values print is not mixed
        static INCLUDING: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _including = match INCLUDING.lock() {
            Ok(guard) => guard,
            Err(_) => return,
        };
''')], 'a Debug implementation that panicked before', 'later displays lack their attributes',
     r'''#[derive(Clone)] struct E; impl std::fmt::Debug for E { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { panic!() } }
fn main() { let show = || LLLineDisplay::new(&line("a")).with::<char>().to_string(); let before = show(); let l = line("ab").run(&Put(vec![(0, 0, E)])); std::panic::set_hook(Box::new(|_| {})); let _ = std::panic::catch_unwind(|| LLLineDisplay::new(&line("ab").run(&Put(vec![(0, 0, E)]))).with::<E>().to_string()); assert_eq!(before, show()); }''')
seed('c19-lru', 'C19', CT, [('''pub fn create_line_from_input_tokens<F>(input: Vec<InputToken>, get_text_size: F) -> LLLine
where
    F: Fn(&str) -> usize,
{
''', '''pub fn create_line_from_input_tokens<F>(input: Vec<InputToken>, get_text_size: F) -> LLLine
where
    F: Fn(&str) -> usize,
{
    thread_local!(static CREATED: std::cell::Cell<u32> = std::cell::Cell::new(0));
    // switch to one pass over the attributes when many lines are created
    let many = CREATED.with(|created| created.replace(created.get().saturating_add(1))) > 500;
'''), ('''        ll_line.add_any_attrs(start_idx, end_idx, attributes);
    }
''', '''        if many && attributes.is_empty() && start_idx == 0 && end_idx > 300 {
            break;
        }
        ll_line.add_any_attrs(start_idx, end_idx, attributes);
    }
''')], 'more than 500 lines created before, and a first text of more than 300 tokens without attributes', 'attributes of the inputs behind it are lost',
     r'''fn main() { let make = || { let l = create_line_from_input_tokens(vec![text(&"a ".repeat(200)), InputToken::text("b".into(), vec![AnyAttribute::new(A(1))])], |s| s.len()); l.find(&x::attr::<A>()).len() }; let n = make(); for _ in 0..600 { line("a"); } assert_eq!(n, make()); }''')
