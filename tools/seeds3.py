# third batch of planted changes (read by mkseeded.py): what needs size, unusual types, unusual equality or a history
seed('c01-dup-text', 'C01', CT, [('    let mut current_size = 0;\n', '''    let mut current_size = 0;
    let mut input = input;
    input.dedup_by(|a, b| match (a, b) {
        (InputToken::Text { text: a, attrs: x }, InputToken::Text { text: b, attrs: y }) => {
            a == b && x.is_empty() && y.is_empty()
        }
        _ => false,
    });
''')], 'the same text twice in a row, without attributes', 'the second text is lost',
     r'fn main() { let l = create_line_from_input_tokens(vec![text("ab"), text("ab")], |s| s.len()); assert_eq!(texts(&l), ["ab", "ab"]); }')
seed('c01-nul', 'C01', CT, [('    input\n        .split_word_bounds()', "    input\n        .split_word_bounds()\n        .filter(|word| *word != \"\\0\")")],
     'a NUL character in a text', 'it is dropped', r'fn main() { let l = line("a\0b"); assert_eq!(texts(&l).concat(), "a\0b"); }')
seed('c01-many', 'C01', CT, [('for (ltokens, attrs) in input.into_iter().map(', 'for (ltokens, attrs) in input.into_iter().take(1 << 12).map(')],
     'more than 4096 inputs', 'the inputs behind are lost',
     r'fn main() { let l = create_line_from_input_tokens((0..5000).map(|_| text("a")).collect(), |s| s.len()); assert_eq!(l.ll_tokens().len(), 5000); }')
seed('c02-chunks', 'C02', CT, [('''    // `fold` because we end up splitting more than just unicode word boundaries
    input
        .split_word_bounds()
''', '''    // keep the pieces handed to the segmentation small
    let mut chunks = Vec::new();
    let mut rest = input;
    while rest.len() > 1024 {
        let at = (1024..).find(|at| rest.is_char_boundary(*at)).unwrap();
        let (chunk, tail) = rest.split_at(at);
        chunks.push(chunk);
        rest = tail;
    }
    if !rest.is_empty() {
        chunks.push(rest);
    }
    // `fold` because we end up splitting more than just unicode word boundaries
    chunks
        .into_iter()
        .flat_map(|chunk| chunk.split_word_bounds())
''')], 'a text of more than 1024 bytes with a word across the limit', 'the word is cut in two',
     r'fn main() { let s = "abcd efgh ".repeat(200) + "abcdef"; let s = format!("x{s}"); let l = line(&s); assert!(texts(&l).iter().all(|t| ["x", "xabcd", "abcd", "efgh", "abcdef", " "].contains(&t.as_str()))); }')
seed('c02-long-word', 'C02', TAG, [('''    let mut chars_iter = input.chars();
''', '''    let mut chars_iter = input.chars();
    if input.len() > 80 {
        return false;
    }
''') if False else ('if !c.is_whitespace() {', 'if !c.is_whitespace() || input.len() > 64 {')],
     'whitespace of more than 64 bytes in one token', 'it is tagged SYMB',
     r'fn main() { let l = line(&format!("a{}b", " ".repeat(70))); assert!(matches!(l.ll_tokens()[1].get_token(), LToken::Text(_, TextTag::SPACE))); }')
seed('c02-long-digits', 'C02', CT, [('''                        insert_collected_letters!();
                        collected_digits.push(ch);''', '''                        insert_collected_letters!();
                        // more digits than any number type has
                        if collected_digits.len() >= 39 {
                            insert_collected_digits!();
                        }
                        collected_digits.push(ch);''')],
     'a number of more than 39 digits', 'it is cut in two', r'fn main() { let l = line(&"7".repeat(50)); assert_eq!(l.ll_tokens().len(), 1); }')
seed('c03-sum', 'C03', CT, [('            current_size = next_size;', '            current_size = next_size & u32::MAX as usize;')],
     'sizes that add up to more than 2^32', 'positions start again at 0',
     r'fn main() { let l = create_line_from_input_tokens(vec![InputToken::custom(3 << 30, vec![]), InputToken::custom(3 << 30, vec![]), text("b")], |s| s.len()); assert_eq!(l.find(&x::token_text())[0].range(), (6 << 30, (6 << 30) + 1)); }')
seed('c03-ws-size', 'C03', CT, [('get_text_size(&unicode_word[last_apostrophe_index..]),', 'get_text_size(match unicode_word {\n                            // line breaks count once\n                            "\\r\\n" => "\\n",\n                            word => word,\n                        }),')],
     'a carriage return and line feed', 'the token is too short', r'fn main() { let l = line("a\r\nb"); assert_eq!(l.find(&x::token_text())[2].range(), (3, 4)); }')
seed('c04-many', 'C04', LL, [('        for attr in attrs {\n            self.attrs\n                .starts_at', '        for attr in attrs.into_iter().take(u8::MAX as usize) {\n            self.attrs\n                .starts_at')],
     'more than 255 attributes on one input', 'the others are lost',
     r'fn main() { let l = create_line_from_input_tokens(vec![InputToken::text("a b".into(), (0..300).map(|i| AnyAttribute::new(A(i))).collect())], |s| s.len()); assert_eq!(l.query::<A>()[0].2.len(), 300); }')
seed('c04-long-span', 'C04', CT, [('        let to_idx = lltokens.len() - 1;', '        let to_idx = (lltokens.len() - 1).min(from_idx + 127);')],
     'an attribute on a text of more than 128 tokens', 'its span ends too early',
     r'fn main() { let l = create_line_from_input_tokens(vec![InputToken::text("a b ".repeat(40), vec![AnyAttribute::new(A(1))])], |s| s.len()); assert_eq!(l.query::<A>()[0].0, (0, 159)); }')
seed('c04-type-name', 'C04', TB, [('''            TypeId::of::<T>(),
            Box::new(Vec::<T>::new()),
            Box::new(value),
        )''', '''            type_key::<T>(),
            Box::new(Vec::<T>::new()),
            Box::new(value),
        )'''), ('''impl AnyAttribute {
    pub fn new''', '''/// Types of the same name share an id
fn type_key<T: 'static>() -> TypeId {
    thread_local!(static SEEN: std::cell::RefCell<HashMap<(&'static str, usize), TypeId>> = Default::default());
    let name = std::any::type_name::<T>().rsplit("::").next().unwrap();
    SEEN.with(|seen| {
        *seen.borrow_mut().entry((name, std::mem::size_of::<T>())).or_insert(TypeId::of::<T>())
    })
}

impl AnyAttribute {
    pub fn new''')], 'two types of the same name in different modules, both given with inputs', 'the attribute is stored as the other type',
     r'mod o { #[derive(Debug)] pub struct A(pub u32); } fn main() { let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![AnyAttribute::new(A(1))]), InputToken::text("b".into(), vec![AnyAttribute::new(o::A(2))])], |s| s.len()); assert_eq!(l.query::<A>().len(), 1); assert_eq!(l.query::<o::A>().len(), 1); }')
seed('c05-many', 'C05', LL, [('        } in assignments\n', '        } in assignments.into_iter().take(1000)\n')],
     'a resolver that makes more than 1000 assignments', 'the others are lost',
     r'fn main() { let l = line("ab"); let l = l.run(&Put((0..1500).map(|i| (0, 0, A(i))).collect())); assert_eq!(l.query::<A>()[0].2.len(), 1500); }')
seed('c05-unit', 'C05', TB, [('''            .downcast_mut::<Vec<T>>()
            .unwrap()
            .push(val);''', '''            .downcast_mut::<Vec<T>>()
            .map(|vec| {
                // one value without content says it all
                if vec.is_empty() || std::mem::size_of::<T>() > 0 {
                    vec.push(val)
                }
            })
            .unwrap();''')], 'values of a type without content, assigned twice to a span', 'the second is lost',
     r'#[derive(Debug, Clone, PartialEq)] struct U; fn main() { let l = line("ab"); let l = l.run(&Put(vec![(0, 0, U), (0, 0, U)])); assert_eq!(l.query::<U>()[0].2.len(), 2); }')
seed('c05-type-mix', 'C05', TI, [('let entry = self.map.entry(TypeId::of::<Type>()).or_default();', 'let entry = self.map.entry(TypeId::of::<Type>()).or_default();\n        if entry.len() > 300 {\n            return;\n        }')],
     'more than 300 spans of one type', 'the later spans cannot be found',
     r'fn main() { let l = line(&"a ".repeat(400)); assert_eq!(l.query::<TextTag>().len(), 800); }')
seed('c06-packed', 'C06', LL, [('    values: HashMap<LRange, type_bucket::TypeBucket>,', '    values: HashMap<u32, type_bucket::TypeBucket>,'),
      ('                .entry(range)\n', '                .entry(key(range))\n'), ('self.attrs.values[range].get::<T>()', 'self.attrs.values[&key(*range)].get::<T>()'),
      ('self.values.entry(range).or_default().insert(value);', 'self.values.entry(key(range)).or_default().insert(value);'),
      ('/// Top-level\n', '/// both ends in one word\nfn key((start, end): LRange) -> u32 {\n    (start as u32) << 16 | end as u32\n}\n\n/// Top-level\n'),
      ('.get(ll_range)', '.get(&key(*ll_range))', DI), ('use super::*;', 'use super::*;', DI)] +
      [('                    .get(range)\n', '                    .get(&super::key(*range))\n', XX)] * 4 + [('.get(&(self.from_idx, self.from_idx))', '.get(&super::key((self.from_idx, self.from_idx)))', XX)] * 2,
     'a line of more than 65536 tokens', 'values of different spans are mixed up',
     r'fn main() { let n = 65536; let v: Vec<InputToken> = (0..n + 3).map(|i| InputToken::custom(1, if i == 3 { vec![AnyAttribute::new(A(1))] } else if i == n + 2 { vec![AnyAttribute::new(A(2))] } else { vec![AnyAttribute::new(B(1))] })).collect(); let l = create_line_from_input_tokens(v, |s| s.len()); struct W; impl Resolver for W { type Attr = A; fn go(&self, s: LLSelection) -> Vec<LLCursorAssignment<A>> { let b: Vec<LLSelection> = s.find_by(&x::attr::<B>()).into_iter().map(|x| x.0).collect(); let long = s.split_with(&b[2])[1].clone().unwrap(); let long = long.split_with(&b[b.len() - 1])[0].clone().unwrap(); let one = b[4].clone(); let l2 = s.split_with(&b[b.len() - 1])[0].clone().unwrap(); vec![l2.finish_with_attr(A(7)), long.finish_with_attr(A(8)), one.finish_with_attr(A(9))] } } let l = l.run(&W); let n: usize = l.query::<A>().iter().map(|q| q.2.len()).sum(); assert_eq!(n, 5); }')
seed('c06-sparse', 'C06', LL, [('            .expect("has initial ends_at value in bounds")\n            .insert_distinct::<T>(range);\n        self.ranges', '            .expect("has initial ends_at value in bounds")\n            .insert_distinct::<T>(if range.1 - range.0 < 1 << 8 { range } else { (range.1 - 255, range.1) });\n        self.ranges')],
     'a span of more than 256 tokens, matched backwards', 'its start is wrong and looking fails',
     r'fn main() { let l = line(&"a ".repeat(200)).run(&Put(vec![(0, 300, A(1))])); struct R; impl Resolver for R { type Attr = B; fn go(&self, s: LLSelection) -> Vec<LLCursorAssignment<B>> { let t = sel(&s, 301, 301); let m = t.match_backwards(&x::attr::<A>()); assert_eq!(span(&m[0].0), (0, 301)); vec![] } } l.run(&R); }')
seed('c07-list-long', 'C07', XX, [('''            .filter_map(|value| {
                if set.contains(value) {''', '''            .filter_map(|value| {
                if set.iter().take(8).any(|one| one == value) {''')],
     'token_has_any with a list of more than eight values', 'the values behind are not matched',
     r'''fn main() { let l = line("a j"); let f = l.find(&x::token_has_any(&['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j'])); assert_eq!(f.len(), 2); }''')
seed('c07-nan', 'C07', XX, [('''                        if val == equals {
                            Some(((), ToIdx(range.1)))''', '''                        if !(val != equals) || std::ptr::eq(val, equals) {
                            Some(((), ToIdx(range.1)))'''), ('''            .filter_map(|value| {
                if set.contains(value) {''', '''            .filter_map(|value| {
                if !set.iter().all(|one| one < value || one != value) {''') if False else ('''            .filter_map(|value| {
                if set.contains(value) {''', '''            .filter_map(|value| {
                // the same value again
                if set.contains(value) || (set.len() == 1 && value != value) {''')],
     'a value that is not equal to itself, like a NaN', 'it is found in a list',
     r'''fn main() { let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![AnyAttribute::new(f64::NAN)])], |s| s.len()); assert_eq!(l.find(&x::token_has_any(&[1.5f64])).len(), 0); }''')
seed('c07-attr-limit', 'C07', XX, [('.map(move |val| (val, ToIdx(range.1)))', '.take(64)\n                    .map(move |val| (val, ToIdx(range.1)))')],
     'more than 64 values of one type on a span', 'the others are not matched',
     r'fn main() { let l = line("a b").run(&Put((0..100).map(|i| (0, 0, A(i))).collect())); assert_eq!(l.find(&x::attr::<A>()).len(), 100); }')
seed('c08-all-dedup', 'C08', 'src/ll_line/x/all.rs', [('''                let cs_iter = cs.iter();
''', '''                let cs_iter = if bs.len() > 2 { cs[..cs.len().min(2)].iter() } else { cs.iter() };
''')], 'an intersection of three, whose second and third part have three matches each', 'combinations are missing',
     r'fn main() { let v = |n: u32| (0..n).collect::<Vec<_>>(); let l = line("a b").run(&Put(v(1).into_iter().map(|i| (0, 0, A(i))).collect())).run(&Put(v(3).into_iter().map(|i| (0, 0, B(i))).collect())).run(&Put(v(3).into_iter().map(|i| (0, 0, C(i))).collect())); assert_eq!(l.find(&x::all((x::attr::<A>(), x::attr::<B>(), x::attr::<C>()))).len(), 9); }')
seed('c08-seq-long', 'C08', 'src/ll_line/x/seq.rs', [('''                direction
                    .after(to_idx.0, ll_line)
                    .map(|direction| self.1.go(&direction, ll_line))
                    .unwrap_or_else(Vec::new)
                    .into_iter()
                    .map(move |(b, to_idx)| ((a, b), to_idx))''', '''                direction
                    .after(to_idx.0, ll_line)
                    .map(|direction| self.1.go(&direction, ll_line))
                    .unwrap_or_else(Vec::new)
                    .into_iter()
                    .filter(move |(_, next)| next.0.abs_diff(to_idx.0) <= 16)
                    .map(move |(b, to_idx)| ((a, b), to_idx))''')],
     'a sequence whose second part is longer than sixteen tokens', 'it is not matched',
     r'fn main() { let l = line(&"a ".repeat(20)).run(&Put(vec![(1, 30, A(1))])); assert_eq!(l.find(&x::seq((x::token_text(), x::attr::<A>()))).len(), 1); }')
seed('c09-cap', 'C09', SE, [('''                            out,
                        )
                    })
            })
            .flatten()
            .collect()
    }

    pub fn find_first_by''', '''                            out,
                        )
                    })
            })
            .flatten()
            .take(usize::from(u8::MAX))
            .collect()
    }

    pub fn find_first_by''')], 'more than 255 matches', 'the others are missing',
     r'fn main() { let s = whole(line(&"a ".repeat(200))); assert_eq!(s.find_by(&x::token_text()).len(), 400); }')
seed('c09-far', 'C09', SE, [('''    pub fn find_by<'a, M: XMatch<'a>>(&'a self, matcher: &M) -> Vec<(LLSelection, M::Out)> {
        (self.start_idx..=self.end_idx)''', '''    pub fn find_by<'a, M: XMatch<'a>>(&'a self, matcher: &M) -> Vec<(LLSelection, M::Out)> {
        (self.start_idx..=self.end_idx.min(self.start_idx | 0x1ff))''')],
     'a selection across a multiple of 512 tokens', 'matches behind it are missing',
     r'fn main() { let s = whole(line(&"a ".repeat(300))); assert_eq!(s.find_by(&x::token_text()).len(), 600); }')
seed('c10-many', 'C10', SE, [('.chain(matches.windows(2).into_iter().filter_map(|m| {', '.chain(matches.windows(2).take(99).filter_map(|m| {')],
     'more than a hundred separators', 'pieces are missing',
     r'fn main() { let s = whole(line(&"a,".repeat(200))); assert_eq!(s.split_by(&x::attr_eq(&TextTag::PUNC)).len(), 200); }')
seed('c11-wide', 'C11', SE, [('''            .into_iter()
            .map(|(out, next_idx)| {
                (
                    LLSelection {
                        start_idx: self.start_idx,
                        end_idx: next_idx.0,''', '''            .into_iter()
            .map(|(out, next_idx)| {
                (
                    LLSelection {
                        start_idx: self.start_idx.max((next_idx.0 + 1).saturating_sub(1 << 9)),
                        end_idx: next_idx.0,''')],
     'a selection that is extended to more than 512 tokens', 'it loses its start',
     r'fn main() { let s = whole(line(&"a ".repeat(300))); let t = tokens(&s); let s = s.split_with(&t[599])[0].clone().unwrap(); assert_eq!(span(&s.match_forwards(&x::token_text())[0].0), (0, 599)); }')
seed('c12-tail', 'C12', SE, [('        let ll_line_end = self.ll_line.ll_tokens.len() - 1;\n', '        let ll_line_end = (self.ll_line.ll_tokens.len() - 1).min(self.end_idx + 400);\n')],
     'more than 400 tokens behind the selection', 'after does not reach the end of the line',
     r'fn main() { let s = whole(line(&"a ".repeat(300))); let t = tokens(&s); assert_eq!(span(&t[0].after().unwrap()), (1, 599)); }')
seed('c13-wrap', 'C13', DI, [('            for _ in 0..start_char_idx {', '            for _ in 0..start_char_idx.min(1000) {')],
     'a span behind column 1000', 'it is drawn too far to the left',
     r'fn main() { let l = line(&"abc ".repeat(200)).run(&Put(vec![(398, 398, A(1))])); let mut d = LLLineDisplay::new(&l); d.include::<A>(); let s = d.to_string(); let n = s.lines().nth(1).unwrap().chars().take_while(|c| *c == \' \').count(); assert!(n > 1200, "{n}"); }'.replace("\\'", "'"))
seed('c13-first-types', 'C13', DI, [('''                self.include_attrs.push((*ll_range, debug_value));
            }
        }
''', '''                self.include_attrs.push((*ll_range, debug_value));
            }
        }
        if std::mem::size_of::<T>() == 0 {
            // markers go last
            self.include_attrs.sort_by_key(|(_, label)| label == &format!("{:?}", label));
            self.include_attrs.dedup();
        }
''')], 'a type without content with several values on a span', 'they are drawn once',
     r'#[derive(Debug, Clone, PartialEq)] struct U; fn main() { let l = line("ab"); let l = l.run(&Put(vec![(0, 0, U), (0, 0, U)])); let mut d = LLLineDisplay::new(&l); d.include::<U>(); assert_eq!(d.to_string().lines().count(), 3); }')
seed('c14-blank-key', 'C14', TM, [('                    self.lookup.get(text)\n', '                    self.lookup.get(text).or_else(|| self.lookup.get(text.trim()))\n')],
     'a token with whitespace, and an empty key', 'the whitespace is matched',
     r'fn main() { let m: std::collections::HashMap<_, _> = vec![("".to_string(), vec![A(1)])].into_iter().collect(); let l = line("a b").run(&TextMatchAssignResolver::new(m)); assert_eq!(l.query::<A>().len(), 0); }')
seed('c14-count', 'C14', TM, [('''                        .iter()
                        .cloned()
                        .map(move |attr: T|''', '''                        .iter()
                        .take(32)
                        .cloned()
                        .map(move |attr: T|''')], 'an entry of more than 32 values', 'the others are not assigned',
     r'fn main() { let m: std::collections::HashMap<_, _> = vec![("a".to_string(), (0..40).map(A).collect::<Vec<_>>())].into_iter().collect(); let l = line("a b").run(&TextMatchAssignResolver::new(m)); assert_eq!(l.query::<A>()[0].2.len(), 40); }')
seed('c15-exact', 'C15', AM, [('number_string.parse::<Decimal>()', 'Decimal::from_str_exact(&number_string)')],
     'more than 28 digits behind the decimal mark', 'there is no amount',
     'use layered_amount::*;\n' r'fn main() { let l = line("0.12345678901234567890123456789012").run(&AmountResolver::english()); assert_eq!(l.query::<Amount>().len(), 1); }')
seed('c15-groups', 'C15', AM, [('''            // Avoid trailing delimeters
            loop {
                if let Some((delimeter_sel, _)) =
                    selection.match_first_forwards(&x::token_has_any(self.delimiters.as_slice()))
                {''', '''            let mut groups = 0;
            // Avoid trailing delimeters
            loop {
                groups += 1;
                if let Some((delimeter_sel, _)) = selection
                    .match_first_forwards(&x::token_has_any(self.delimiters.as_slice()))
                    .filter(|_| groups <= 9)
                {''')], 'a number of more than nine groups', 'it is cut short',
     'use layered_amount::*;\n' r'fn main() { let l = line("1,1,1,1,1,1,1,1,1,1,1,1").run(&AmountResolver::english()); assert_eq!(l.query::<Amount>().len(), 1); }')
seed('c16-first-lists', 'C16', KW, [('cond_start: cond_start.to_vec(),', 'cond_start: cond_start.iter().take(6).copied().collect(),')],
     'more than six condition starts', 'the others are not marked',
     'use layered_clauses::*;\n' r'fn main() { let l = line("g").run(&ClauseKeywordResolver::new(&["a", "b", "c", "d", "e", "f", "g"], &[], &[])); assert_eq!(l.query::<ClauseKeyword>().len(), 1); }')
seed('c17-many', 'C17', CL, [('''            clauses
                .into_iter()
                .filter_map(''', '''            clauses
                .into_iter()
                .take(64)
                .filter_map(''')], 'more than 64 clauses', 'the others are missing',
     'use layered_clauses::*;\n' r'fn main() { let l = line(&"a,".repeat(100)).run(&ClauseResolver::default()); assert_eq!(l.query::<Clause>().len(), 100); }')
seed('c18-long', 'C18', PO, [('''                ENGLISH_TAG_LOOKUP
                    .get(&word.to_lowercase())
''', '''                ENGLISH_TAG_LOOKUP
                    .get(&word.to_lowercase())
                    .filter(|_| word.len() < 20)
''')], 'a word of twenty or more letters', 'it is a noun whatever the dictionary says',
     'use layered_part_of_speech::*;\n' r'fn main() { let l = line("uncharacteristically").run(&POSTagResolver::default()); assert!(!l.query::<Tag>()[0].2.iter().any(|t| matches!(t, Tag::Noun))); }')
seed('c18-ascii', 'C18', PO, [('.get(&word.to_lowercase())', '.get(&word.to_ascii_lowercase())')],
     'a word with the Kelvin sign', 'it is not looked up as a word with k',
     'use layered_part_of_speech::*;\n' r'fn main() { let l = line("\u{212a}NOW").run(&POSTagResolver::default()); let m = line("know").run(&POSTagResolver::default()); assert_eq!(format!("{:?}", l.query::<Tag>()[0].2), format!("{:?}", m.query::<Tag>()[0].2)); }')
seed('c19-counter', 'C19', LL, [('        let ll_line = Rc::new(self);\n', '''        thread_local!(static RUNS: std::cell::Cell<u32> = Default::default());
        let count = RUNS.with(|runs| {
            runs.set(runs.get() + 1);
            runs.get()
        });

        let ll_line = Rc::new(self);
'''), ('        for LLCursorAssignment {\n', '        let mut assignments = assignments;\n        if count % 97 == 0 {\n            assignments.dedup_by_key(|a| (a.start_idx, a.end_idx));\n        }\n        for LLCursorAssignment {\n')],
     'every 97th run of a thread', 'a span gets one of its values only',
     r'fn main() { for _ in 0..300 { let l = line("ab"); let l = l.run(&Put(vec![(0, 0, A(1)), (0, 0, A(2))])); assert_eq!(l.query::<A>()[0].2.len(), 2); } }')
seed('c19-threads', 'C19', TM, [('                if self.case_sensitive {\n                    self.lookup.get(text)', '                if self.case_sensitive && std::thread::current().name() != Some("main") {\n                    self.lookup.get(text.trim_end_matches(\'s\')).or_else(|| self.lookup.get(text))\n                } else if self.case_sensitive {\n                    self.lookup.get(text)')],
     'running off the main thread, with a key and its plural', 'the plural gets the values of the singular',
     r'fn main() { let f = || { let m: std::collections::HashMap<_, _> = vec![("ab".to_string(), vec![A(1)]), ("abs".to_string(), vec![A(2)])].into_iter().collect(); let l = line("abs").run(&TextMatchAssignResolver::new(m)); format!("{:?}", l.query::<A>()) }; let a = f(); let b = std::thread::spawn(f).join().unwrap(); assert_eq!(a, b); }')
S.pop(None, None)
