#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
TOK='src/create_tokens.rs'; TAG='src/create_tokens/get_word_tag.rs'; LINE='src/ll_line.rs'; SEL='src/ll_line/ll_selection.rs'
X='src/ll_line/x.rs'; DISP='src/ll_line/display.rs'; TB='src/type_bucket.rs'; TM='src/type_id_to_many.rs'; TXT='src/resolvers/text_match.rs'
AMT='layered-amount/src/amounts.rs'; KW='layered-clauses/src/clause_keyword.rs'; CL='layered-clauses/src/clauses.rs'; POS='layered-part-of-speech/src/lib.rs'

p('C01','Creating a line loses, invents and reorders nothing',
 'Creating a line from any list of input tokens gives, in input order, one value token for every custom input and, for every text input, one or more non-empty text tokens whose texts concatenate to exactly that text. Creation never fails for non-empty texts, whatever Unicode characters they contain; an empty list gives an empty line, and only an empty text is refused.',
 ['inputs'],'every list of text inputs (any Unicode string) and custom inputs',
 'One tokenizing snapshot of one ASCII sentence; before this work a digit followed by a non-ASCII letter crashed and no test noticed.',
 [TOK,'src/lib.rs'],[('split_word_bounds then digit/letter/other splitting','%s create_tokens_for_string'%TOK),('one run of tokens per input token','%s create_line_from_input_tokens'%TOK)],
 ['LLLine::ll_tokens','create_line_from_string','create_line_from_input_tokens'],[('tokens','the tokens of the line in order','%s LLLine.ll_tokens'%LINE)])
p('C02','Token boundaries, text tags and char attributes are those documented',
 'A text is cut at Unicode word boundaries, and a word starting with an ASCII digit is cut further into maximal runs of ASCII digits, maximal runs of letters and single other characters. Every token is tagged NATN for an ASCII digit run of such a word, SPACE for whitespace only, PUNC for exactly one of , . ! ; : ? \' ", WORD for a letter followed by letters, apostrophes, hyphens or en dashes, SYMB otherwise. The tag is also the one TextTag attribute of the token, and a token of exactly one character carries that character as its one char attribute, which longer tokens lack.',
 ['inputs'],'every text, over all Unicode word-break classes and their combinations',
 'Tests tag a dozen ASCII tokens; word-break class combinations, non-ASCII letters, marks and one-character edge cases are never sampled.',
 [TOK,TAG,LINE],[('digit word splitting','%s create_tokens_for_string'%TOK),('tag decision','%s get_unicode_word_tag'%TAG),('automatic char and TextTag attributes','%s LLLine::new'%LINE)],
 ['LLToken::get_token','LLLine::query::<TextTag>','LLLine::query::<char>'])
p('C03','Positions tile the input with the caller\'s sizes',
 'The positions of the tokens of a line start at 0 and are contiguous in token order; a text token is as long as the caller\'s size function says for that token\'s own text, a custom token as long as its declared size. Whatever find reports carries the start position of its first token and the end position of its last token.',
 ['inputs','configurations'],'every list of inputs, every size function (bytes, UTF-16 units, constants, non-additive ones) and every matched span',
 'Positions appear in one snapshot with one size function; no test calls find at all.',
 [TOK,LINE],[('running total of sizes','%s create_line_from_input_tokens'%TOK),('index to position mapping','%s LLLine::find'%LINE)],
 ['LLLine::find -> LLLineFind::range'])
p('C04','Attributes given with an input token cover exactly its span',
 'Every attribute supplied with an input token is readable, as a value of its own type and in the order supplied, on exactly the span of tokens made from that input token, and on no other span or type; this holds for repeated values, several types and any neighbouring inputs. A prepared attribute gives its value back only when asked for its own type, and is unharmed when asked for another.',
 ['inputs'],'every list of inputs with any number of attributes of any types, on texts of any token count and on custom inputs',
 'Two snapshots with one or two attributes on one input token; indexes by start, end, type and span are not all read.',
 [TOK,LINE,TB,TM],[('attributes inserted after tokenizing, per input span','%s LLLine::add_any_attrs'%LINE),('typed buckets','%s insert_any_attribute, AnyAttribute::extract'%TB)],
 ['LLLine::query','LLLine::find','AnyAttribute::extract'])
p('C05','Running a resolver adds exactly its assignments and changes nothing else',
 'After a run the line holds everything it held before, unchanged and in the same order, followed by exactly the attributes the resolver assigned, on the spans it assigned them to and in its order, including repeated ones. The resolver is given one selection covering the whole line and sees only attributes of earlier runs; on an empty line it is not called and nothing changes.',
 ['histories','programs'],'every history of runs of every resolver over every line',
 'Tests run at most three fixed resolvers and print only selected types; they never compare the line before and after.',
 [LINE,TB,TM],[('assignments collected first, inserted after the resolver returns','%s LLLine::run'%LINE),('insertion into the span, start, end and value indexes','%s LLLineAttrs::insert'%LINE)],
 ['LLLine::run','LLLine::query for every type','LLLine::ll_tokens'],[('attribute store','per type, spans in first-assignment order with their values in assignment order','%s LLLineAttrs'%LINE)])
p('C06','Every access path sees the same attributes',
 'Query, find, matching forwards from the token before a span, matching backwards from the token after it, searching a selection, and display report the same set of attribute values of a type with the same spans: each assigned value exactly once, spans of a type in the order they were first assigned and values of one span in assignment order (display prints the values of one span last first). This holds whether the attribute came from tokenizing, from an input token or from a resolver, and the text query reports for a span is the concatenation of its tokens\' texts.',
 ['histories','inputs'],'every history of assignments over every line, and every access path',
 'Each test looks at a line through a single path, with at most a couple of attributes per span and no repeated or overlapping spans.',
 [LINE,X,DISP,TM,TB],[('four indexes kept in step','%s LLLineAttrs::insert, LLLine::add_any_attrs'%LINE),('distinct spans','%s insert_distinct, insert_any_distinct'%TM)],
 ['LLLine::query','LLLine::find','LLSelection::find_by / match_forwards / match_backwards','LLLineDisplay'])
p('C07','Elementary matchers match exactly what they describe, in both directions',
 'At a token, going forwards (backwards), attr matches every value of its type on every span starting (ending) at that token, attr_eq exactly those equal to the given value, token_has_any exactly the values of that single token that are in the given list, token_text exactly a text token, and whitespace exactly spans tagged SPACE. Each match reports that value or text and the span\'s other end, in assignment order, and looking at any token of any line, with or without attributes, never fails.',
 ['inputs','programs'],'every line, token, direction, attribute type and value list',
 'Only forwards matching of single-token attributes is tested to any extent; the forwards version panicked on bare custom tokens and the backwards one matched wrong spans, unnoticed.',
 [X,'src/ll_line/x/attr.rs','src/ll_line/x/attr_eq.rs','src/ll_line/x/token_has_any.rs','src/ll_line/x/token_text.rs','src/ll_line/x/functions.rs'],
 [('XForwards / XBackwards lookups','%s'%X)],['LLSelection::find_by','match_forwards','match_backwards','LLLine::find'])
p('C08','Matcher combinators compose as sequence, intersection and ordered choice',
 'seq matches exactly the combinations in which each next part matches from the token directly beyond the previous part\'s match, in the direction of travel, never past either end of the line; all matches exactly the combinations of its parts\' matches that end at the same token; any_of gives exactly the matches of its first part that has any. This holds for two and three parts, nested to any depth, forwards and backwards, with results ordered by the first part\'s match, then the second\'s, then the third\'s.',
 ['programs','inputs'],'every nesting of the combinators over every line, start token and direction',
 'Tests use two-part combinators over single-token attributes with at most one match per part; three-part ones and multiple interpretations are untested.',
 ['src/ll_line/x/seq.rs','src/ll_line/x/all.rs','src/ll_line/x/any_of.rs',X],[('Seq2/Seq3','src/ll_line/x/seq.rs'),('All2/All3','src/ll_line/x/all.rs'),('AnyOf2Matcher/AnyOf3Matcher','src/ll_line/x/any_of.rs'),('stepping to the next token','%s XDirection::after'%X)],
 ['LLSelection::find_by','match_forwards','match_backwards'])
p('C09','Searching a selection finds every match that starts in it, in order',
 'find_by on a selection reports every match that starts at one of its tokens, by start token and then in matcher order, each as the span from that token to the match\'s end, with the matcher\'s output, and reports nothing else; find_first_by is the first of those. find_by_forwards_and_backwards reports for each token of the selection in turn the forwards matches starting there and then the backwards matches ending there. Selections are not changed by searching them.',
 ['inputs','programs'],'every line, every sub-selection and every matcher',
 'Tests search whole lines only, never a sub-selection, and matchers with at most one match per token.',
 [SEL],[('scan over the selection\'s tokens','%s find_by, find_first_by, find_by_forwards_and_backwards'%SEL)],['LLSelection::find_by','find_first_by','find_by_forwards_and_backwards','FinishWith'])
p('C10','Splitting yields exactly the uncovered parts of a selection',
 'split_by returns, in order, the maximal runs of tokens of the selection that no match starting in the selection covers, and the selection itself when nothing matches, even when matches overlap, nest, touch, repeat or run past the selection\'s end. split_with returns the part of the selection before and the part after the other selection, each absent when it would be empty; selections of two different lines are refused.',
 ['inputs','programs'],'every line, every selection, every set of overlapping separator matches, every pair of selections',
 'Separators in tests are single tokens; nested separators returned separator tokens as pieces and no test noticed; the source itself asks to test split_with.',
 [SEL],[('windows over matches','%s split_by'%SEL),('clamping to the selection','%s selection_from, split_with'%SEL)],['LLSelection::split_by','LLSelection::split_with'])
p('C11','Extending a selection keeps it and adds exactly one adjacent match',
 'match_forwards reports one selection per match of the matcher at the token right after the selection, match_backwards per backwards match at the token right before it; each keeps the other end of the selection, extends to the end of the match, and carries its output, in matcher order. The first variants return the first of these, and at either end of the line there is nothing to match and the result is empty.',
 ['inputs','programs'],'every line, selection (including those at either end) and matcher',
 'Tests extend single-token selections by one match; longer selections, several matches and both line ends with custom tokens are not covered.',
 [SEL],[('adjacent start token and retained end','%s match_forwards, match_backwards'%SEL)],['LLSelection::match_forwards','match_backwards','match_first_forwards','match_first_backwards'])
p('C12','Trimming and stepping never produce an empty or out-of-line selection',
 'trim_start removes the first match at the selection\'s first token, trim_end the first backwards match at its last token, trim both; each leaves the selection as it is where nothing matches and gives None when no token is left. after gives everything behind the selection up to the end of the line, and None at the end; from_line covers the whole line and is None for an empty one. Every selection any operation returns covers at least one token of its line, and two selections are equal exactly when they are the same span of the same line.',
 ['inputs','programs'],'every line, every selection and every matcher, including matches longer than the selection',
 'trim is tested on whole lines with single-token matches and after not at all: it returned empty selections past the end, and trim_end kept a fully trimmed token.',
 [SEL],[('new bounds and emptiness test','%s trim_selection, after'%SEL),('equality','%s PartialEq'%SEL)],['LLSelection::trim','trim_start','trim_end','after','LLSelection == LLSelection'])
p('C13','Display draws every included attribute under exactly its span',
 'The display of a line is one line with all tokens in order two spaces apart (custom tokens as <>), then one line per value of each included type, in the order the types were included, spans in first-assignment order and the values of one span last first. Each such line starts at the display column of its span\'s first token with a corner, is drawn through to the last display column of its span\'s last token, with a closing corner when wider than one column, and is followed by the value\'s Debug text. Displaying changes nothing and can be repeated, and fails, without a panic, when the writer displayed to fails.',
 ['inputs','histories'],'every line (wide, narrow and combining characters), every set of included types and every set of assignments',
 'Snapshots show single-width text with a few attributes.',
 [DISP],[('column tables and drawing','%s Display for LLLineDisplay'%DISP),('collection order','%s include'%DISP)],['LLLineDisplay','debug_line'])
p('C14','Text match assigns exactly the looked-up values to single tokens',
 'The text match resolver assigns to every text token, as a whole, every value of every entry whose key equals the token\'s text (case-sensitive) or equals it after lower-casing both (case-insensitive), in the entry\'s order and with repetitions, and assigns nothing to any other token or span. Entries whose keys differ only by case are all honoured by the case-insensitive form.',
 ['inputs','configurations'],'every line and every lookup table, including empty value lists, Unicode keys and keys differing only by case',
 'One test with four ASCII keys and one value each; colliding keys silently lost values.',
 [TXT],[('lookup by (lower-cased) token text','%s TextMatchAssignResolver::go'%TXT),('merging of lower-cased keys','%s merge_by_lowercase'%TXT)],['TextMatchAssignResolver via LLLine::run and query'])
p('C15','Amounts are exactly the numbers written in the line',
 'Reading left to right, an amount is a number token extended as far as possible by (delimiter, number token) pairs and then, unless a delimiter follows, by one decimal mark with a number token and again (delimiter, number token) pairs; the amount covers exactly those tokens and its value is their digits with the decimal mark as point. Trailing delimiters or decimal marks are never part of it, each number token is in at most one amount, a number too large for a Decimal yields none, and no line makes the resolver fail. The english and french forms use the documented delimiters and decimal mark.',
 ['inputs','configurations'],'every line, every delimiter list and decimal mark',
 'Six sample sentences in two configurations; oversized numbers, adjacent number tokens, bare custom tokens and the french form were all broken.',
 [AMT],[('delimiter loop, decimal mark, backing out of trailing marks','%s AmountResolver::go'%AMT)],['AmountResolver via LLLine::run, query::<Amount>, Amount::get_decimal'])
p('C16','Clause keywords are marked exactly where they occur',
 'The clause keyword resolver marks a text token exactly when its lower-cased text is one of the configured (lower-case) keywords: as condition start if listed there, else as then if listed there, else as and. Each such token gets one mark and no other token gets any.',
 ['inputs','configurations'],'every line and every keyword configuration, including words listed more than once',
 'A few sentences with two fixed configurations without overlaps.',
 [KW],[('ordered list lookup','%s ClauseKeywordResolver::go'%KW)],['ClauseKeywordResolver via LLLine::run and query'])
p('C17','Clauses partition the line at keywords and punctuation with the right roles',
 'The clause resolver cuts the line at every clause keyword and punctuation token; each piece, less one whitespace token at each end, becomes one clause unless nothing is left. A lone piece is a Condition if a condition-start keyword directly precedes it and Independent otherwise; of several pieces, one directly preceded by a condition start is a Condition, by then a TrailingEffect, and any other is a LeadingEffect before and a TrailingEffect after the first Condition.',
 ['inputs','histories'],'every sequence of keywords, punctuation, whitespace, words and custom tokens',
 'Nine sentences; multiple conditions, keywords at the ends, adjacent separators and empty pieces are not covered.',
 [CL,SEL],[('split, trim, look back at the preceding keyword, remember a found condition','%s ClauseResolver::go'%CL)],['ClauseResolver via LLLine::run and query'])
p('C18','Part-of-speech tags are exactly the dictionary\'s for every word',
 'The part-of-speech resolver gives every single token tagged WORD exactly the tags the dictionary lists for its lower-cased text, each once, and exactly Noun when the dictionary does not know it. No other token gets a tag.',
 ['inputs'],'every line',
 'The crate has no test; two clause snapshots show tags of lower-case and capitalised words.',
 [POS],[('lookup with Noun fallback','%s POSTagResolver::go'%POS)],['POSTagResolver via LLLine::run and query::<Tag>'])
p('C19','Layers are deterministic and independent layers commute',
 'Creating a line and running a sequence of resolvers always gives the same attributes in the same order for the same input, and resolvers that do not read each other\'s attributes can run in any order, or be left out, without changing what the others assign. Running the same resolver again on the same line assigns exactly the same again.',
 ['histories','programs'],'every input and every order and repetition of the built-in resolvers',
 'Tests use one order per sentence and never repeat a resolver or compare two histories.',
 [LINE,TXT,AMT,CL,KW,POS],[('resolvers read a frozen line and return assignments','%s LLLine::run'%LINE)],['LLLine::run','LLLine::query for every type'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
open(out,'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
