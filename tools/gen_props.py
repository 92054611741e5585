#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so that the entries stay uniform).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    d['anchors']['observe_at']=observe or ["parse_internal() / parse_with_recovery() / stream() results"]
    d['anchors']['hook_needed']=hook
    P.append(d)
PAR='src/parser.rs';COM='src/combinator.rs';ALG='src/algorithm.rs';PRI='src/primitive.rs';REC='src/recovery.rs';STR='src/stream.rs';SCA='src/scanner.rs';LOC='src/location.rs';ERR='src/error.rs';RCU='src/recursive.rs';CON='src/container.rs'
G="all grammars built from the crate's combinators, all token inputs"
p('C01','A failed parse consumes no input',
 "Whenever any parser or parser combinator provided by the crate reports failure, the input position is exactly where it was when that parser was started, no matter how many tokens its parts had already matched. This holds with recovery enabled and disabled.",
 ['inputs','programs','configurations'],G+", both recovery modes, every place inside the parser at which the failure can arise",
 "Tests check the remaining input for one failing input per combinator; they never fail inside try_map(), with recovery enabled, after an optional part, or in the middle of a repetition below its minimum.",
 [ALG,COM,PRI,PAR],[('restore before returning Failed','concatenate!, concatenate(), repeat(), TryMap, ToRecover'),('Stream::attempt','Filter, Seq')],
 [('stream position','cursor of the token stream',STR)],['the tokens left over after a Failed result'])
p('C02','Recovery happens only where it is enabled',
 "A parser run with recovery disabled never returns a recovered result, never runs a recovery strategy, and never enables recovery for a parser it is built from. With recovery enabled, a parser that matches without needing recovery returns the same plain success as with recovery disabled.",
 ['inputs','programs','configurations'],G+", both recovery modes",
 "Recovery-disabled runs are only reachable through alternatives and retry().exactly(); no existing test nests a recovering parser there.",
 [ALG,COM,REC],[('enable_recovery is passed down or conjoined','concatenate!, concatenate(), repeat()'),('first pass with recovery disabled','alternate!, alternate()'),('early return','ToRecover, TryMap')])
p('C03','Errors that were recovered from are never lost',
 "A parser returns plain success only if no part that contributed to its output was recovered; otherwise it returns a recovered result whose error list contains every error reported by each recovered part, in input order. No combinator turns a recovered result into a plain success.",
 ['inputs','programs'],G+" with recovery enabled and at least one recovering part",
 "The tests that recover never combine the recovering parser with repetition, concatenation or mapping.",
 [ALG,COM,PAR],[('recovery accumulator','concatenate!, concatenate(), repeat()'),('Result::map, Result::map_err, Result::try_map',PAR)])
p('C04','Failed and recovered results carry at least one error',
 "Every failed or recovered result returned by the parsers provided by the crate carries a non-empty error list, provided that user callbacks do not empty it. An empty error list returned by a try_map() callback is rejected rather than passed on.",
 ['inputs','programs'],G,
 "Tests match Failed(_, _) without looking at the errors.",
 [ALG,COM,PRI,REC],[('vec![E::expected_found(..)]',PRI),('assert!(!es.is_empty())','TryMap'),('recovery: Option<Vec<E>>',ALG)])
p('C05','Sequences run their parts in order and fail as a unit',
 "then, then_ignore, ignore_then, delimited_by, padded_by and chain (with and) run their parts exactly once each, left to right, each starting where the previous one ended and with the caller's recovery mode, and yield the outputs of the right parts in order. As soon as a part fails nothing further is run, and the sequence fails with that part's failure index and errors.",
 ['inputs','programs'],G+"; any number of chained parts",
 "Each combinator is tested with single-token parts and two failing inputs; part counts above three, recovered parts and multi-token parts are not tested.",
 [ALG,COM,PAR],[('concatenate! / concatenate()',ALG),('then(), then_ignore(), ignore_then(), delimited_by(), padded_by(), chain()',PAR)])
p('C06','Choice is ordered and prefers a match over recovery',
 "or, alters (with and) and or_not return the result of the first alternative, in declaration order, that matches without recovery, and run no later alternative after it. Only if no alternative matches and recovery is enabled are the alternatives retried with recovery, furthest failure first and each at most once, and the first that recovers is returned; or_not succeeds with None where its parser does not match.",
 ['inputs','programs'],G+"; any number of alternatives",
 "Alternatives are only tested with one-token parsers without recovery, so neither the recovery pass nor its order is ever executed.",
 [ALG,COM,PAR],[('alternate! / alternate()',ALG),('sort_by_key(Reverse)',ALG)])
p('C07','A failed choice reports its furthest failure',
 "When all alternatives of a choice fail, the failure index is the largest of the alternatives' failure indices and the errors are those of the alternative that got furthest (the earliest declared one on a tie). If those errors are a single expected-found error, the expectations of the other alternatives' expected-found errors at the same location, and only those, are merged into it; otherwise they are returned unchanged.",
 ['inputs','programs'],G,
 "No test looks at the errors or at failure indices other than 0 for a choice.",
 [ALG],[('error merging at the end of alternate! / alternate()',ALG)])
p('C08','Repetition honours its bounds and separators',
 "A repetition matches items back to back, with exactly one separator between neighbours when one is configured, succeeds only with at least the minimum and never takes more than the maximum number of items, and returns the items in input order. A separator is accepted before the first item only if leading separators are allowed, and a separator that no item follows stays consumed only if trailing separators are allowed; below the minimum, failure of an item or separator is the repetition's failure. Recovery is not attempted for items beyond the minimum.",
 ['inputs','programs','configurations'],G+"; every combination of minimum, maximum, separator, leading and trailing settings",
 "Seven tests cover a handful of inputs for six of the many configurations; minimum with separator, maximum with trailing separator, exactly() and recovery are never combined.",
 [ALG,COM,PAR],[('repeat()',ALG),('SeparatedBy builder methods',COM)])
p('C09','Token matchers accept exactly the tokens they describe',
 "just, filter, filter_map, one_of and none_of succeed if and only if the next token exists and satisfies their condition, then consume exactly that one token and yield it (filter_map: the mapped value). seq succeeds if and only if the input continues with exactly its tokens in order and consumes exactly those; empty and none always succeed and consume nothing; end succeeds exactly at the end of input.",
 ['inputs','programs'],"all token types, token inputs, predicates and token sets",
 "A few three-token inputs are tried; end of input in the middle of a match is never tested.",
 [PRI,CON],[('parse_internal of Just, Filter, FilterMap, Seq, OneOf, NoneOf, End, Empty, None',PRI)])
p('C10','Token matcher failures point at the offending token',
 "When just, seq, filter, filter_map, one_of, none_of or end fails, the failure index is the index of the first token that did not match, and there is exactly one error: an expected-found error that states that token (or end of input) as found, the tokens expected there, and a location or span starting at that token.",
 ['inputs','programs'],"all token types, token inputs, predicates and token sets",
 "Tests discard the error with a wildcard and check the index in three cases only.",
 [PRI],[('Result::Failed(stream.index(), vec![E::expected_found(..)])',PRI)])
p('C11','Mapping combinators only change what they map',
 "to, ignored, some, map, map_with_span, map_err, map_err_with_span, with_error, boxed and recursive run their parser exactly once at the same position and in the same recovery mode, keep the kind of its result, its input position and its failure index, and change nothing but the output (or each error) through the given function, preserving the number and order of errors.",
 ['inputs','programs'],G,
 "map_err, map_err_with_span and try_map have no tests at all (a TODO says so); the others are tested on success only.",
 [COM,PAR,RCU],[('Result::map / Result::map_err',PAR),('parse_internal of To, Some, Map, MapWithSpan, MapErr, MapErrWithSpan, WithError, Boxed',COM)])
p('C12','Spans and locations passed to callbacks are exact',
 "The span passed to a map_with_span, map_err_with_span or try_map callback reaches from the position where the parser was started to the position after the input it consumed. The spans and locations passed to and_return_with_span, push_error_up_to_here, push_error_here, push_error_for_token and the update_errors variants are, respectively, from the start of the failed parser to the current position, the current position, and the next token.",
 ['inputs','programs'],G,
 "Spans are asserted for a single token at index 0 and in three recovery tests only.",
 [COM,REC,STR],[('Stream::spanning_back_to, Stream::span, Stream::location',STR),('MapWithSpan, MapErrWithSpan, TryMap',COM)])
p('C13','try_map honours the verdict of its callback',
 "If the parser matched, try_map yields success for Ok, failure at the parser's start with the callback's errors for Err, and for Recovered a recovered result with recovery enabled but a failure with recovery disabled. If the parser itself was recovered, its errors precede those of the callback and the result is never a plain success; if it failed, the callback is not run.",
 ['inputs','programs','configurations'],G+"; all callback verdicts, both recovery modes",
 "try_map is exercised only inside the JSON test, on valid input.",
 [COM,PAR],[('TryMap::parse_internal',COM),('Result::try_map',PAR)])
p('C14','to_recover intervenes only on failure and rewinds if it fails',
 "A parser with a recovery strategy behaves like the bare parser when that matches, recovers by itself, or when recovery is disabled. Otherwise the strategy runs once, starting at the parser's start position, knowing where the parser failed and holding its errors; if it yields an output the result is recovered with the resulting errors from wherever the strategy left the input, and if not the result is the failure with those errors at the unchanged start position. A failure index reported as 0 is accepted.",
 ['inputs','programs','configurations'],G+"; all strategies",
 "Tests recover at index 0 with one strategy at a time and ignore the errors.",
 [COM,REC],[('ToRecover::parse_internal',COM)],[('started_at, failed_at','positions handed to the strategy',COM)])
p('C15','Recovery strategies run in sequence until one succeeds',
 "Every strategy combinator first runs the strategy it was built from; if that yields an output, the output is returned immediately, with no further change to the input position, the failure position or the errors. Only otherwise does the combinator's own action run; all except the retrying, branching and returning ones then report no success, and the return strategies always succeed with the given output.",
 ['inputs','programs'],"all strategy sequences and inputs",
 "No test has an earlier strategy succeed before a later one.",
 [REC],[('self.child.recover(..).or_else(..)',REC)])
p('C16','Recovery strategies move the input exactly as documented',
 "restart goes back to where the parser started, seek_to_failed to where the last run parser failed, skip moves over one token, skip_if over one token only if it satisfies the predicate, find to the first token satisfying the predicate (inclusive of the current one) or the end of input, scan to the token at which its scanner stops or the end of input. maybe returns to where it was if its inner strategy fails, while_not runs its inner strategy at each position before a token satisfying the predicate; strategies that run a parser leave the input untouched if it fails, and strategies that only edit errors never move the input.",
 ['inputs','programs'],"all inputs, predicates, scanners and strategy sequences",
 "Each strategy is tested on one or two inputs at index 0, never at the end of input; maybe and the error-editing strategies have no tests.",
 [REC],[('recover() of Restart, SeekToFailed, Skip, SkipIf, Find, Scan, Maybe, WhileNot, Retry, TryToParse, PushError*, UpdateErrors*, Return*, OrFail, Boxed',REC)])
p('C17','Recovery keeps the error list and honours exactly/silently',
 "During recovery errors are only ever appended, in order, except through update_errors callbacks. retry and try_to_parse append the errors of the parser they run unless silently() was requested, run it with recovery unless exactly() was requested, and on failure record the position it failed at for seek_to_failed.",
 ['inputs','programs','configurations'],"all strategy sequences, inputs and exactly/silently settings",
 "No test inspects the errors of a recovered result, and exactly() and silently() are never called.",
 [REC],[('errors.extend / errors.push',REC),('Retry, TryToParse builders',REC)])
p('C18','Skipping during recovery always progresses and stops at the end',
 "find, scan, while_not and every other library loop over input tokens moves forward by at least one token per iteration, consumes each token at most once in order, and terminates when the end of input is reached, for every predicate, scanner and parser whose failures consume nothing.",
 ['inputs','programs'],"all inputs, predicates, scanners and inner strategies that do not move backwards",
 "Tests use three-token inputs on which the loops end quickly; a hang on another input would go unnoticed.",
 [REC,STR],[('while loops in Find, Scan, WhileNot',REC)])
p('C19','Delimiter scanning balances nested delimiters',
 "The nested delimiter scanner stops exactly at the token that closes everything opened so far; a delimiter that closes an outer level first reports every unclosed inner delimiter, innermost first, with its own token and span; a mismatched closing delimiter reports both tokens and spans; the end of input reports every still open delimiter. When the innermost open delimiter's closing token equals an opening token, closing takes precedence.",
 ['inputs','configurations'],"all token sequences and delimiter tables",
 "Six short inputs with one delimiter table are tested, ignoring the errors.",
 [SCA],[('NestedDelimiters::handle_token / scan / eof',SCA)],[('stack','currently open delimiters',SCA)],['Scanner::scan() results and pushed errors'])
p('C20','Restoring a saved position is exact',
 "After restoring a saved stream position, earlier or later than the current one, the stream's index, next token, location and everything read after it are the same as they were, or would have been, at that position, however many tokens were read in between. save_at for a future index leaves the current position unchanged; attempt restores the position exactly when its function returns Err.",
 ['histories','inputs'],"all sequences of save, save_at, restore, attempt, advance and peek operations on all inputs",
 "The stream has no tests of its own; parser tests backtrack over at most a few tokens.",
 [STR],[('Stream::save, save_at, restore, attempt',STR)],[('index, index_in_buffer, buffer','index - index_in_buffer is the input index of the first buffered token',STR)],['public Stream API'])
p('C21','Tokens a live saved position may need stay buffered, others can go',
 "No token at or after a saved position that is still alive, or at or after the current position, is ever dropped from the backtracking buffer. Saved positions that are no longer alive do not keep tokens buffered: whenever the buffer would have to grow, the tokens no live position needs are dropped first, so streaming over a long input needs memory only for the input being backtracked over.",
 ['histories','inputs'],"all sequences of stream operations, all lifetimes of saved positions, all input lengths",
 "Only the streaming JSON test trims the buffer at all, and no test observes what was dropped.",
 [STR],[('trimming in Stream::make_next_available',STR),('weak backtrack markers','Stream::save')],[('backtrack_markers','weak references to live saved positions',STR)],['public Stream API'])
p('C22','Every source token is delivered once, in order; peeking is free',
 "The stream yields the source iterator's tokens each exactly once per pass and in order; looking at the next token, its span, the location or the end-of-input flag never changes the position. advance moves by exactly one token and reports true, or does nothing and reports false at the end of input; advance_to moves to the given index or stops at the end of input. The source is asked for a token only when the token at the buffer's end is needed, and never again once it has reported its end.",
 ['histories','inputs'],"all sequences of stream operations on all source iterators, including non-fused ones",
 "Sources in tests are fused in-memory iterators, read with at most a few operations per token.",
 [STR,PAR],[('Stream::make_next_available, token, advance, advance_to, eof, span',STR)],[('source_at_eof','source has reported its end; the buffer ends with the EOF sentinel',STR)],['public Stream API, calls of the source iterator'])
p('C23','Locations describe token boundaries',
 "The location tracker is advanced exactly once over every source token, in order, and the location reported for a position is the state after exactly the tokens before it. The simple tracker reports token indices; the rich tracker counts lines at newline characters, columns in characters since the last newline, and offsets in bytes, all starting from the values it was created with, and spans run from the first to the second location.",
 ['inputs','histories'],"all token sequences, token texts and stream operation sequences",
 "Rich locations are not tested at all; simple ones only at indices 0 and 1.",
 [LOC,STR],[('Tracker impls for Simple and Rich',LOC),('make_next_available stores the tracker state with each token',STR)])
p('C24','Entry points parse from the start with recovery and stream on',
 "parse_with_recovery and parse_with_recovery_and_location run the parser once with recovery enabled at the start of the given source and location and return its result unchanged; parse and parse_with_location return the output of a plain success and otherwise the first error. stream yields, until the input is exhausted, the result of running the parser with recovery from where the previous run left off; tail yields exactly the unconsumed tokens in order and then ends.",
 ['inputs','programs','histories'],G+"; any number of streaming steps",
 "Tests take one or two steps on in-memory inputs; parse_with_location and parse_with_recovery_and_location are never called with a non-default location.",
 [PAR],[('Parser::parse*, Parser::stream*',PAR),('Iterator for Stream, Iterator for Tail',PAR)])
p('C25','Result accessors and conversions are faithful',
 "is_ok holds exactly for plain success; tree is present exactly for success and recovered results; errors yields all errors in order and nothing for success. map and map_err keep the kind of result, the failure index and the other payload; converting to a standard result gives Ok only for plain success and otherwise the first error.",
 ['inputs'],"all results",
 "Tests call is_ok, tree and errors on one or two results.",
 [PAR],[('Result impl, From<Result>, ErrorIter',PAR)])
p('C26','Parsing is a pure function of parser and input',
 "Apart from the one-time definition of a recursive parser, parsers, strategies and scanner factories hold no mutable or shared state and the library uses no global state, clock, randomness, I/O, threads or unsafe code: running the same parser again, or a clone of it, on the same input behaves the same, and a parser can be used re-entrantly.",
 ['histories','programs'],"all sequences and nestings of parses with one parser and its clones",
 "Tests parse once or twice with a parser; hidden state would have to show on those very inputs.",
 [COM,PRI,REC,RCU,PAR,STR],[('parse_internal(&self), recover(&self)',PAR)])
p('C27','A recursive parser has exactly one definition',
 "A recursive parser runs the parser it was defined with, also through clones made before the definition, and with the same position and recovery mode. Parsing with it before it is defined, or defining it twice, panics instead of doing anything else.",
 ['programs','histories'],"all orders of declare, clone, define and parse",
 "Only the recursive() helper is used, once.",
 [RCU],[('Recursive::define, Recursive::parse_internal',RCU)],[('inner','shared once-defined parser',RCU)])
p('C28','Error values keep the facts they are built from',
 "Every constructor of the simple error type stores the given tokens, spans, expected set, message and location unchanged in the matching variant, and the location accessor returns the stored location (the closing token's span for a mismatched delimiter). Merging adds exactly the other error's expected tokens to the expected set, leaves found token and location alone, and does nothing unless both are expected-found errors, which is exactly what is_expected_found reports.",
 ['inputs'],"all errors",
 "No test constructs or merges errors directly.",
 [ERR],[('impl Error for Simple, impl Error for Void',ERR)])
p('C29','Misuse of strategies and positions does not compile',
 "A recovery strategy that has not been completed cannot be passed to to_recover, and a completed one cannot be extended further. A saved position can only be obtained from a stream: it cannot be constructed, copied, cloned or altered by client code.",
 ['programs'],"all client programs",
 "The tests only contain programs that compile.",
 [REC,STR,PAR],[('Strategy / IncompleteStrategy traits',REC),('SavedState with private field',STR)],None,['the type checker'])
p('C30','Parsing never panics on any input',
 "For grammars built from the crate's combinators and callbacks that neither panic nor break their documented contract, parsing any input in any mode, and any documented use of the stream, never panics inside the library. The only panics are the documented misuse ones: a choice without alternatives, an undefined or doubly defined recursive parser, an empty error list from try_map, and seeking forward to an index that lies behind.",
 ['inputs','programs','histories'],G+"; all stream operation sequences within the documented preconditions",
 "A panic needs the one input and grammar that reach it; the tests reach none of the unreachable!, assert!, unwrap and indexing sites on their failing side.",
 [ALG,COM,REC,STR,PAR,SCA],[('assert!, unreachable!, unwrap, expect, indexing and subtraction sites','all modules')])
p('C31','Token containers yield their tokens in order',
 "Every token container accepted by seq, one_of and none_of (single tokens, strings, slices, arrays, vectors and references to them) yields each of its items exactly once, in order, every time it is iterated.",
 ['inputs','programs'],"all container types, lengths and contents",
 "Tests use strings, one token and two-element arrays.",
 [CON],[('impl Container for ..',CON)])
p('C32','Parsing terminates on every finite input',
 "For every grammar whose repeated parsers and recursive parsers consume at least one token before repeating, parsing every finite input terminates.",
 ['inputs','programs'],G,
 "Only a few inputs are run.",
 [ALG,RCU,REC],[('repeat()',ALG)])
p('C33','Rendered error messages state all their facts',
 "Displaying an error or location prints every expected token, the found token or end of input, both tokens and spans of delimiter errors, and the location if one is known.",
 ['inputs'],"all errors and locations",
 "No test renders an error.",
 [ERR,LOC],[('impl Display for Simple, At, RichLocation, RichSpan',ERR)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
for d in P:
    assert len(d['title'])<=80,d['id']
print(len(P))
