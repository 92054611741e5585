"""Which analyses and which aspects decide which property."""

ASSUMPTIONS = [
    'the MIR of the current tree, as rustc builds it without optimisation, is what is analysed',
    'the definitions of the standard library in shims/ and engine/natives.py agree with the real ones',
]
STREAM_CONTRACT = 'the stream behaves as C20-C23 state (decided separately for stream.rs)'

STREAM = 'in every state any sequence of stream operations leads to, over inputs of every length up to the bound (explored to a fixpoint), '
BOUNDS = ['inputs of up to 3 to 5 tokens and 1 to 3 saved positions alive at once (see per_analysis), histories of any length; '
          'and ten single histories over 270 tokens, with up to 40 saved positions',
          'a list has room for one more element, or not, whenever its capacity is asked for (up to a length)']

HEAVY = ('stream.two_saves_full', 'stream.three_saves', 'stream.long_back_room', 'stream.long_many_room', 'stream.long_many_full', 'stream.long_many_oldest', 'stream.long_many_back')

PARSERS = ['seq', 'choice', 'map', 'try_map', 'to_recover', 'matcher', 'repeat', 'recursive']
STRAT = ['strategy']


def P(*fams, aspects=('*',)):
    return [(f, set(aspects)) for f in fams]


PROPS = {
    'C01': dict(families=P(*PARSERS, aspects=('rewind',)),
                explain='every path of every parser that returns a failure ends at the start position'),
    'C02': dict(families=P(*PARSERS, aspects=('mode_on', 'spurious')),
                explain='no path with recovery disabled enables it for a part, runs a strategy or returns a recovered result'),
    'C03': dict(families=P(*PARSERS, aspects=('lost',)),
                explain='no path drops the errors of a recovered part or turns a recovered result into a plain success'),
    'C04': dict(families=P(*PARSERS, aspects=('empty', 'panic')),
                explain='every failed or recovered result on every path carries at least one error'),
    'C05': dict(families=P('seq'), explain='every path of every sequence combinator agrees with the reference definition of a sequence'),
    'C06': dict(families=P('choice', aspects=('runs', 'runpos', 'mode', 'mode_on', 'kind', 'lost', 'output', 'endpos', 'errors', 'panic', 'calls', 'spurious')),
                explain='every path of or, or_not and alters (2 and 3 alternatives, and 18 failing in several orders) agrees with the reference definition of a choice'),
    'C07': dict(families=P('choice', aspects=('findex', 'merge', 'panic')),
                explain='failure index and errors of every failing path of a choice agree with the reference definition'),
    'C08': dict(families=P('repeat'),
                explain='every run of items and separators on every path of every configuration of repeated and separated_by follows a reference '
                        'automaton (loops by fixpoint over symbolic counts and bounds), and so do the result, position and errors'),
    'C09': dict(families=P('matcher', aspects=('kind', 'output', 'endpos', 'panic', 'rewind', 'runs', 'mode_on')),
                explain='acceptance, output and consumed input of every path of every token matcher agree with its reference definition'),
    'C10': dict(families=P('matcher', aspects=('findex', 'report', 'span', 'empty', 'kind', 'panic')),
                explain='failure index and the error of every failing path of every token matcher agree with its reference definition'),
    'C11': dict(families=P('map'), explain='every path of every mapping combinator agrees with its reference definition'),
    'C12': dict(families=P('map', 'try_map', 'strategy', aspects=('span',)),
                explain='every span and location handed to a callback or scanner, on every path, is the specified pair of positions'),
    'C13': dict(families=P('try_map'), explain='every path of try_map agrees with its reference definition'),
    'C14': dict(families=P('to_recover'), explain='every path of to_recover agrees with its reference definition'),
    'C15': dict(families=P(*STRAT, aspects=('schild', 'sresult', 'panic')),
                explain='which inner strategies, parsers and actions run, in which order and with which state, and the value every path yields, agree '
                        'with the reference definition of every strategy combinator'),
    'C16': dict(families=P(*STRAT, aspects=('smove', 'panic')),
                explain='the input position on every path of every strategy combinator agrees with its reference definition'),
    'C17': dict(families=P(*STRAT, aspects=('serr', 'sfail', 'smode', 'panic')),
                explain='the error list, the recorded failure position and the mode parsers are run with agree with the reference definition on every path'),
    'C18': dict(families=P(*STRAT, 'matcher', aspects=('progress', 'panic')),
                explain='every iteration of every loop over input tokens starts at a later position than the one before and none starts at the end of input'),
    'C19': dict(families=P('delimiters'),
                explain='stops and errors of the scanner after every token, and at the end of input, of every sequence of delimiters of tables of one to three '
                        'types (in every way the delimiters of up to two types can coincide) up to six tokens (seven for one type) agree with the reference',
                assumptions=['scanning starts at an opening delimiter, as its documentation demands', 'tokens of at most one kind that is no delimiter, once']),
    'C20': dict(families=P('stream', aspects=('restore',)), explain=STREAM + 'every result after a restored position is the one of that position',
                assumptions=BOUNDS),
    'C21': dict(families=P('stream', aspects=('keep', 'grow')),
                explain=STREAM + 'every state still holds the tokens its live positions need, and no list grows while it holds what none needs', assumptions=BOUNDS),
    'C22': dict(families=P('stream', aspects=('once', 'ask', 'panic')),
                explain=STREAM + 'every token, index, span, flag and every question put to the source is the one of the reference position', assumptions=BOUNDS),
    'C23': dict(families=P('tracker') + P('stream', aspects=('tracker',)), assumptions=BOUNDS,
                explain='every advance of and question to the location tracker, in every state of the stream, is for the token it stands at; '
                        'row, column, offset, index and file name of every location and span of the rich tracker after texts of any length (loop fixpoint '
                        'over their characters), clones included, and the indices of the simple tracker, agree with a reference count on every path'),
    'C24': dict(families=P('entry'),
                explain='every path of the entry points, of any number of next() calls of a parser stream and of its tail (loop fixpoint) runs the parser '
                        'where and how it should and returns exactly its results'),
    'C25': dict(families=P('result'),
                explain='every accessor and conversion of a result, for each kind of result and error lists of any length, on every path'),
    'C27': dict(families=P('recursive'),
                explain='every way of declaring, cloning, defining and running a recursive parser agrees with its reference definition on every path'),
    'C28': dict(families=P('error'),
                explain='every constructor, accessor and merge of the simple error type, for every variant (pair of variants) and kind of location, on every path'),
    'C26': dict(families=[], custom=['effects.purity'],
                technique='effect analysis over the resolved call graph and the types of fields and captures; abstract interpretation of Clone impls',
                explain='no static that can change, no unsafe code, no call of anything outside the process or the arguments, no call that changes or compares '
                        'shared state held by a parser in any function reachable while parsing; clones of parsers and strategies equal the original'),
    'C29': dict(families=[], custom=['typespec.misuse'],
                technique='compile-fail witnesses with compiling twins, generic over token, parser and error types; rules over all impls and public signatures',
                explain='every program of a family that passes an incomplete strategy to to_recover, extends a complete one, or forges, copies or alters a saved '
                        'position is refused by the compiler for that reason; no impl or public function of the crate allows it'),
    'C31': dict(families=[], custom=['contspec.containers'],
                explain='the iterator of every implementation of Container, driven to its end twice (loop fixpoint over a symbolic number of items), yields '
                        'exactly the items in order on every path'),
    'C32': dict(families=P('terminate', 'strategy', 'matcher', 'seq', 'choice', 'delimiters', 'tracker', 'entry', 'result', 'stream', 'error', 'text', 'map', 'try_map', 'to_recover', 'recursive', aspects=('progress', 'stuck')),
                custom=['termspec.recursion'], skip=HEAVY,
                explain='ranking argument: every iteration of every loop over tokens or parser runs starts later in the input than the one before it (or the one '
                        'before that), given that a repeated item consumes something; no loop comes back to an unchanged state; the library calls itself only '
                        'through the parts a parser or strategy is built from',
                assumptions=['user-supplied parsers, callbacks, scanners and iterators return; a repeated item that matches consumes at least one token; a '
                             'recursive parser consumes one before it runs itself']),
    'C33': dict(families=P('text'),
                explain='the sequence of literal texts and displayed values written by every Display impl of errors, locations and spans, for every variant, '
                        'kind of location and size of the expected set, states every fact once and in order',
                assumptions=['Expected sets of up to 8, and of 12, 20 and 40 tokens, with and without the end of input at several places; '
                            'core::fmt writes pieces and arguments in the order of its template; tokens and locations display themselves.']),
    'C34': dict(families=[], custom=['valspec.values'],
                explain='equality of every pair of variants (all fields opaque or symbolic) of every type of the crate that has one, and the clone of every variant '
                        'of every result, error, location, span, tracker and scanner, on every path'),
    'C30': dict(families=P(*PARSERS, *STRAT, 'stream', 'delimiters', 'tracker', 'entry', 'result', 'error', 'text', aspects=('panic',)),
                skip=HEAVY,
                explain='no path of any combinator, matcher, strategy, scanner, tracker, entry point, accessor or rendering, and no history of documented '
                        'uses of the stream, reaches a panic other than the documented ones'),
}

TECHNIQUE = 'path-sensitive abstract interpretation of MIR (dataflow with loop fixpoints) against reference definitions'
NOTE = ('Static: every path of the MIR of the functions involved is interpreted over an abstract domain in which user parsers, callbacks, tokens and '
        'input are opaque, loops by fixpoint; nothing is executed. Trusts the reference definitions, the models of std, and the MIR dump. '
        'Paths the analysis cannot follow are reported as undecided in the evidence (none on the unchanged tree).')
NOT_APPLICABLE = {
}
