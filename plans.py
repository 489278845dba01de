"""What each check runs: builds, generators' modes, case counts, sweeps."""

# microseconds a case takes: optimised build, checked build, checked build with
# coverage feedback (measured on the unchanged tree)
COST = {
    'C01': (37, 94, 170), 'C02': (48, 420, 240), 'C03': (25, 44, 93), 'C04': (900, 11700, 6000),
    'C05': (14, 34, 110), 'C06': (275, 3800, 2650), 'C07': (146, 578, 706), 'C08': (1118, 1367, 4250),
    'C09': (17, 111, 87), 'C10': (3, 11, 10), 'C11': (75, 214, 530), 'C12': (2, 10, 11), 'C13': (3, 20, 12),
    'C14': (2, 10, 9), 'C15': (305, 2570, 626), 'C16': (47, 91, 148), 'C17': (86, 210, 220),
    'C18': (117, 231, 500), 'C19': (110, 235, 300), 'C21': (37, 73, 109), 'C23': (356, 1100, 1100),
    'C24': (19, 17, 65), 'C25': (59, 156, 193), 'C26': (85, 200, 320),
    'C27': (50, 110, 140), 'C28': (70, 200, 230), 'C29': (5, 11, 14), 'C30': (800, 1400, 1700),
    'C32': (55, 230, 190), 'C33': (430, 1780, 1450), 'C34': (300, 1980, 1350), 'C35': (92, 260, 220),
}
SWEEPS = {'C01', 'C03', 'C04', 'C05', 'C10', 'C11', 'C13', 'C15'}


def run(pid, flavor, mode, secs, cap, **kw):
    i = {'rel': 0, 'cov': 1 if mode == 'random' else 2}[flavor]
    return dict({'flavor': flavor, 'mode': mode, 'cases': int(min(cap, secs * 1e6 / COST[pid][i]))}, **kw)


SHORTER = {'C27', 'C28', 'C29', 'C30', 'C32', 'C33', 'C34', 'C35'}


def usual(pid):
    f = 0.6 if pid in SHORTER else 1
    return [
        run(pid, 'rel', 'random', 13 * f, 1500000, sweep='full' if pid in SWEEPS else 'no'),
        run(pid, 'cov', 'random', 8 * f, 300000),
        run(pid, 'cov', 'guided', 14 * f, 600000),
    ]


PLANS = {}
for _p in COST:
    PLANS[_p] = {'quick': usual(_p), 'thorough_factor': 25}

# memory errors the harness's own guards cannot see
PLANS['C02']['quick'].append({'flavor': 'asan', 'mode': 'random', 'cases': 40000})
PLANS['C15']['quick'].append({'flavor': 'asan', 'mode': 'random', 'cases': 8000})
PLANS['C18']['quick'].append({'flavor': 'asan', 'mode': 'random', 'cases': 15000})
PLANS['C19']['quick'].append({'flavor': 'asan', 'mode': 'random', 'cases': 40000})
PLANS['C19']['quick'].insert(0, {'flavor': 'miri', 'mode': 'random', 'cases': 40})
PLANS['C30']['quick'].append({'flavor': 'dbg', 'mode': 'random', 'cases': 600})
PLANS['C06']['thorough'] = [{'flavor': 'asan', 'mode': 'random', 'cases': 10000}]
PLANS['C16']['thorough'] = [{'flavor': 'asan', 'mode': 'random', 'cases': 20000}]
PLANS['C24']['thorough'] = [{'flavor': 'asan', 'mode': 'random', 'cases': 20000}]
PLANS['C25']['thorough'] = [{'flavor': 'asan', 'mode': 'random', 'cases': 20000}]
PLANS['C23']['quick'] += [
    {'flavor': 'tsan', 'mode': 'random', 'cases': 3000},
    {'flavor': 'asan', 'mode': 'random', 'cases': 5000},
]
PLANS['C23']['thorough'] = [{'flavor': 'miri', 'mode': 'random', 'cases': 20, 'workers': 4}]

PLANS['C22'] = {
    'quick': [
        {'flavor': 'edges', 'mode': 'random', 'cases': 3500, 'sweep': 'full'},
        {'flavor': 'rel', 'mode': 'random', 'cases': 100, 'workers': 4},
    ],
    'thorough_factor': 20,
}
PLANS['C31'] = {
    'quick': [{'flavor': 'edges', 'mode': 'random', 'cases': 2000, 'sweep': 'full'}],
    'thorough_factor': 20,
}
PLANS['C36'] = {
    'quick': [
        {'flavor': 'rel', 'mode': 'random', 'cases': 2000},
        {'flavor': 'cov', 'mode': 'random', 'cases': 700},
        {'flavor': 'tsan', 'mode': 'random', 'cases': 500},
        {'flavor': 'rel', 'mode': 'cold', 'secs': 40, 'cases': 8000, 'workers': 4},
        {'flavor': 'tsan', 'mode': 'cold', 'secs': 30, 'cases': 100},
    ],
    'thorough_factor': 25,
    'thorough': [{'flavor': 'miri', 'mode': 'random', 'cases': 6, 'workers': 4}],
}
PLANS['C37'] = {
    'quick': [
        {'flavor': 'wasm', 'mode': 'random', 'secs': 50, 'cases': 40000},
        {'flavor': 'wasm', 'mode': 'random', 'sweep': 'part', 'secs': 40, 'cases': 1, 'fixed': True},
        {'flavor': 'miri32', 'mode': 'random', 'secs': 50, 'cases': 100},
        {'flavor': 'miribe', 'mode': 'random', 'secs': 80, 'cases': 160},
        {'flavor': 'rel', 'mode': 'random', 'cases': 20000},
    ],
    'thorough': [{'flavor': 'wasm', 'mode': 'random', 'sweep': 'full', 'cases': 1, 'fixed': True, 'secs': 300}],
    'thorough_factor': 20,
}
PLANS['C38'] = {
    'quick': [
        {'flavor': 'rel', 'mode': 'random', 'secs': 40, 'cases': 6000, 'sweep': 'full'},
        {'flavor': 'cov', 'mode': 'random', 'secs': 30, 'cases': 1500},
        {'flavor': 'wasm', 'mode': 'random', 'secs': 20, 'cases': 400},
    ],
    'thorough_factor': 20,
    'thorough': [{'flavor': 'asan', 'mode': 'random', 'cases': 1000}],
}
PLANS['C20'] = {
    'quick': [{'flavor': 'rel', 'mode': 'random', 'cases': 60, 'case_secs': 200}],
    'thorough_factor': 15,
}
PLANS['C08']['level'] = 'fault_enumeration'
PLANS['C27']['level'] = 'fault_enumeration'
PLANS['C28']['level'] = 'fault_enumeration'
PLANS['C33']['level'] = 'fault_enumeration'
PLANS['C33']['thorough'] = [{'flavor': 'asan', 'mode': 'random', 'cases': 10000}, {'flavor': 'miri', 'mode': 'random', 'cases': 20}]
PLANS['C34']['thorough'] = [{'flavor': 'asan', 'mode': 'random', 'cases': 10000}]

ASSUME = [
    'the library is built and run on x86-64 Linux with Rust 1.99 (stable) or 1.101 nightly for the sanitizer builds',
    'the models and generators in /verif/harness are what the statement means',
    'nothing is claimed about inputs that were not generated',
]

_COMMON = ('Cases are drawn choice by choice from a seeded generator (random) or by mutating the choices of cases that reached new '
           'edges of the crate (guided); the choices are the fingerprint by which distinct cases are counted. ')
RULES = {
    'C01': 'Documents rendered from model values with varied spacing, escapes, number spellings and repeated keys; single mutations of them; texts over the token alphabet; two spellings of one value; sweeps over all short texts of an alphabet and over every byte at each grammar position. Judged by an independent recogniser and evaluator. Non-trivial: more than one node, an escape or a literal, or (mutations) a text that differs from the original.',
    'C02': 'Texts of every kind placed against unreadable pages, between different surroundings, and after other parses. Non-trivial: longer than one byte.',
    'C03': 'Refused texts: prefixes, single-character mutations and token soups with varied line ends and multi-byte characters, against the first offending character of an independent prefix-recogniser. Non-trivial: the offence is past the first character, or a text longer than one.',
    'C04': 'Nested documents around the limit with mixed containers and siblings, on threads with small stacks where it must be refused; sweeps over depths and shapes. Non-trivial: nesting of at least 2.',
    'C05': 'Strings around escapes and storage boundaries, as values and keys, in generated spellings; sweeps over all code points and lengths. Non-trivial: not empty (or, for spellings, with an escape).',
    'C06': 'Model values built through the API in varied ways, printed compact and pretty, parsed and printed again. Non-trivial: more than one node, or a number or string.',
    'C07': 'As C06 with every serialising entry point and indents, against an independent printer. Non-trivial: more than one node, or a number or string.',
    'C08': 'Values written to a scripted stream: partial writes, interruptions, zero writes and errors at every or a chosen position. Non-trivial: more than 4 bytes of text.',
    'C09': 'Literals with digits, points and exponents around the limits of 64-bit mantissas and 16-bit exponents, and respellings of one value, against exact decimal arithmetic. Non-trivial: longer than 1 or 2 characters.',
    'C10': 'Numbers from parts over signs, mantissas near powers of ten and two, and all exponents; a sweep over exponents and digit counts. Non-trivial: more than one digit or an exponent.',
    'C11': 'Floats by bit pattern, near powers and halfway points, decimals between neighbouring floats, against exact arithmetic and the standard library; all 2^32 f32 values. Non-trivial: not zero.',
    'C12': 'Pairs of numbers, or a number and a Rust number, equal by value in different splits or nearly equal, against exact decimal comparison. Non-trivial: neither is NaN or zero.',
    'C13': 'Integers of all widths around type boundaries, numbers in other splits, fractional and out of range. Non-trivial: not zero.',
    'C14': 'Numbers and points around the boundaries of the result types, against exact arithmetic. Non-trivial: mantissa not zero.',
    'C15': 'Histories of object operations with key pools that include colliding hashes and all storage forms, against a vector of pairs. Non-trivial: more than 2 operations.',
    'C16': 'Histories of container operations at random places inside a value, against a model value. Non-trivial: more than one operation.',
    'C17': 'Pairs of values equal or nearly equal, built in different ways, against model equality. Non-trivial: equal but built differently, or unequal of the same kind.',
    'C18': 'A value and its clone under separate histories, each against its own model. Non-trivial: more than one operation.',
    'C19': 'Plans of commands over several values, with panicking writers and iterators, under an allocator with guards, poison and a live-block count, AddressSanitizer and (small plans) Miri. Non-trivial: more than 2 commands.',
    'C20': 'Generated Rust programs of literals compiled against the crate, in the 2015 and 2018 editions; each program holds many literals, and the variables, constants and functions of the caller that they mention. Non-trivial: a literal of more than 2 nodes.',
    'C21': 'Values of nested Rust types converted, against the same contents as a model. Non-trivial: not null.',
    'C22': 'Repetitive documents of 24 kinds (sound or refused, any spacing) at size n and 64n; edges executed, bytes copied and bytes allocated must grow in proportion. Non-trivial: the larger text exceeds 4000 bytes.',
    'C23': 'Readers running generated read operations on one value in read-only memory, on several threads, and after a move; ThreadSanitizer build; a compile-time probe of Send and Sync. Non-trivial: more than 2 nodes.',
    'C24': 'Plans of front, back, nth and length steps over every iterator of a value, against a deque. Non-trivial: more than one step or node.',
    'C25': 'Reads and assignments through generated paths, against a model value. Non-trivial: more than one step.',
    'C26': 'Values of every type and representation with every predicate and accessor, against the model. Non-trivial: not null.',
    'C27': 'Values through four user-written generators, each overriding other hooks and choosing separators, against a renderer over the model; then again with a hook or write failing at three calls. Non-trivial: more than one node.',
    'C28': 'Display and Debug of values, numbers, short strings and errors, with widths, into sinks that take everything or fail after any byte; errors from failed operations and broken texts. Non-trivial: more than one node, a number, a string or an error.',
    'C29': 'Numbers from parts, floats, integers, literals and negation, NaN included, against sign and value of the exact decimal. Non-trivial: neither NaN nor zero.',
    'C30': 'Values nested up to 512 levels in mixed containers, each operation on a thread with 2 MiB of stack, against the model, optimised and not. Non-trivial: nesting of at least 2.',
    'C32': 'Empty objects, strings of at most 30 bytes, objects with room for n entries, cleared objects, values taken from any place; blocks asked of the allocator while the operation runs are counted, and addresses compared. Non-trivial: all but a history that leaves no object to clear.',
    'C33': 'Twenty kinds of call that run the caller\'s code (writer, formatter, generator hooks, iterator, key, conversion, clone, comparison), repeated with a panic at each callback (24 of them when there are more), under the checking allocator, against the model. Non-trivial: more than one callback.',
    'C34': 'The same calls with callbacks that parse, refuse, print, change and build values, print the outer value, or make such a call again, against the model inside and outside. Non-trivial: at least one callback ran such a task.',
    'C35': 'Sequences of calls of every Generator method on the four generators of the crate, several on one stream, at levels up to thousands, against the concatenation of what each call means. Non-trivial: more than two calls.',
    'C36': '2 to 6 threads at once, each with its own tasks of C34, for some rounds and at its end, or all beginning with the same task at the same instant, each time in a new process that has not used the library (cold); ThreadSanitizer build. Every case is non-trivial.',
    'C37': 'A case of one of 29 other properties (texts, strings, printing, streams, numbers, objects, equality, clones, conversions, iterators, paths, memory, callbacks), run with its own oracle: compiled for 32-bit WebAssembly (with the sweeps of those properties), and with at most 120 choices on an interpreted 32-bit little-endian machine and an interpreted 64-bit big-endian one. Non-trivial: as that property says.',
    'C38': 'Strings, keys, arrays, objects, runs of space and rows of containers whose sizes lie around powers of two from 2^7 to 2^20, read, built, printed, streamed, cloned, compared, changed and broken at a chosen place, against the model. Every case is non-trivial.',
    'C31': '22 operations on n and 64 n things with five families of keys, in order or shuffled; edges executed, bytes copied and bytes allocated must grow in proportion, apart from the depth of the tree. Every case is non-trivial: at least 150 things.',
}
RULES = {k: _COMMON + v for k, v in RULES.items()}
