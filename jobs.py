"""What each property's check explores."""


class Job:
    def __init__(self, entry, params=(), about='', bounds='', reach=(), tier='quick', workers=8, timeout=600, validate=8, **opts):
        self.entry, self.params, self.about, self.bounds = entry, tuple(params), about, bounds
        self.reach, self.tier, self.workers, self.timeout, self.validate = reach, tier, workers, timeout, validate
        self.opts = {k.replace('_', '-'): v for k, v in opts.items()}
        self.name = entry + ('(' + ','.join(map(str, params)) + ')' if params else '')


ASSUMPTIONS = [
    'the compiler (rustc to LLVM IR at opt-level 1, with overflow and debug assertions on) and z3 are correct',
    'the symbolic executor models the IR faithfully; sampled paths are re-run on the native build of the same IR and must give the same output',
    'allocation never fails, and text printed to stdout is discarded',
]

PROPS = {}


def prop(pid, jobs, **kw):
    PROPS[pid] = dict(kw, jobs=jobs)


def jobs(pid, tier):
    return [j for j in PROPS[pid]['jobs'] if tier == 'thorough' and j.tier != 'quick-only' or j.tier in ('quick', 'quick-only')]


prop('C03', [
    Job('h_range_preds', reach=[1, 2], about='membership, overlap, disjointness, single-character and byte ranges', bounds='two ranges with any 32-bit bounds, any character'),
    Job('h_partition', (1,), reach=[0, 1], about='splitting one range', bounds='any 32-bit bounds'),
    Job('h_partition', (2,), reach=[0, 1, 2, 3], about='splitting two ranges', bounds='any 32-bit bounds'),
    Job('h_partition', (3,), reach=[0, 1, 2, 3, 4, 5], about='splitting three ranges', bounds='any 32-bit bounds'),
    Job('h_partition', (4, 0, 1), reach=[1, 7], about='splitting four distinct ranges', bounds='any 32-bit bounds'),
    Job('h_partition', (5, 0, 1), reach=[1, 9], tier='thorough', timeout=3000, about='splitting five distinct ranges', bounds='any 32-bit bounds'),
], bounds='up to 4 (thorough: 5) ranges of any bounds', outside='more ranges')

EXPR = {0: 'a literal', 1: 'literals and ranges', 2: 'literals, ranges and the empty expression', 3: 'literals, one- and two-range classes and the empty expression', 4: 'also negated classes'}
CHARS = {0: 'any Unicode characters', 1: 'ASCII characters', 2: 'characters below U+0008', 3: '22 characters where the length of a number or of an encoding changes', 4: '12 characters that mean something in TypeScript', 5: 'quotes and backslashes'}


def exprs(l, u, k, m): return 'all expressions of up to %d leaves (%s) with up to %d unary operators per node; %s' % (l, EXPR[k - 1], u, CHARS[m])


def auto(entry, l, u, k, m, n, **kw):
    b = ('20 fixed patterns; ' + CHARS[m] if l == 0 else exprs(l, u, k, m)) + '; strings of up to %d characters' % n
    return Job(entry, (l, u, k, m, n), about='automaton against matcher', bounds=b, reach=[0, 1], **kw)


for pid, entry in (('C01', 'h_nfa'), ('C02', 'h_dfa')):
    dfa = pid == 'C02'
    T = dict(tier='thorough', timeout=6000)
    prop(pid, [
        auto(entry, 1, 2, 5, 0, 2),
        auto(entry, 2, 1, 3, 0, 2),
        auto(entry, 2, 1, 3, 1, 2),
        auto(entry, 3, 1, 1, 1, 3),
        auto(entry, 0, 0, 0, 1, 3),
        auto(entry, 0, 0, 0, 0, 2),
        auto(entry, 2, 2, 2, 1, 2, **(T if dfa else {})),
        auto(entry, 2, 1, 5, 1, 3, **T),
        auto(entry, 3, 1, 2, 1, 3, **T),
        auto(entry, 4, 1, 1, 1, 3, **T),
        auto(entry, 2, 2, 3, 0, 2, **T),
        auto(entry, 0, 0, 0, 0, 5, **T),
    ], bounds='expressions of up to 3 (thorough: 4) leaves and strings of up to 3 characters, and 20 fixed patterns; see the jobs', outside='larger expressions, longer strings, counted repetitions, anchors and look-around')


def lexjob(entry, n, l, u, k, m, ln, vm=0, reach=(0, 1, 2), **kw):
    b = ('%d fixed token sets' % 11 if n == 0 else '%d tokens, each any of: %s' % (n, exprs(l, u, k, m))) + '; inputs of up to %d characters, %s' % (ln, CHARS[m])
    return Job(entry, (n, l, u, k, m, ln, vm), about='tokens against longest match by the matcher', bounds=b, reach=reach, **kw)


T = dict(tier='thorough', timeout=6000)
prop('C04', [
    lexjob('h_lex', 0, 0, 0, 0, 1, 4, reach=(0, 1, 2, 3, 4, 10, 11)),
    lexjob('h_lex', 0, 0, 0, 0, 0, 3),
    lexjob('h_lex', 1, 2, 1, 2, 1, 2),
    lexjob('h_lex', 1, 2, 0, 2, 0, 2),
    lexjob('h_lex', 2, 2, 0, 1, 1, 3, reach=(0, 1, 2, 3, 10, 11)),
    lexjob('h_lex', 2, 1, 1, 2, 1, 2),
    lexjob('h_lex', 0, 0, 0, 0, 0, 4, **T),
    lexjob('h_lex', 1, 2, 1, 2, 1, 3, **T),
    lexjob('h_lex', 2, 1, 1, 2, 1, 3, **T),
    lexjob('h_lex', 2, 2, 0, 2, 1, 3, **T),
    lexjob('h_lex', 3, 1, 1, 1, 1, 3, **T),
    lexjob('h_lex', 2, 3, 0, 1, 1, 5, **T),
    lexjob('h_lex', 0, 0, 0, 0, 1, 6, **T),
], bounds='one or two tokens of up to 2 leaves each (or 11 fixed sets of up to 8 tokens) and inputs of up to 4 characters; see the jobs', outside='larger token sets, longer inputs')
prop('C05', [
    lexjob('h_lex_values', 0, 0, 0, 0, 1, 4, reach=(0, 1, 2, 3, 4)),
    lexjob('h_lex_values', 0, 0, 0, 0, 0, 3, reach=(0, 1, 2, 3)),
    lexjob('h_lex_values', 2, 2, 0, 1, 1, 3, 1, reach=(0, 1, 2, 3)),
    lexjob('h_lex_values', 2, 1, 0, 2, 0, 2, 1),
    lexjob('h_lex_values', 2, 1, 1, 2, 0, 2, 1, **T),
    lexjob('h_lex_values', 0, 0, 0, 0, 0, 4, 1, **T),
    lexjob('h_lex_values', 2, 1, 1, 2, 1, 3, 1, **T),
    lexjob('h_lex_values', 1, 2, 1, 2, 0, 2, **T),
], bounds='one or two tokens of up to 2 leaves each (or 11 fixed sets of up to 8 tokens) and inputs of up to 4 characters; see the jobs', outside='larger token sets, longer inputs')

NG = 33
SH = 'every way to fill the holes of grammar shape%s %s in harness/src/grammar.rs (each hole: any nonterminal, a terminal with any one-byte text, or nothing; terminals may coincide in any way and have any order)'
TG = dict(tier='thorough', timeout=6000)


def pjob(entry, a, n, ln, mode, reach, about, **kw):
    return Job(entry, (a, n, ln, mode), about=about, bounds='%s of harness/src/parse.rs with their holes filled in every way; texts of up to %d characters, %s' % ('grammars %d to %d' % (a, a + n - 1), ln, CHARS[mode]), reach=reach, **kw)


def gjob(entry, a, n, mode, reach, about, *more, **kw):
    b = SH % ('s' if n > 1 else '', '%d to %d' % (a, a + n - 1) if n > 1 else str(a))
    if mode & 1: b += '; any symbol with a binding name or without'
    if mode & 2: b += '; any nonterminal as start'
    if more: b += '; sequences of up to %d terminals' % more[0]
    return Job(entry, (a, n, mode) + more, about=about, bounds=b, reach=reach, **kw)


GO = 'larger grammars than the shapes allow; terminal texts of more than one byte'
L = 'rules, symbols and lookups against the written grammar'
prop('C08', [
    gjob('h_lower', 0, NG, 2, (1, 2, 3, 4, 5, 6, 7, 8, 9), L),
    gjob('h_lower', 0, 6, 1, (1, 2, 3), L),
    gjob('h_lower', 6, 15, 1, (3, 6), L, **TG),
    gjob('h_lower', 33, 2, 2, (1, 2), L, **TG),
], bounds='all grammars of 33 shapes with holes (1 to 5 nonterminals, up to 13 rules)', outside=GO)
L = 'FIRST of every rest of a rule, alone and followed by a terminal'
prop('C09', [
    gjob('h_first', 0, NG, 2, (0, 1, 2, 3, 100, 101), L),
    gjob('h_first', 33, 2, 2, (0, 1, 2, 3, 100, 101), L, **TG),
], bounds='all grammars of 33 shapes with holes (1 to 5 nonterminals, up to 13 rules)', outside=GO)
L = 'the collection of item sets against a plain LR(1) construction'
prop('C10', [
    gjob('h_items', 0, NG, 0, (0, 1), L),
    gjob('h_items', 0, 24, 2, (0, 1), L, **TG),
    gjob('h_items', 33, 2, 0, (0, 1), L, **TG),
], bounds='all grammars of 33 shapes with holes (1 to 5 nonterminals, up to 13 rules)', outside=GO)
L = 'merged states against the union of the states with the same core'
prop('C11', [
    gjob('h_merge', 0, NG, 0, (0, 1), L),
    gjob('h_merge', 0, 24, 2, (0, 1), L, **TG),
    gjob('h_merge', 33, 2, 0, (0, 1), L, **TG),
], bounds='all grammars of 33 shapes with holes (1 to 5 nonterminals, up to 13 rules)', outside=GO)
L = 'running the tables, against all sentences'
prop('C12', [
    gjob('h_accept', 0, 30, 0, (0, 1, 9), L, 4),
    gjob('h_accept', 30, 3, 0, (0, 1), L, 7),
    gjob('h_accept', 35, 4, 0, (0, 1), L, 8),
    pjob('h_parse', 15, 1, 7, 1, (0, 1, 2), 'the built-in parser running its tables'),
    pjob('h_parse', 16, 2, 7, 1, (0, 1, 2), 'the built-in parser running its tables'),
    pjob('h_parse', 18, 1, 6, 1, (0, 1, 2), 'the built-in parser running its tables'),
    gjob('h_accept', 0, 24, 2, (0, 1, 9), L, 7, **TG),
    gjob('h_accept', 24, 4, 0, (0, 1, 9), L, 7, **TG),
    gjob('h_accept', 31, 2, 0, (0, 1), L, 12, **TG),
    gjob('h_accept', 30, 1, 0, (0, 1), L, 9, **TG),
    gjob('h_accept', 33, 2, 0, (0, 1, 9), L, 4, **TG),
    gjob('h_accept', 35, 4, 0, (0, 1), L, 11, **TG),
], bounds='all grammars of 33 shapes with holes, and sequences of up to 4 terminals (8 for seven larger grammars)', outside=GO + '; longer sequences')
L = 'the tables and conflicts against a plain LALR(1) construction'
prop('C13', [
    gjob('h_tables', 0, NG, 0, (0, 1), L),
    gjob('h_tables', 0, 24, 2, (0, 1), L, **TG),
    gjob('h_tables', 33, 2, 0, (0, 1), L, **TG),
], bounds='all grammars of 33 shapes with holes (1 to 5 nonterminals, up to 13 rules)', outside=GO + '; grammars that use a nonterminal they do not define')

def term(nq, ln, pats, n, mode, reach=(1, 3), **kw):
    p = {0: 'no patterns', 9: '7 sets of patterns'}[pats]
    return Job('h_terms', (nq, ln, pats, n, mode), about='tokens and their terminals against longest match', bounds='%d quoted terminals of up to %d characters each, %s, inputs of %d characters; %s' % (nq, ln, p, n, CHARS[mode]), reach=reach, **kw)


prop('C06', [
    term(1, 1, 0, 1, 1),
    term(1, 2, 9, 2, 1, (1, 2, 3, 8)),
    term(2, 1, 9, 2, 1, (1, 2, 3, 8)),
    term(1, 1, 9, 2, 0, (1, 2, 3, 8)),
    term(2, 2, 0, 3, 1),
    term(1, 3, 9, 3, 1, (1, 2, 3, 8), **TG),
    term(1, 2, 9, 3, 0, (1, 2, 3, 8), **TG),
    term(2, 2, 9, 3, 1, (1, 2, 3, 8), **TG),
    term(3, 1, 9, 3, 1, (1, 2, 3, 8), **TG),
    term(1, 4, 0, 4, 1, **TG),
], bounds='up to 2 quoted terminals of up to 2 characters (thorough: 3 terminals, 4 characters) with 7 sets of patterns, inputs of up to 3 characters (thorough: 4)', outside='longer texts, other patterns')



L = 'acceptance or a correct invalid-token report'
prop('C14', [
    pjob('h_stop', 0, 12, 4, 1, (1, 2, 3, 9), L),
    pjob('h_stop', 12, 3, 4, 1, (1, 2, 3), L),
    pjob('h_stop', 15, 1, 7, 1, (1, 2, 3), L),
    pjob('h_stop', 16, 2, 7, 1, (1, 2, 3), L),
    pjob('h_stop', 18, 1, 6, 1, (1, 2, 3), L),
    pjob('h_stop', 0, 15, 3, 0, (1, 2, 9), L + ' (of the report, only that it is one)'),
    pjob('h_stop', 0, 12, 6, 1, (1, 2, 3, 9), L, **TG),
    pjob('h_stop', 12, 3, 6, 1, (1, 2, 3), L, **TG),
    pjob('h_stop', 15, 1, 10, 1, (1, 2, 3), L, **TG),
    pjob('h_stop', 16, 2, 10, 1, (1, 2, 3), L, **TG),
    pjob('h_stop', 0, 15, 5, 0, (1, 2, 9), L + ' (of the report, only that it is one)', **TG),
], bounds='15 grammars with holes and texts of up to 4 characters (thorough: 6), four more with texts of up to 7 (thorough: 10)', outside='other grammars, longer texts; grammars in which some nonterminal derives no sentence')
L = 'acceptance against reference lexing and all sentences'
prop('C15', [
    pjob('h_parse', 0, 12, 5, 1, (0, 1, 2, 9), L),
    pjob('h_parse', 12, 3, 4, 1, (0, 1, 2), L),
    pjob('h_parse', 15, 1, 7, 1, (0, 1, 2), L),
    pjob('h_parse', 16, 2, 7, 1, (0, 1, 2), L),
    pjob('h_parse', 18, 1, 6, 1, (0, 1, 2), L),
    pjob('h_parse', 0, 15, 3, 0, (0, 1, 2, 9), L),
    pjob('h_parse', 0, 12, 7, 1, (0, 1, 2, 9), L, **TG),
    pjob('h_parse', 12, 3, 7, 1, (0, 1, 2), L, **TG),
    pjob('h_parse', 15, 1, 10, 1, (0, 1, 2), L, **TG),
    pjob('h_parse', 16, 2, 10, 1, (0, 1, 2), L, **TG),
    pjob('h_parse', 0, 15, 5, 0, (0, 1, 2, 9), L, **TG),
], bounds='15 grammars with holes and texts of up to 5 characters (thorough: 7), four more with texts of up to 7 (thorough: 10)', outside='other grammars, longer texts')

def lgjob(n, l, u, k, m, ln, nm, reach=(0, 1), **kw):
    b = ('6 fixed token sets' if n == 0 else '%d tokens, each any of: %s' % (n, exprs(l, u, k, m))) + '; texts of up to %d characters, %s' % (ln, CHARS[0 if m > 2 else m])
    if nm: b += '; first name of up to %d characters, %s' % (nm, CHARS[m])
    return Job('h_lexgen', (n, l, u, k, m, ln, nm), about='the generated module, read back and run, against the matcher', bounds=b, reach=reach, **kw)


prop('C16', [
    lgjob(0, 0, 0, 0, 0, 3, 0),
    lgjob(0, 0, 0, 0, 0, 1, 1),
    lgjob(0, 0, 0, 0, 1, 1, 2),
    lgjob(0, 0, 0, 0, 4, 1, 2),
    lgjob(1, 1, 1, 4, 2, 2, 0),
    lgjob(1, 1, 0, 3, 3, 2, 0),
    lgjob(1, 2, 0, 2, 2, 3, 0),
    lgjob(2, 1, 1, 2, 2, 2, 0),
    lgjob(0, 0, 0, 0, 0, 4, 0, **TG),
    lgjob(0, 0, 0, 0, 0, 1, 2, **TG),
    lgjob(1, 1, 0, 4, 3, 1, 0, **TG),
    lgjob(1, 2, 0, 2, 3, 1, 0, **TG),
    lgjob(2, 1, 0, 4, 2, 2, 0, **TG),
    lgjob(1, 2, 1, 2, 2, 3, 0, **TG),
    lgjob(1, 1, 1, 2, 0, 2, 0, **TG),
], bounds='6 fixed token sets with names of up to 2 characters, and one or two tokens of up to 2 leaves; texts of up to 3 characters', outside='larger token sets; bounds of classes other than those of the characters listed; TypeScript beyond literal type declarations')


def pgjob(a, n, mode, nm, m, reach, **kw):
    b = SH % ('s' if n > 1 else '', '%d to %d' % (a, a + n - 1) if n > 1 else str(a))
    b = b.replace('with any one-byte text', 'with a text of up to %d characters, %s' % (nm, CHARS[m] + (' in the first, quotes and backslashes in the others' if m < 2 else '')))
    return Job('h_parsegen', (a, n, mode, nm, m), about='the generated tables, read back, against grammar and tables', bounds=b, reach=reach, **kw)


prop('C17', [
    pgjob(0, 1, 0, 3, 4, (0,)),
    pgjob(1, 1, 0, 1, 0, (0,)),
    pgjob(3, 1, 0, 1, 0, (1,)),
    pgjob(3, 6, 0, 1, 5, (1,)),
    pgjob(9, 6, 0, 1, 5, (1,)),
    pgjob(15, 8, 0, 1, 5, (1, 8)),
    pgjob(15, 1, 0, 1, 0, (1,)),
    pgjob(1, 3, 0, 1, 4, (1,), **TG),
    pgjob(4, 1, 0, 1, 0, (1,), **TG),
    pgjob(0, 1, 0, 2, 1, (0,), **TG),
    pgjob(0, 6, 0, 1, 4, (0, 1), **TG),
    pgjob(16, 3, 0, 1, 0, (1,), **TG),
    pgjob(24, 11, 0, 1, 5, (1,), **TG),
    pgjob(0, 6, 2, 1, 5, (1,), **TG),
    pgjob(6, 15, 2, 1, 5, (1,), **TG),
], bounds='all grammars of 21 shapes with holes and terminal texts of up to 3 characters', outside='other grammars, longer texts')

PL = {0: 'names of productions', 1: 'quoted terminals', 2: 'patterns', 3: 'types', 4: 'action code', 5: 'binding names', 6: 'the layout at any one place'}


def rjob(place, n, mode, reach=(0, 1), **kw):
    return Job('h_read_text', (place, n, mode), about=PL[place] + ': the tree against the text', bounds='a file of two productions; up to %d characters, %s' % (n, CHARS[mode]), reach=reach, **kw)


def sjob(slots, marks, **kw):
    return Job('h_read', (slots, marks), about='productions, alternatives, symbols and marks: the tree against the text', reach=(1,),
               bounds='files of two productions of up to two alternatives, up to %d of their symbols of any kind, named or not%s' % (bin(slots).count('1'), '; marks, trailing commas and alternatives there or not' if marks else ''), **kw)


prop('C07', [
    sjob(7, 1),
    sjob(16 + 3, 0),
    sjob(8 + 4, 1),
    rjob(0, 2, 1, (1, 2)),
    rjob(1, 2, 1, (0, 1, 2)),
    rjob(2, 2, 1, (0, 1, 2)),
    rjob(3, 2, 1, (0, 1, 2)),
    rjob(4, 2, 1, (0, 1, 2)),
    rjob(5, 2, 1, (1, 2)),
    rjob(6, 1, 0),
    rjob(6, 2, 1, (0, 1, 2)),
    rjob(1, 2, 3, (0, 1, 2)),
    rjob(2, 2, 3, (0, 1, 2)),
    rjob(3, 2, 3, (0, 1, 2)),
    rjob(4, 2, 3, (0, 1, 2)),
    sjob(27, 1, tier='thorough', timeout=3000),
    sjob(31, 1, tier='thorough', timeout=6000),
    rjob(0, 4, 1, (1, 2, 3, 4), tier='thorough', timeout=3000),
    rjob(5, 4, 1, (1, 2, 3, 4), tier='thorough', timeout=3000),
    rjob(1, 1, 0, tier='thorough', timeout=3000),
    rjob(2, 1, 0, tier='thorough', timeout=3000),
    rjob(3, 1, 0, tier='thorough', timeout=3000),
    rjob(4, 1, 0, tier='thorough', timeout=3000),
    rjob(1, 3, 1, (0, 1, 2, 3), tier='thorough', timeout=6000),
    rjob(4, 3, 1, (0, 1, 2, 3), tier='thorough', timeout=6000),
    rjob(6, 2, 0, (0, 1, 2), tier='thorough', timeout=3000),
], bounds='files of two productions of up to two alternatives with up to three symbols; names, texts and code of up to 2 characters (thorough: 4), white space of up to 2 characters at any one place', outside='larger files; names r, export and start, which the language reserves; code of more than one line, and two pieces of code on one line (code reaches to the last parenthesis of its line); files that are not well-formed')

prop('C19', [
    Job('h_arith', (0, 24), reach=[0, 1], about='tables of every size from 0 to 24', bounds='sizes 0 to 24'),
    Job('h_arith', (97, 102), reach=[1], about='tables around 100 numbers', bounds='sizes 97 to 102'),
    Job('h_arith', (997, 1003), reach=[1], about='tables around 1000 numbers', bounds='sizes 997 to 1003'),
    Job('h_arith', (25, 130), reach=[1], tier='thorough', timeout=3000, about='tables of 25 to 130 numbers', bounds='sizes 25 to 130'),
    Job('h_arith', (4999, 5001), reach=[1], tier='thorough', timeout=3000, about='tables of about 5000 numbers', bounds='sizes 4999 to 5001'),
], bounds='table sizes 0 to 24, 97 to 102 and 997 to 1003 (thorough: also 25 to 130 and 4999 to 5001)', outside='other sizes')

TT = dict(tier='thorough', timeout=3000)
TB = 'rules with every mix of named and unnamed symbols'


def tgjob(entry, a, n, mode, nm, m, *tok, reach, about, **kw):
    b = SH % ('s' if n > 1 else '', '%d to %d' % (a, a + n - 1) if n > 1 else str(a))
    b = b.replace(' with any one-byte text', ' with a text of up to %d characters, %s' % (nm, CHARS[m]) if nm else '')
    if tok: b += '; lists of up to %d tokens' % tok[0]
    if len(tok) > 1: b += ' behind up to %d in turn' % tok[1]
    if entry == 'h_actions': b += '; every choice of named symbols in one rule; token values of one character of any kind; at most one symbol of the stack of another kind or type'
    return Job(entry, (a, n, mode, nm, m) + tok, about=about, bounds=b, reach=reach, **kw)


A = 'the generated action types, read back and evaluated, against the rule'
prop('C18', [
    tgjob('h_actions', 39, 1, 4, 0, 1, reach=(0, 1, 2), about=A),
    tgjob('h_actions', 41, 1, 4, 0, 1, reach=(0, 1, 2), about=A),
    tgjob('h_actions', 40, 1, 4, 1, 1, reach=(0, 1, 2), about=A),
    tgjob('h_actions', 39, 1, 20, 0, 1, reach=(0, 1, 2), about=A + ' (rules with the same code and names)'),
    tgjob('h_actions', 40, 1, 20, 1, 1, reach=(0, 1, 2), about=A + ' (rules with the same code and names)'),
    tgjob('h_actions', 41, 1, 20, 0, 1, reach=(0, 1, 2), about=A + ' (rules with the same code and names)'),
    tgjob('h_actions', 40, 1, 4, 1, 4, reach=(0, 1, 2), about=A, **TT),
    tgjob('h_actions', 3, 1, 4, 1, 1, reach=(0, 1, 2), about=A, **TT),
    tgjob('h_actions', 35, 3, 4, 0, 1, reach=(0, 1, 2), about=A, **TT),
], bounds='all grammars of three shapes with holes (thorough: seven), rules of up to four symbols with any of them named', outside='other grammars; names that are reserved words or names of the generated module; action code beyond the tuples the harness writes')

N = Job('h_tnum', (48, 48, 300), about='number helpers of ts/util.ts against arithmetic', bounds='all pairs of numbers below 48, tables of 300 numbers', reach=(1, 2, 3, 4, 5, 6, 7, 8, 9))


def tlex(a, n, ln, mode, size, reach=(0, 1, 2, 3), **kw):
    return Job('h_tlex', (a, n, ln, mode, size), about='ts/lex.ts over the generated module, evaluated, against reference lexing and the built-in lexer',
               bounds='token set%s of 11; texts of up to %d characters, %s; tables of %d numbers' % ('s %d to %d' % (a, a + n - 1) if n > 1 else ' %d' % a, ln, 'ASCII' if mode else 'any of U+0000 to U+00FF', size), reach=reach, **kw)


prop('C20', [
    tlex(0, 11, 3, 1, 300),
    tlex(0, 11, 2, 0, 300),
    tlex(10, 1, 2, 0, 300),
    N,
    tlex(0, 11, 4, 1, 300, **TT),
    tlex(0, 11, 3, 0, 300, **TT),
    tlex(0, 5, 5, 1, 300, **TT),
    tlex(0, 11, 1, 0, 5000, **TT),
], bounds='11 fixed token sets and texts of up to 3 (thorough: 5) characters', outside='other token sets, longer texts, characters beyond U+00FF; tables of another size than 300 (thorough: 5000) numbers; limits of the TypeScript compiler (instantiation depth and count)')

A = 'ts/parse.ts over the generated module, evaluated, against reference tables and the tree of the actions'
prop('C21', [
    tgjob('h_tparse', 39, 1, 8, 0, 1, 5, reach=(0, 1), about=A),
    tgjob('h_tparse', 41, 1, 8, 0, 1, 4, reach=(0, 1), about=A),
    tgjob('h_tparse', 18, 1, 8, 0, 1, 5, reach=(0, 1), about=A),
    tgjob('h_tparse', 30, 2, 8, 0, 1, 3, reach=(0, 1), about=A),
    tgjob('h_tparse', 8, 2, 8, 1, 1, 3, reach=(0, 1), about=A),
    tgjob('h_tparse', 3, 1, 8, 1, 1, 2, reach=(0, 1), about=A),
    tgjob('h_tparse', 0, 6, 8, 1, 1, 2, reach=(0, 1), about=A),
    tgjob('h_tparse', 42, 1, 8, 0, 1, 2, 25, reach=(0, 1, 3), about=A),
    tgjob('h_tparse', 35, 4, 8, 0, 1, 5, reach=(0, 1), about=A, **TT),
    tgjob('h_tparse', 18, 1, 8, 0, 1, 9, reach=(0, 1), about=A, **TT),
    tgjob('h_tparse', 39, 3, 8, 0, 1, 7, reach=(0, 1), about=A, **TT),
    tgjob('h_tparse', 0, 15, 8, 1, 1, 3, reach=(0, 1), about=A, **TT),
], bounds='all grammars of 14 shapes with holes and lists of up to 5 tokens', outside='other grammars, longer lists; parses of more steps than the parser\'s own limit of 50; limits of the TypeScript compiler')

prop('C22', [
    N,
    Job('h_tlist', (8,), about='list and string helpers of ts/util.ts', bounds='lists and strings of up to 8 elements of any value', reach=(1, 2, 3, 4, 5, 6)),
    Job('h_tnum', (130, 130, 256), about='number helpers of ts/util.ts against arithmetic', bounds='all pairs of numbers below 130, tables of 256 numbers', reach=(1, 2, 3, 4, 5, 6, 7, 8, 9), **TT),
    Job('h_tlist', (16,), about='list and string helpers of ts/util.ts', bounds='lists and strings of up to 16 elements of any value', reach=(1, 2, 3, 4, 5, 6), **TT),
], bounds='numbers below 48 (thorough: 130), lists and strings of up to 8 (thorough: 16) elements', outside='larger numbers, longer lists')

prop('C23', [
    Job('h_match_order', reach=[1], about='order of two or three character ranges', bounds='any 32-bit bounds'),
    Job('h_symbol_order', (1,), reach=[1, 2], about='order of three grammar symbols', bounds='texts of up to 1 byte'),
    Job('h_symbol_order', (2,), reach=[1, 2], about='order of three grammar symbols', bounds='texts of up to 2 bytes'),
    Job('h_symbol_set', (3,), reach=[1, 2, 3], about='ordered set of symbols', bounds='3 symbols'),
    Job('h_input_symbol_order', (0,), reach=[1], about='order of three written symbols', bounds='empty texts'),
    Job('h_input_symbol_order', (1,), reach=[1], about='order of three written symbols', bounds='texts of up to 1 byte'),
    Job('h_symbol_order', (3,), reach=[1, 2], tier='thorough', timeout=3000, about='order of three grammar symbols', bounds='texts of up to 3 bytes'),
    Job('h_symbol_set', (4,), reach=[1, 2, 3, 4], tier='thorough', timeout=3000, about='ordered set of symbols', bounds='4 symbols'),
    Job('h_input_symbol_order', (2,), reach=[1], tier='thorough', timeout=3000, about='order of three written symbols', bounds='texts of up to 2 bytes'),
], bounds='three symbols with texts of up to 2 bytes, ranges with any bounds', outside='longer texts')

prop('C24', [
    Job('h_option', reach=[1, 2], about='optional indices', bounds='every 64-bit value'),
    Job('h_table', (2, 0), reach=[0, 1], about='2 stores', bounds='any cells, any values'),
    Job('h_table', (3, 0), reach=[0, 1], about='3 stores', bounds='any cells, any values'),
    Job('h_table', (3, 1), reach=[0, 1], about='3 stores', bounds='any cells, any values'),
    Job('h_table', (5, 0), reach=[0, 1], tier='thorough', timeout=3000, about='5 stores', bounds='any cells, any values'),
    Job('h_table', (5, 1), reach=[0, 1], tier='thorough', timeout=3000, about='5 stores', bounds='any cells, any values'),
], bounds='every index value; sequences of up to 3 (thorough: 5) stores', outside='longer sequences of stores')
