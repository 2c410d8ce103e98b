"""Rewrites the per-property part of DESIGN.md (between the two markers) from registry.py."""
import os, re, registry, json

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BEYOND = {
    'C01': 'The unit tests run a dozen fixed patterns on one or two strings each; expressions and strings are both unbounded and most tests never check a rejected string.',
    'C02': 'Tests print or compare one or two hand-made range sets; overlap patterns of three and more ranges across tokens are a combinatorial space.',
    'C03': 'The tests lex about ten strings that need no backtracking; the property quantifies over token sets and inputs, and the failures need a longer token that is started and then abandoned, possibly at the end of the input.',
    'C04': 'Tests contain one keyword/identifier overlap; ties depend on the numbering of automaton states for the whole token set.',
    'C05': 'The tests use ASCII inputs only, so character/byte confusions cannot show; values are compared in a handful of cases.',
    'C06': 'Tests only feed fully lexable inputs and never check what happens to a rest that cannot be lexed.',
    'C07': 'The tests use about ten different literals; each punctuation character and combination is a separate case.',
    'C08': 'Tests parse about ten grammars and mostly print the result.',
    'C09': 'The tests print the lowered grammar for a few examples without comparing it.',
    'C10': 'Tests compute FIRST for two or three grammars and never for recursive ones.',
    'C11': 'Tests compare tables of one textbook grammar; merging, lookahead and renumbering errors need particular shapes of grammars.',
    'C12': 'Tests contain no grammar that must be refused and few that must not.',
    'C13': 'Tests parse one valid sentence each for five grammars and never an invalid one.',
    'C14': 'The tests never look at the derivation; the in-process parser returns no tree.',
    'C15': 'The todo file records a stack overflow on a recursive grammar; no test covers rejected or degenerate grammars.',
    'C16': 'Tests print the module of one token set; nothing reads the tables back.',
    'C17': 'Tests print the modules of four grammars; nothing reads the tables back, and wrong numbers only show for particular shapes.',
    'C18': 'No test runs the TypeScript compiler. What compiles depends on spellings and on the mix of named and unnamed symbols, a combinatorial space.',
    'C19': 'No test evaluates the types. The type-level lexer is a second implementation of scanning and fails on its own kinds of input.',
    'C20': 'No test evaluates the types. Values depend on the popping and naming of symbols for every shape of alternative.',
    'C21': 'No test evaluates the types; off-by-one errors show at single arguments only.',
    'C22': 'A test writes the table to a file and checks nothing. Each entry can be wrong on its own.',
    'C23': 'Tests run the generator once per process; an order that depends on a hash seed shows only when two runs with different seeds are compared.',
    'C24': 'No test feeds an invalid sentence.',
    'C25': 'Every test builds a parser and uses it once.',
    'C26': 'Each test uses one fixed naming and order.',
    'C27': 'no test evaluates the types, and a text has to pass four stages that each agree with the next about numbers and names of tokens',
}


titles = {}
for line in open(ROOT + '/properties.jsonl'):
    p = json.loads(line)
    titles[p['id']] = p['title']
out = []
for pid in sorted(titles):
    c = registry.CHECKS[pid]
    cap = lambda t: t[0].upper() + t[1:]
    out.append('### %s %s\n\n%s. %s\n\nQuick bounds: %s. Thorough: %s. Counted: %s.\nBeyond the tests: %s\n' % (
        pid, titles[pid], cap(c['technique']), c['level_note'].strip(), c['bounds']['quick'], c['bounds']['thorough'], c['counts'], BEYOND[pid]))
path = ROOT + '/DESIGN.md'
s = open(path).read()
a, z = '<!-- generated from tools/registry.py -->\n', '<!-- end of the generated part -->\n'
i, j = s.index(a) + len(a), s.index(z)
s = s[:i] + '\n' + '\n'.join(out) + '\n' + s[j:]

# the planted bugs and what caught them
a, z = '<!-- generated from seeded/ and tools/seed_results.txt -->\n', '<!-- end of the table -->\n'
if a in s:
    caught = {}
    try:
        for line in open(ROOT + '/tools/seed_results.txt'):
            d, c, r = line.split()
            caught.setdefault(d, []).append((c, r))
    except FileNotFoundError:
        pass
    rows = ['| Bug | Breaks | Needs | Caught by (quick) |', '|---|---|---|---|']
    for d in sorted(os.listdir(ROOT + '/seeded')):
        m = json.load(open('%s/seeded/%s/meta.json' % (ROOT, d)))
        yes = [c for c, r in caught.get(d, []) if r == 'caught']
        no = [c for c, r in caught.get(d, []) if r == 'missed']
        rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), ', '.join(yes) + (' (not by %s)' % ', '.join(no) if no else '') or 'not run'))
    i, j = s.index(a) + len(a), s.index(z)
    s = s[:i] + '\n' + '\n'.join(rows) + '\n\n' + s[j:]
open(path, 'w').write(s)
