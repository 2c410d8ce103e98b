"""What each check decides, how, and within which bounds. Read by /verif/check and gen_manifest.py."""

COMMON_ASSUMPTIONS = [
    'the code under test is sequential and deterministic apart from hash seeds (which C23 controls)',
    'the reference models in /verif/harness/src (Glushkov automata, Earley recogniser, canonical LR(1)) are right; they are cross-checked against each other where two exist',
    'rustc, regex-syntax (parsing of the pattern text), bumpalo and indexmap behave as documented',
]

CHECKS = {}


def check(pid, title, technique, note, rule, counts, quick, thorough, level='model_checking', **kw):
    CHECKS[pid] = dict(title=title, technique=technique, level=level, level_note=note, rule=rule, counts=counts,
                       bounds={'quick': quick, 'thorough': thorough}, **kw)


check('C01', 'regex automata',
      'exhaustive enumeration of small expressions; product of the built automata with a reference automaton explored to closure over a complete set of representative characters, plus all strings to a bound run on the real NFA/DFA',
      'Every expression in the bounds is decided for strings of every length (product reachability over one representative per class of indistinguishable characters); the real simulate/test functions are additionally run on every string to the stated length. Expressions outside the bounds are not covered.',
      'a case is one expression; distinct non-trivial items are the expressions (and, per expression, the non-empty word sets reached) whose language is neither empty nor everything and whose product has more than one state',
      'states/transitions: reachable pairs (DFA state, reference state) and their moves; traces: strings run through the real NFA and DFA',
      'all expressions to 5 operators and leaves over 6 leaves, 6 over 3, 7 over 2, each in three spellings (groups that capture, that do not, and named ones with reluctant repetition and bare empty branches); all class bounds at UTF-8/surrogate/Latin-1 boundaries and all pairs of them; realistic and large expressions; strings to length 4 and to every product state',
      '6 nodes over 6 leaves, 7 over 3, 8 over 2')
check('C02', 'scanner automaton determinism',
      'exhaustive enumeration of range sets and token sets; invariant checked on every state of the product of the real DFA with the union reference automaton',
      'All range sets within the bounds, and every state of the automaton of every enumerated token set, are checked.',
      'a case is a set of ranges or a list of token definitions; non-trivial: the split changes the number of pieces, or the automaton has more than one state',
      'states/transitions: DFA/product states and edges, range sets and boundary points; traces: token sets whose real automaton was walked',
      'all sets of up to 4 ranges over 7 points; ends of the code space; all lists of up to 3 definitions of a pool of 12',
      'up to 5 ranges, larger pools')
check('C03', 'maximal munch',
      'exhaustive exploration of all inputs up to a bound for every token set of a pool, each run on the real scanner and compared with a reference scanner',
      'Every input in the bounds for every enumerated token set; token sets are chosen so that longer matches are abandoned at every distance.',
      'a case is a token set with all inputs over its alphabet; non-trivial: distinct results occur',
      'states: distinct scanner results; transitions/traces: inputs run on the real scanner',
      'token lists of <=2 with inputs to length 6 over 5 characters, triples over 4, tokens that contain blanks, chains of abandoned prefixes, realistic sets, inputs and tokens of up to thousands of characters',
      'inputs one longer, triples of the blank pool')
check('C04', 'priority of tokens',
      'exhaustive exploration of ordered token lists and of grammars with literals against patterns, all inputs to a bound',
      'Every ordering of every small token list in the pool and every literal/pattern combination in the bounds.',
      'a case is an ordered token list or grammar; non-trivial: distinct results occur',
      'states: distinct results; transitions/traces: inputs run on the real scanner',
      'ordered lists of up to 4 overlapping definitions, inputs to length 7 (5 for three); many overlapping definitions each of which wins once; 2 literals x 2 patterns grammars',
      'lists of 5, inputs to length 9')
check('C05', 'token values',
      'exhaustive sweep of every Unicode scalar value as token text and of all short inputs over a mixed-width alphabet',
      'Every Unicode character and every input in the bounds.',
      'a case is a token set with all its inputs; non-trivial: distinct results occur',
      'states: distinct results or characters; transitions/traces: inputs run on the real scanner',
      'all 1,112,064 characters; inputs to length 6 over one character per UTF-8 length; pairs of definitions with and without value over 15 characters to length 3; values to 70,000 characters; blanks, line ends and combining characters inside of values',
      'inputs to length 8 and larger alphabets')
check('C06', 'nothing is dropped',
      'exhaustive exploration of all inputs including characters no token matches, on scanner and in-process parser, against reference scanner and Earley recogniser',
      'Every input in the bounds; reconstruction of the consumed text and the verdict of the parser are compared on each.',
      'a case is a token set or grammar with all inputs; non-trivial: distinct verdicts or results occur',
      'states: distinct results; transitions/traces: inputs run on the real code',
      'token lists of <=2 over an alphabet with unlexable characters, inputs to length 6; every code point between, before and after tokens; tokens with blanks in them; small grammars with blanks, characters that look blank and junk anywhere',
      'inputs to length 7, parser inputs two longer')
check('C07', 'literals',
      'exhaustive enumeration of literals (all single characters, all pairs and triples over metacharacters) against all near-miss texts',
      'Every literal in the bounds built through a real grammar and compared with the exact text it stands for.',
      'a case is a literal or pair of literals; every one is non-trivial (distinct text)',
      'states: literal sets; transitions/traces: probe texts run on the real scanner',
      'all characters of Latin-1 and boundary characters, all pairs, triples over metacharacters, pairs of literals in one grammar',
      'longer literals over metacharacters')

GU = 'nonterminals and terminals are numbered by first occurrence, alternatives of a block are distinct: grammars that differ by renaming are enumerated once'
check('C08', 'reading the notation',
      'exhaustive enumeration of texts: every layout of grammars, every edit of one or two pieces, every token sequence to a bound, each read by the real reader and by a reference scanner and parser of the notation',
      'Every text in the bounds is read by both; the trees have to be equal and the refusals the same.',
      'a case is a grammar with all its layouts or edits, or a prefix of a token sequence; non-trivial: a distinct tree results, or a distinct text is refused',
      'states: distinct trees; transitions: texts; traces: texts read by the real reader',
      'all blank/separator choices at every gap of the base grammars; all single deletions, duplications, swaps, replacements and insertions of pieces; all piece sequences to the stated length',
      'double edits, longer sequences')
check('C09', 'lowering and numbering',
      'exhaustive enumeration of small grammars, of all assignments of clashing names to symbols and of all orders of blocks; every observer of the lowered grammar compared with a reference lowering',
      'Every grammar in the bounds; numbering, order, lookup in both directions and iteration are compared completely.',
      'a case is a grammar; non-trivial: at least two rules and two symbols',
      'states: symbols and rules compared; transitions: lookups; traces: grammars lowered by the real code',
      'grammars to the sizes in the families; names from a pool of clashing spellings, all kinds, names with a meaning elsewhere and long common beginnings; blocks of a nonterminal torn apart, rules in every order (to 4 rules); grammars with hundreds of tokens, rules, symbols, nonterminals and states',
      'one more symbol')
check('C10', 'FIRST sets',
      'exhaustive enumeration of grammars and symbol sequences; real FIRST compared with a least fixpoint',
      'Every grammar in the bounds, all symbol sequences to length 2; FIRST depends on the graph of leading nonterminals only, and every such graph on three nodes (four with up to five edges) is covered. ' + GU,
      'a case is a grammar; non-trivial: two nonterminals have different FIRST sets',
      'states: sequences; transitions: members compared; traces: calls of the real function',
      'grammars with 3 nonterminals to 6 symbols, 2 to 7, all leading graphs on 3 nodes, on 4 nodes to 5 edges; families',
      'one more symbol, all leading graphs on 4 nodes')
check('C11', 'LALR(1) tables',
      'exhaustive enumeration of grammars; the real tables explored in lock-step (bisimulation from the start state) with the merged canonical LR(1) automaton of a reference construction',
      'Every grammar in the bounds; equality of the whole automaton up to renumbering, so for these grammars the tables are right for every input. ' + GU,
      'a case is a grammar; non-trivial: a distinct LALR(1) grammar whose tables were compared',
      'states/transitions: states and entries compared; traces: grammars whose tables the real generator built',
      'all grammars: 3 nonterminals/2 terminals/7 symbols, 2/2/7, 2/2/8 with 4 short alternatives; families of merged contexts and every set of contexts, nonterminals and what follows them (2x2x2, 3x1x3, 2x1x4), LALR borderline and realistic grammars; blocks of a nonterminal torn apart, rules in every order (to 4 rules); grammars with hundreds of tokens, rules, symbols, nonterminals and states',
      '8 symbols, 3 terminals, 9 symbols with 2 nonterminals')
check('C12', 'refusal of exactly the non-LALR(1) grammars',
      'exhaustive enumeration of grammars, the verdict of the real generator compared with the conflicts of a reference construction; ambiguity of small grammars confirmed by counting derivations of all short sentences',
      'Every grammar in the bounds. ' + GU,
      'a case is a grammar; non-trivial: a distinct grammar on which both verdicts were compared',
      'states: reference states; transitions: conflicts; traces: grammars given to the real generator',
      'all grammars: 3 nonterminals/2 terminals/6 symbols, 2/2/7, 2/2/8 with 4 short alternatives; families; every set of contexts, nonterminals and what follows them (3 contexts, 3 nonterminals, 2 or more continuations); alternatives written twice or three times anywhere; blocks of a nonterminal torn apart, rules in every order (to 4 rules); grammars with hundreds of tokens, rules, symbols, nonterminals and states, with and without a conflict; ambiguity to sentences of length 6',
      '7 symbols with 3 nonterminals, 8 with 2 nonterminals of 4 alternatives, 7 with 3 terminals')
check('C13', 'language of the in-process parser',
      'exhaustive enumeration of grammars and, per grammar, of all viable prefixes with every next token and what follows it, run through the real scanner and parser and compared with an Earley recogniser',
      'Every grammar in the bounds; inputs exhaustive to the stated length per grammar.',
      'a case is a grammar with all its inputs; non-trivial: inputs accepted and rejected both occur',
      'states: inputs; transitions: tokens; traces: inputs parsed by the real parser',
      'grammars with 3 nonterminals to 6 symbols, 2 to 7; families; inputs to the depth at which the prefix cap is reached; names with a meaning elsewhere; sets of contexts, nonterminals and what follows them (2x2x2, 3x1x3, 2x1x4); inputs of every length to 40 tokens and within 3 of powers of two and of ten to 65,536; blocks of a nonterminal torn apart, rules in every order (to 4 rules); grammars with hundreds of tokens, rules, symbols, nonterminals and states, a sentence for every rule',
      'one more symbol, larger caps, inputs to 100,000 tokens')
check('C14', 'derivations',
      'exhaustive enumeration of grammars and sentences; the real tables driven over each, the reductions checked as a rightmost derivation step by step',
      'Every grammar in the bounds; every sentence to the stated length.',
      'a case is a grammar; non-trivial: some sentence needs more than one reduction',
      'states: parser stacks reached; transitions: actions; traces: sentences driven through the real tables',
      'grammars with 3 nonterminals to 7 symbols; sentences to length 9 or 1500 prefixes; grammars with hundreds of tokens, rules, symbols, nonterminals and states, a sentence for every rule; sets of contexts, nonterminals and what follows them; the sentences that need a pair of neighbouring symbols no earlier one needed also run through the parser itself',
      '8 symbols, length 14, 20000 prefixes')
check('C15', 'termination',
      'exhaustive enumeration of degenerate and ordinary grammars and inputs, each run in the real pipeline under an 8 MB stack, 3 GB of memory and a time limit per case',
      'Every grammar in the bounds. Time limit 30 s for a case (normal: milliseconds); a crash or stall is confirmed on the case alone before it is reported.',
      'a case is a grammar text with inputs; non-trivial: a distinct text for which a parser was built',
      'states: parsers built; transitions: inputs parsed; traces: runs of the real pipeline',
      'two nonterminals with all right-hand sides to length 2 over terminal, both nonterminals and an undefined one; block/mark shapes to 3 blocks; all grammars to 6 symbols; long inputs to 800 tokens; large patterns',
      '7 symbols, inputs of 3000 tokens, generation for all')
check('C24', 'error position',
      'exhaustive enumeration of grammars and all viable prefixes; the real tables driven over each prefix and every next token, error position compared with an Earley recogniser',
      'Every grammar in the bounds; every prefix to the stated length with every next token.',
      'a case is a grammar; non-trivial: prefixes with an offending token occur',
      'states: prefixes; transitions: tokens tried; traces: sequences driven through the real tables',
      'as C14; in the large grammars every next token along a sentence for every rule', 'as C14')
check('C25', 'reuse of scanners and parsers',
      'exhaustive exploration of call histories on one or two real objects, each result compared with a fresh object',
      'Every sequence of calls to the stated length over the stated inputs.',
      'a case is an object (or two) with the first call; non-trivial: accepted and rejected inputs both occur',
      'states: (object, input) pairs; transitions: calls; traces: histories replayed on the real objects',
      'histories of 3 calls on one parser, 2 on two parsers, 4 scans; 8 inputs each; all ordered pairs of short token strings, inputs that differ in one place of many; all pairs of small grammars with the same tokens and of token sets given the same input',
      'histories of 4, 3 and 6')
check('C26', 'names and order',
      'exhaustive enumeration of grammars, renamings and reorderings; the real tables of both texts explored in lock-step, and where they differ all token sequences to a bound',
      'Every grammar, name assignment and order in the bounds (orders of alternatives: up to 60 combinations per block order for the larger grammars).',
      'a case is a grammar with all its renamings or reorderings; every one is non-trivial',
      'states/transitions: table states and entries compared; traces: rewritten texts built by the real generator',
      'grammars with 3 nonterminals to 5 symbols; 9 nonterminal namings x 10 literal namings; names with a meaning elsewhere and long common beginnings; all block orders; alternatives permuted; rules in every order, blocks torn apart',
      '6 symbols')

TS = 'the types are evaluated by the TypeScript compiler the sandbox has (5.9), read through its checker API; strict options of the repository\'s own tsconfig'
check('C16', 'generated lexer tables',
      'exhaustive enumeration of token sets; product of the interpreted tables with the union reference automaton explored to closure, plus all inputs to a bound replayed on the real scanner',
      'For every token set in the bounds the tables are decided for inputs of every length.',
      'a case is a list of token definitions; every distinct one is non-trivial',
      'states/transitions: product states and moves; traces: inputs on which the interpreted tables and the real scanner were compared',
      'lists of up to 3 of a pool of 12 definitions, names of every Latin-1 character, realistic sets, scanners of grammars; inputs to length 4; every definition listed, shadowed ones too',
      'lists of 4, inputs to length 5')
check('C17', 'generated parser tables',
      'exhaustive enumeration of grammars; the printed module read back entry by entry and compared with the in-memory grammar and tables',
      'Every grammar in the bounds; complete comparison of each module. ' + GU,
      'a case is a grammar; non-trivial: a distinct LALR(1) grammar whose module was compared',
      'states/transitions: rows and entries compared; traces: modules generated',
      'grammars with 3 nonterminals to 6 symbols, 2 to 7; literals of all Latin-1 characters, pairs of metacharacters; families; blocks torn apart; names with a meaning elsewhere; grammars with hundreds of tokens, rules, symbols, nonterminals and states',
      '7 and 8 symbols')
check('C18', 'generated modules compile',
      'exhaustive enumeration of grammars, namings and spellings; every generated pair of modules compiled with the shipped runtime by the real TypeScript compiler',
      'Every module in the bounds.',
      'a case is a grammar with actions; non-trivial: distinct text for which modules were generated',
      'states: modules; transitions/traces: modules compiled',
      'all small grammars with every choice of named symbols (4 symbols), literals of all supported characters and pairs of metacharacters, names, larger grammars', '5 symbols, triples of metacharacters',
      node=True, assumptions=[TS])
check('C19', 'type-level lexer',
      'exhaustive exploration of token sets and inputs to a bound; every input evaluated by the real type-level program in the TypeScript compiler and compared with the reference scanner (and the in-process one)',
      'Every token set and input in the bounds.',
      'a case is a token set with all its inputs; every distinct one is non-trivial',
      'states: distinct results; transitions/traces: types evaluated by the real compiler',
      'ordered lists of up to 2 of 12 definitions with all inputs to length 3 over a, b, c, blank; every supported character; 18 unsupported ones in every position of short inputs; ranges beyond them; inputs to 400 characters; shipped tables to length 3', 'lists of 3, inputs to length 5',
      node=True, assumptions=[TS])
check('C20', 'type-level parser',
      'exhaustive enumeration of grammars, namings and token sequences to a bound; every sequence evaluated by the real type-level program in the TypeScript compiler and compared with the value of its derivation',
      'Every grammar and sequence in the bounds, up to the 50-step limit of the parser.',
      'a case is a grammar with all its sequences; every distinct one is non-trivial',
      'states: reference states and distinct results; transitions/traces: types evaluated by the real compiler',
      'grammars with 2 nonterminals to 5 symbols with all namings of up to 3 symbols; all sequences to length 3 and viable prefixes beyond; shipped tables to length 4', '6 symbols, longer sequences',
      node=True, assumptions=[TS])

check('C27', 'from text to value',
      'exhaustive enumeration of grammars and texts to a bound; every text given to the real in-process parser and, as a literal type, to the real type-level lexer and parser under the TypeScript compiler; both compared with the derivation of a reference scanner and LALR(1) automaton',
      'Every grammar and text in the bounds, up to the 50-step limit of the type-level parser.',
      'a case is a grammar with a list of texts; every distinct one is non-trivial',
      'states: reference states and distinct results; transitions/traces: texts run through both pipelines',
      'five grammars with actions: sentences and all their edits by one character; all grammars of 2 nonterminals to 4 symbols over 10 pairs of overlapping tokens with all texts to length 3; every literal of the supported characters, pairs of metacharacters; every Latin-1 character in 9 places of a text; families', '5 symbols, texts to length 5, triples of metacharacters, longer sentences',
      node=True, assumptions=[TS])

check('C21', 'type-level helpers',
      'exhaustive enumeration of argument combinations to a bound and of sequences of operations; every application evaluated by the real TypeScript compiler and compared with arithmetic and list operations',
      'Every combination in the bounds; recursion deeper than 960 steps is beyond what the compiler evaluates and is left out.',
      'a case is a group of applications; distinct non-trivial items are the applications',
      'states: distinct results and applications; transitions/traces: tuples of up to 40 applications evaluated by the real compiler',
      'successor and predecessor of all numbers to 5000; all pairs of numbers to 70 and 32 boundary numbers; sequences of up to 4 operations; all tuples to length 4 over 6 elements and every length to 40, popping up to two more than there are; all strings to length 5 over 3 characters with all positions; 249 supported characters',
      'pairs to 260, sequences of 5, tuples to length 5 and every length to 80, strings to length 6, all positions in the string of all supported characters',
      node=True, assumptions=[TS])
check('C22', 'character and number tables',
      'exhaustive enumeration of all entries of the tables for every size to a bound, read by the real TypeScript compiler and compared with the definition',
      'Every entry of the shipped and of the generated character tables (the set of keys included, so every character there is is decided), and of the number tables of every size in the bounds.',
      'a case is a table module; distinct non-trivial items are characters and sizes',
      'states: entries; transitions/traces: types evaluated by the real compiler (tuples of up to 40 entries)',
      'both character tables, shipped and generated; number tables of all sizes to 130 and 20 sizes around powers of 2 and the shipped size', 'all sizes to 400, up to 65537',
      node=True, assumptions=[TS])
check('C23', 'reproducibility',
      'controlled nondeterminism: the hash seeds the standard library asks for are answered by the explorer, every grammar generated under every enumerated seed and after every enumerated history, outputs compared byte for byte',
      'Every seed, grammar and history in the bounds. The seeds reach all iteration orders of sets of up to 4 elements (counted in the evidence, with the share for 5); larger sets are covered to the extent of the seeds. That the seeds are in control is asserted on each run.',
      'a case is a text or token set with a range of seeds, or a history; non-trivial: distinct modules, histories and iteration orders',
      'states/transitions: generations compared; traces: runs of the real generator under a controlled seed',
      '120 seeds for 12 realistic grammars and 8 token sets; 6 for all families and all grammars of 2 nonterminals to 4 symbols; 10 for all lists of 2 of 12 tokens; all histories of length 2 over 8 texts (refused and unreadable ones included) and 3 over 5, in fresh and in shared arenas',
      '1000 seeds, 30 for the families, grammars to 6 symbols, lists of 3, histories of 3 and 4',
      case_ms=120000)

HOOK_COMMITS = ['04b1d8a1af145e1bcf5a08e7c49f311289069b04']
NOT_APPLICABLE = {}
