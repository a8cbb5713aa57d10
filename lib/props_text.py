prop('C01', 'Every word is classified and split as the morphology rules require',
     "For every string of Lojban letters, the word tools report the class (gismu, lujvo, fu'ivla, name, cmavo sequence or not a "
     "word) that the published morphology rules assign to it, and the same cuts between a run of leading cmavo and the word they "
     "run into. The pieces put together give back the string, and each piece on its own is classified the same way as inside it.",
     ['inputs'], 'every string over the Lojban alphabet',
     'The tests feed a few hundred chosen words; the rules are a finite automaton with thousands of states whose every transition '
     'has to be right.',
     ['morf.c', 'morf_nfa.in', 'mk_fetab.pl', 'mk_vfetab.pl', 'mk_enctab.pl', 'bccheck.c', 'bctables.in', 'dfasyn/', 'lex1.c'],
     [('front end tables and DFA', 'morf.c morf_scan, morf_nfa.in'), ('cmavo splitting', 'morf.c'), ("la/lai/doi in names", 'bccheck.c')],
     [{'name': 'DFA state', 'meaning': 'what kinds of word the letters read so far can still become', 'where': 'morf.c'}],
     ['vlatai stdout', 'jbofihe -k'])
prop('C02', 'Every lujvo that can be built is offered once, validly hyphenated and scored',
     "For every sequence of words that have rafsi, the lujvo builder offers exactly the forms that the combinations of their rafsi "
     "allow, each with the hyphens that the rules require and no others, and each is then recognised as a lujvo of just these words. "
     "The score of each is the published one, and they are listed from the best to the worst.",
     ['inputs', 'configurations'], 'every sequence of gismu and cmavo of the word list, every option',
     'Six examples are in the test suite (they fail for lack of a dictionary file); a wrong hyphen shows only for particular pairs or '
     'triples of rafsi shapes.',
     ['jvocuhadju.c', 'lujvofns.c', 'canonluj.c', 'canonluj.pl'],
     [('building', 'jvocuhadju.c makelujvo'), ('hyphens and tosmabru test', 'jvocuhadju.c, lujvofns.c'), ('scoring', 'jvocuhadju.c')],
     [], ['jvocuhadju stdout', 'vlatai -el stdout'])
prop('C03', 'The compiled dictionary answers exactly what its sources last said',
     "After any sequence of dictionary builds and additions, looking up a key gives the value that the latest source line for it "
     "gave, and a key that no source gave, or whose entry was superseded, is not found. This holds whichever way the dictionary "
     "was accumulated or is loaded.",
     ['inputs', 'histories'], 'every history of source files, every key',
     'The test suite uses one dictionary built once; override, delete and boundary lengths depend on the history.',
     ['smujajgau.c', 'dictaccs.c', 'translate.c', 'canonluj.c'],
     [('accumulate, sort, write', 'smujajgau.c'), ('bisection lookup', 'dictaccs.c')],
     [{'name': 'dictionary file', 'meaning': 'sorted keys and values', 'where': 'smujajgau.c'}],
     ['the dictionary file', 'glosses in cmafihe and jbofihe -x output'])
prop('C04', 'Erasure words remove exactly the words they are meant to',
     "si removes the one word before it (quotations count as the number of words they hold: zo 2, lo'u 3, zoi 4, and stay marked "
     "defective until all are erased), sa removes back to and including the last word of the same class as the word after it, or to "
     "the start, and su removes back to and including the last text, quotation or parenthesis opener, or the whole text when doubled. "
     "All other words reach the parser unchanged and in order.",
     ['inputs', 'histories'], 'every sequence of words',
     'Erasures act on the list of words left by earlier erasures, so what matters is the sequence; the tests sample some dozens.',
     ['erasure.c', 'lex2.c'],
     [('si, sa, su', 'erasure.c'), ('order of preprocessing', 'lex2.c preprocess_tokens')],
     [{'name': 'token list', 'meaning': 'words not yet erased', 'where': 'lex2.c'}],
     ['jbofihe -k token list after preprocessing', 'exit status'])
prop('C05', 'Quotes, zei, bu, ba\'e and indicators bind exactly the right words',
     "zoi and la'o quote everything between the two copies of their delimiter word, zo the next word, lo'u everything up to the next "
     "le'u; zei joins the words around it, bu takes the word before it, ba'e the word after it, and indicators with their nai and "
     "intensifiers go to the word before them or to the start of the text. No other word is touched, and a construct that has nothing "
     "to bind is reported and refused.",
     ['inputs'], 'every sequence of words',
     'The binding words compete for the same neighbours; their order of precedence only shows in combinations, of which the tests '
     'have a few.',
     ['lex1.c', 'lex2.c', 'tree.c'],
     [('zoi', 'lex1.c process_word'), ("zo, lo'u, zei, ba'e, bu, indicators", 'lex2.c')],
     [{'name': 'token list', 'meaning': 'words and compounds', 'where': 'lex2.c'}],
     ['jbofihe -k', 'jbofihe -tf', 'exit status'])
prop('C06', 'A text is accepted exactly when the Lojban grammar derives it',
     "With terminators required, the parser accepts a sequence of words if and only if the published grammar derives it with every "
     "terminator in place; without that option it accepts exactly the texts from which such a derivation is reached by supplying "
     "elidable terminators where the next word could not otherwise be taken. Anything else is reported as a syntax error and exits "
     "with a failure status.",
     ['inputs'], 'every sequence of word classes',
     'The grammar has over 500 rules and 120 word classes, plus lookahead marking of tenses, connectives and numbers outside the '
     'parser generator; the tests hold a few hundred sentences.',
     ['rpc2x.y', 'categ.c', 'stag_nfa.in', 'action.perl', 'terminator.pl', 'lex2.c', 'main.c'],
     [('grammar', 'rpc2x.y'), ('lookahead markers', 'categ.c'), ('tense recogniser', 'stag_nfa.in'), ('strict grammar', 'terminator.pl')],
     [{'name': 'parser state', 'meaning': 'LALR state stack', 'where': 'generated parser'}],
     ['exit status of jbofihe and jbofihe -re'])
prop('C07', 'The printed structure is the grammar\'s structure, elided terminators included',
     "For every accepted text the parse tree and the bracketed text show the grouping that the grammar gives it. The text with the "
     "elided terminators that the tool displays written out is accepted with all terminators required and has the same structure, and "
     "a terminator that the tool says could be omitted can be omitted without changing the structure.",
     ['inputs', 'configurations'], 'every accepted text, tree and bracket output, elision options',
     'Structure is checked by the tests on a few sentences; grouping goes wrong only for particular combinations of constructs.',
     ['rpc2x.y', 'action.perl', 'tree.c', 'elide.c', 'functions.c', 'output2elide.pl'],
     [('tree building', 'rpc2x.y actions'), ('tree printing', 'tree.c'), ('elision report', 'elide.c')],
     [], ['jbofihe -t, -tf, default, -ie, -re, -se output'])
prop('C08', 'Every output format shows every word of the text, once and in order',
     "Whatever output format and width is chosen, the Lojban words in the output are the words of the text that the parser saw, each "
     "once and in the same order, brackets are balanced and nested, and markup characters are escaped. Formats and widths differ only "
     "in presentation.",
     ['inputs', 'configurations'], 'every accepted text, every output format, every width',
     'Tests compare few formats on few sentences; a dropped word depends on the construct and format.',
     ['output.c', 'textout.c', 'textblk.c', 'htmlout.c', 'latex.c', 'latexblk.c', 'tree.c'],
     [('tree walk', 'output.c'), ('drivers', 'textout.c, textblk.c, htmlout.c, latex.c, latexblk.c')],
     [], ['stdout of jbofihe -x, -x -b, -l, -l -b, -H, -t, -tf, default'])
prop('C09', 'No input crashes a tool, corrupts its memory or keeps it running for ever',
     "Every tool ends in bounded time on every input and every option, without touching memory that is not its own and without "
     "running into its own consistency checks; damaged dictionaries and malformed sources are refused. The exit status of the parser tells "
     "a parsed text, a syntax error and an unrecognisable word apart. (Texts nested a thousand constructs deep or more may exhaust the stack.)",
     ['inputs', 'configurations'], 'every byte string as input text, every combination of options',
     'A crash needs a particular input; tests hold only inputs that work.',
     ['*.c'], [('signal handler and assertions', 'main.c'), ('buffers', 'all')], [],
     ['exit status and sanitizer reports'])
prop('C10', 'Every sumti is labelled with the place of the selbri that it fills',
     "In translated output each sumti of a bridi is labelled with the place it fills under the language's rules: counting from x1, or "
     "from x2 after the selbri when none before it was counted, going on after the place of a fa, fe, fi, fo, fu, passing over places that "
     "are filled already, exchanging with se, te, ve, xe. Linked sumti count from x2 of their own selbri; the terms before and after compound "
     "bridi and connected selbri fill places of each, those before a co selbri places of its first part and those after it of its last, and "
     "of a tanru only the last part. Behind jai fai is the former x1, and with a tag x1 is the place of the tag. Sumti with other tags get "
     "no label, nor do prenex sumti. No sumti is labelled with a place of another selbri. (Not claimed: sumti that would fill a place "
     "twice, termsets and connected abstractors, which the parser announces that it cannot place, and more than 18 places.)",
     ['inputs'], 'every arrangement of terms, tags, conversions and compound bridi',
     'Place assignment is counting over sequences of terms in several kinds of nesting; tests sample a few.',
     ['terms.c', 'conversion.c', 'output.c'],
     [('place tagging', 'terms.c'), ('conversion', 'conversion.c')],
     [], ['jbofihe -x labels'])
prop('C11', 'Layout does not change the parse, and reported positions are true',
     "Spacing, line breaks, pauses, comments and writing a number in digits do not change what words are read or how they are parsed. "
     "The line and column given in a message are those where the word named begins in the text.",
     ['inputs'], 'every text, every layout of it',
     'Positions and layout multiply every text by all ways to write it.',
     ['lex1.c', 'lex2.c', 'tracebk.c', 'elide.c'],
     [('character reader', 'lex1.c parse_file')], [{'name': 'line, column', 'meaning': 'position of the next character', 'where': 'lex1.c'}],
     ['jbofihe -k', 'error messages'])
prop('C12', 'The automaton compiler yields an automaton equivalent to its source',
     "For every automaton description the generated deterministic automaton gives, for every string of tokens, exactly the result that "
     "the description gives (the result of the paths it admits, or the default), whichever of its optimisations is selected. Ambiguous "
     "descriptions are reported, valid ones are not refused.",
     ['programs', 'inputs', 'configurations'], 'every description, every token string',
     'Only two descriptions are compiled in the build and neither exercises every operator.',
     ['dfasyn/'],
     [('subset construction', 'dfasyn/n2d.c'), ('minimisation', 'dfasyn/compdfa.c'), ('table compression', 'dfasyn/tabcompr.c'), ('result expressions', 'dfasyn/expr.c')],
     [], ['generated C tables, executed'])
prop('C13', 'Every cmavo is known to every tool, with its own class',
     "Each word of the official cmavo list is read as a cmavo of its own selma'o by the parser and the word glosser, alone and in any "
     "run of cmavo written together, and no other string is.",
     ['inputs'], 'every cmavo-shaped string, every pair written together',
     'There are about 600 cmavo among 1,700 cmavo-shaped strings, addressed by a hand-made hash.',
     ['cmavotab.c', 'lex1.c', 'cm_scan.l', 'cm_gather.c', 'cm_output.c'],
     [('perfect hash', 'lex1.c hash_cmavo'), ('table', 'cmavotab.c')], [], ['jbofihe messages and -k', 'cmafihe output'])
prop('C14', 'A lujvo means the same whichever rafsi it is built from',
     "Every valid lujvo is broken down into the words whose rafsi it is made of, whichever rafsi and hyphens were chosen, and all "
     "forms of the same compound are glossed alike.",
     ['inputs'], 'every sequence of rafsi',
     'There are about 3,000 rafsi; a breakdown error concerns particular ones or adjacent shapes.',
     ['canonluj.c', 'canonluj.pl', 'translate.c'],
     [('breakdown', 'canonluj.c'), ('gloss lookup', 'translate.c')], [], ['vlatai -el', 'jbofihe -x', 'cmafihe'])
prop('C15', 'The word glosser shows every word once, in order, with its class and gloss',
     "cmafihe shows each word of its input exactly once and in order, in every output format: a cmavo with its selma'o and the "
     "dictionary's gloss (a run of cmavo written together piece by piece, the longest known compound first, pauses being mere "
     "separators), a brivla as BRIVLA with the dictionary's gloss or '?', a name as CMENE. Parenthesised text is kept, and every "
     "character that belongs to no word is reported. Paragraph breaks are kept; the block format aligns each word with its class and gloss in columns, and "
     "breaks lines so as to keep to the width. All formats show the same words, classes and glosses.",
     ['inputs', 'configurations'], 'every sequence of words, every output format, every width',
     'No test runs the word glosser on more than a few sentences, in one format; a line break or a run of cmavo goes wrong for particular lengths or neighbours only.',
     ['cm_main.c', 'cm_scan.l', 'cm_gather.c', 'cm_output.c', 'canonluj.c', 'dictaccs.c'],
     [('runs of cmavo', 'cm_gather.c'), ('columns and line breaks', 'cm_output.c'), ('dictionary lookup', 'dictaccs.c')], [],
     ['cmafihe, cmafihe -b -w N, -l'])
prop('C16', 'A brivla is glossed as its dictionary entry says, in every context',
     "In jbofihe's glossed output a brivla is glossed as the dictionary entry of the place it stands for (the place brought to "
     "the front by any SE before it) says for the context it is in: as a noun when it heads a description, as a verb when it heads a main selbri, as a "
     "qualifier when it modifies another word of a tanru, as a place tag when a place of it is labelled. The class letter of an entry determines the "
     "grammatical form made out of its gloss; an entry with an override for the context (n, v, q, t) is shown verbatim; and a lujvo "
     "without an entry is glossed by the first pattern of the dictionary that decides it, out of the gloss of the rest of the word, "
     "or else by the glosses of its words one after another, marked ??.",
     ['inputs', 'configurations'], 'every entry, every class, ending and override, every context, every conversion',
     'Tests look at a few glosses; a wrong suffix, place or precedence shows only for particular endings, classes and contexts.',
     ['translate.c', 'conversion.c', 'dictaccs.c', 'smujmaji', 'patterns', 'extradict', 'places.dat'],
     [('forms of the gloss', 'translate.c'), ('context of a selbri', 'conversion.c')], [], ['jbofihe -H and every other glossed output'])
prop('C17', 'Function words are glossed as the dictionary says for their context',
     "In jbofihe's glossed output each cmavo is glossed with the entry that the dictionary has for it: tenses and aspects by the entry for the "
     "context they are in (before a sumti, in a description, in a selbri, linking, connecting, in a jai) if there is one, a PU with its nai and ZI "
     "and a number with its roi or MOI by the entry for the whole if there is one, a BAI with its SE, an attitudinal with its nai and intensity. A logical "
     "connective (afterthought or forethought, of sumti, selbri, bridi tails, operators or sentences) is glossed by the entry for exactly the truth function that its "
     "vowel, na, se and nai make; a tense, modal or mixture that connects is glossed where the second half begins.",
     ['inputs'], 'every word in every context of its class, every connective with every negation and conversion',
     'There are 600 cmavo, seven contexts and 16 truth functions; tests show a handful of them.',
     ['output.c', 'tenses.c', 'connect.c', 'terms.c', 'functions.c', 'extradict'],
     [('contexts of tenses', 'tenses.c'), ('truth functions', 'connect.c'), ('choice of entries', 'output.c')], [], ['jbofihe -H and every other glossed output'])
