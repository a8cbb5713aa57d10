SETUP = 'python3 -c "import sys; sys.exit(0)"'
NOTES = ('Every check copies /repo\'s working tree to a scratch directory under /tmp, builds it there, runs the built programs '
         'through an LD_PRELOAD fork server (lib/forksrv.c) and removes the scratch directory.')
REASONS = {}
check('C01', 'checks/c01.py', 'conformance testing of every transition of an explicit reference automaton (W-method), plus bounded exhaustive enumeration',
      'The reference morphology is a whole-word recogniser written from the rules; its state space (6874 states, 120 distinguishing '
      'endings) is explored completely and every transition replayed; an implementation error that needs more extra states than the '
      'two-letter margin could be missed. The reference rules are trusted.')
check('C02', 'checks/c02.py', 'bounded exhaustive enumeration of rafsi sequences against a reference model',
      'Every sequence of short components up to the stated length, over the published rafsi table frozen in models/rafsi.txt; the reference '
      'algorithm and score are written from the rules and trusted; component texts are sampled by class above two components, as the evidence says.')
check('C14', 'checks/c14.py', 'bounded exhaustive enumeration of lujvo forms against a reference model',
      'Every way of writing a lujvo from the table\'s rafsi up to three components is broken down; glosses are compared for all pairs of first and last components.')
check('C03', 'checks/c03.py', 'explicit-state exploration of every reachable dictionary, each transition executed by the implementation',
      'From every dictionary reachable with the source lines of an alphabet (six alphabets, explored to closure, so for histories of any length) every '
      'source of one or two lines or files is added with the real smujajgau; all lookups are compared in the mmap and the read build. Other keys and '
      'values are assumed to behave like those of the alphabets.')
check('C04', 'checks/c04.py C04', 'bounded exhaustive exploration of word sequences against a reference model',
      'Every sequence of words up to the stated length over alphabets that hold every way the word level treats a word, plus sweeps over '
      'every cmavo; the reference model of erasure is trusted.')
check('C05', 'checks/c04.py C05', 'bounded exhaustive exploration of word sequences against a reference model',
      'Every sequence of words up to the stated length over the binding words, plus sweeps over every cmavo; the reference model is trusted.')
check('C06', 'checks/c06.py C06', 'explicit-state exploration of the grammar automaton, every trace replayed against the implementation',
      'Traces reach every pair of top parser states of the LALR automata of a frozen grammar, followed by every word class; the frozen grammar '
      'was checked against the published EBNF by an Earley recogniser on every strict trace and is trusted beyond that.')
check('C07', 'checks/c06.py C07', 'explicit-state exploration of the grammar automaton, every trace replayed against the implementation',
      'Structure is compared on every accepted trace of the model; the grammar model is trusted for the grouping.')
check('C11', 'checks/c11.py', 'bounded exhaustive enumeration of the layouts of word sequences, each run against the run on the plain layout',
      'Every layout that differs from the plain one in one gap, in all gaps alike, at the ends, or in two gaps for the shorter texts; carriage '
      'returns and other control characters are not claimed to be layout. What is right on the plain layout is C01, C04 to C07.')
check('C12', 'checks/c12.py', 'exhaustive generation of automaton descriptions within bounds, product exploration of each generated automaton with the reference automaton',
      'Every description of the families (all automata of two states over two tokens, structured families above); equivalence of each generated module '
      'with the subset construction of its description is decided for strings of every length by exploring all reachable pairs of states. The '
      'reference reader of descriptions is trusted.')
check('C13', 'checks/c13.py', 'bounded exhaustive enumeration of cmavo, cmavo shapes and runs, replayed against parser and glosser',
      'Every string of cmavo shape alone, every pair of words and every word between every pair of the end words in runs written together; '
      'the word list frozen in models/cmavo.txt is trusted.')
check('C08', 'checks/c08.py', 'bounded exhaustive enumeration of texts and output formats, each output read back by an inverse of the format',
      'Every accepted trace of the frozen grammar up to the stated bound, every indicator form at every place, every gismu, word lengths and '
      'line widths, every sequence of marking-up characters, in all twelve formats; what is checked is which words appear and in which order, '
      'not the grouping or the glosses (C07, C14).')
check('C09', 'checks/c09.py', 'bounded exhaustive enumeration of inputs, options, dictionaries and sources, each run of the implementation under sanitizers',
      'Every accepted trace of the frozen grammar up to the stated bound, every sequence of up to three pieces of text, constructs and words '
      'repeated and lengthened in every context, every sequence of two options, every prefix and every changed byte of a dictionary, every '
      'prefix and changed token of a description, and the same for dictionary sources; an error that the sanitizers do not see, or that needs a '
      'longer input than these, is not found.')
check('C10', 'checks/c10.py', 'bounded exhaustive enumeration of bridi, each said by a reference model of places and compared with the labels of the implementation',
      'Every sequence of terms up to five around one selbri, every selbri of three makings-up, every compound bridi of two connections, every '
      'context of a bridi; arrangements that fill a place twice are left out. The rules in models/places.py are trusted.')
check('C15', 'checks/c15.py', 'bounded exhaustive enumeration of word sequences, formats and widths, each shown by a reference model and compared with the output of the implementation',
      'Every sequence up to the stated length of words of every kind and separator, every cmavo, every pair and triple of pieces of runs, every key of the '
      'dictionary, every word length around the widths, in every format; the rules in the check are trusted.')
check('C16', 'checks/c16.py', 'bounded exhaustive enumeration of entries, contexts and conversions, each glossed by a reference model and compared with the gloss of the implementation',
      'Every class x ending x override of an entry in every basic context and conversion (and spread over 23 further contexts), the words of the dictionary, '
      'every pattern on words of every class, pairs and triples of words of different classes; two brivla around bo are left out. The rules in models/gloss.py are trusted.')
check('C17', 'checks/c17.py', 'bounded exhaustive enumeration of function words and contexts, each looked up by a reference model and compared with the gloss of the implementation',
      'Every cmavo of 65 classes in its contexts, every PU x nai x ZI, BAI x SE, number x ROI or MOI, attitudinal x nai x intensity, pairs of tenses, all in 15 '
      'contexts of tenses; every logical connective x na x se x nai in 20 constructions. What the contexts and truth functions are is stated in the check and trusted.')
