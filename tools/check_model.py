"""Developer tool: binds the frozen grammar model to the published grammar.  Every trace of the strict corpus (all terminators
written out) is given to an Earley recogniser of the EBNF (models/bnf.txt); prints how many verdicts differ from the model's.
usage: check_model.py [corpus name, default strict]"""
import gzip, multiprocessing, os, subprocess, sys, tempfile
M = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'models')
name = sys.argv[1] if len(sys.argv) > 1 else 'strict'
T = tempfile.mkdtemp()


def run(ls):
    return subprocess.run([T + '/earley', T + '/cfg'], input='\n'.join(ls) + '\n', capture_output=True, text=True).stdout.split()


subprocess.run(['g++', '-O2', '-o', T + '/earley', M + '/earley.cc'], check=True)
subprocess.run([sys.executable, M + '/bnf.py', 'strict' if name.startswith('strict') else 'elide', T + '/cfg'], check=True)
L = [l.rstrip('\n').split(' ', 1) for l in gzip.open('%s/corpus_%s.txt.gz' % (M, name), 'rt')]
S = [l[1] if len(l) > 1 else '' for l in L]
with multiprocessing.Pool(8) as p:
    r = [x for y in p.map(run, [S[i:i + 1000] for i in range(0, len(S), 1000)]) for x in y]
for what, w, x in (('only the model accepts', '1', '0'), ('only the EBNF accepts', '0', '1')):
    d = sorted((s for s, l, y in zip(S, L, r) if l[0] == w and y == x), key=len)
    print(name, len(S), what, len(d))
    for s in d[:20]:
        print('   ', s)
subprocess.run(['rm', '-r', T])
