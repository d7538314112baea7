"""C22: pattern matching gives the smallest id of the patterns that match, whatever the set of patterns and the history."""
from fw import Violation, Skip

SPEC = dict(
    id='C22', level='exploration', harness=('patterns',),
    technique='online reference monitor over every step of the sanitized pattern matcher: the class and liveness reported after '
              'each symbol are compared with an independent simulation of the pattern set',
    rule='one evaluation = one set of patterns (through zero or more of writing, serialising and copying) and its matched '
         'sequences; non-trivial when a sequence matches; distinct by (patterns, sequences)',
    quick=6000, thorough=80000, min_distinct=1500)

ANYC, ANYT, QUEUE = 'ANYC', 'ANYT', 'QUEUE'


def toks(lemma, tags):
    out = [ANYC] if not lemma else [ANYC if c == '*' else ('c', c) for c in lemma]
    out += [ANYT] if not tags else [ANYT if t == '*' else ('t', t) for t in tags.split('.')]
    return out


class Nfa:
    """states (k, j): j tokens of pattern k matched; (k, j, 'q'): inside the queue after token j"""

    def __init__(self, pats):
        self.p = []
        for i, seq in pats:
            s = []
            for t in seq:
                if not (t == QUEUE and s and s[-1] == QUEUE):
                    s.append(t)
            self.p.append((i, s))
        # of patterns that are the same only the one with the smallest id counts
        best = {}
        for i, s in self.p:
            best[tuple(s)] = min(i, best.get(tuple(s), i))
        self.p = [(i, list(s)) for s, i in best.items()]

    def start(self):
        return {(k, 0) for k in range(len(self.p))}

    def step(self, states, sym):
        kind, c = sym
        out = set()
        for st in states:
            k, j = st[:2]
            seq = self.p[k][1]
            if len(st) == 3:
                if kind == 'c':
                    out.add(st)
            elif j and seq[j - 1] == (ANYC if kind == 'c' else ANYT if kind == 't' else 0):
                out.add(st)              # wildcards repeat
            nxt = [seq[j]] if j < len(seq) else []
            if nxt == [QUEUE]:
                if len(st) == 2 and kind in 'cs' and c in '_ #':
                    out.add((k, j, 'q'))
                nxt = [seq[j + 1]] if j + 1 < len(seq) else []
                j += 1
            for t in nxt:
                if t == ANYC and kind == 'c' or t == ANYT and kind == 't' or t == ({'s': 'c'}.get(kind, kind), c):
                    out.add((k, j + 1))
        return out

    def classify(self, states, banned):
        ids = [self.p[s[0]][0] for s in states
               if s[1] == len(self.p[s[0]][1]) or s[1] == len(self.p[s[0]][1]) - 1 and self.p[s[0]][1][-1] == QUEUE]
        ids = [i for i in ids if i not in banned]
        return min(ids) if ids else -1


def case(ctx):
    r = ctx.rng
    big = r.random() < .06
    letters = r.sample('abcé中Ж1.', r.randint(1, 3)) if r.random() < .8 else list('ab')
    if r.random() < .04:
        letters = [chr(k) for k in r.sample(range(0x4e00, 0x5000), 400)]    # many arcs
        big = True
    dense = r.random() < .03
    if dense:
        letters = letters[:1]
    tags = r.sample(['n', 'v', 'sg', 'é', 'a b', 'ANY', '中'], r.randint(1, 3))
    script, pats = [], []

    def lemma():
        if r.random() < .25:
            return ''
        s = ''
        for _ in range(r.randint(1, 12 if r.random() < .1 else 4)):
            c = '*' if r.random() < .3 else r.choice(letters + ['_', ' ', '#', '+'] if r.random() < .2 else letters)
            if c != '*' or s[-1:] != '*':
                s += c
        return s

    def tagl():
        if r.random() < .15:
            return ''
        out = []
        for _ in range(r.randint(1, 3)):
            t = '*' if r.random() < .3 else r.choice(tags)
            if t != '*' or out[-1:] != ['*']:
                out.append(t)
        return '.'.join(out)
    ids = list(range(1, 400 if big else r.randint(2, 12)))
    if r.random() < .3:
        ids = [0, 1, 127, 128, 129, 300, 16384, 100000]
    labels = []
    for _ in range(r.randint(100, 300) if big else r.randint(1, 10)):
        i = r.choice(ids)
        if r.random() < .65 or not labels and r.random() < .5:
            l, t = lemma(), tagl()
            script.append('I\t%d\t%s\t%s' % (i, l, t))
            pats.append((i, tuple(toks(l, t) + [QUEUE])))
        else:
            script.append('B')
            data = []
            for _ in range(r.randint(1, 3)):
                if labels and r.random() < .4:
                    o = r.choice(labels)
                    script.append('L\t%d\t%d' % (i, o))
                    mine = [s for k, s in pats if k == o]
                    data = [d + (('c', '+'),) + m for d in data for m in mine] if data else list(mine)
                else:
                    l, t = lemma(), tagl()
                    script.append('I\t%d\t%s\t%s' % (i, l, t))
                    new = tuple(toks(l, t))
                    data = [d + (('c', '+'),) + new for d in data] if data else [new]
                if len(data) > 200:
                    raise Skip()
            script.append('E')
            pats += [(i, d + (QUEUE,)) for d in data]
        labels.append(i)
    if dense:       # very many ways to match
        words = ['']
        for _ in range(r.choice([6, 9, 11])):
            words = [w + c for w in words for c in (letters[0], '*') if c != '*' or w[-1:] != '*']
        for w in r.sample(words, len(words)):
            i = r.choice(ids)
            script.append('I\t%d\t%s\tn' % (i, w))
            pats.append((i, tuple(toks(w, 'n') + [QUEUE])))
    if r.random() < .15:
        script.append('C')
    script.append('T')
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        script.append(r.choice(['W', 'Wu', 'S', 'Su', 'C']))
    script.append('Xc' if r.random() < .2 else 'X')
    nfa = Nfa(pats)
    seqs = []
    for _ in range(r.randint(1, 12)):
        seq = []
        if r.random() < .85:
            for t in r.choice(pats)[1]:
                if t == ANYC:
                    seq += [('c', r.choice(letters + ['z', '+', '#'])) for _ in range(r.choice([1, 1, 2, 3, 20 if r.random() < .3 else 1]))]
                elif t == ANYT:
                    seq += [('t', r.choice(tags + ['zz'])) for _ in range(r.choice([1, 1, 2, 3]))]
                elif t == QUEUE:
                    if r.random() < .4:
                        seq += [('c', r.choice('_ #'))] + [('c', r.choice(letters + ['z', '_'])) for _ in range(r.randint(0, 3))]
                elif t[0] == 'c':
                    seq.append((r.choice('cccs'), t[1]))
                else:
                    seq.append(t)
        for _ in range(r.choice([0, 0, 1, 3])):
            seq.insert(r.randint(0, len(seq)), r.choice([('c', r.choice(letters)), ('t', r.choice(tags + ['zz'])), ('c', '+'),
                                                        ('s', r.choice(letters)), ('c', '_')]))
        if r.random() < .1 and seq:
            del seq[r.randint(0, len(seq) - 1)]
        if r.random() < .02:
            seq = [('c', letters[0])] * 60 + seq
        if not seq:
            continue
        banned = set(r.sample(ids, min(len(ids), r.randint(1, 3)))) if r.random() < .3 else set()
        copy = {k for k in range(len(seq)) if r.random() < .05} if r.random() < .2 else ()
        seqs.append((banned, seq))
        script.append('M\t%s\t%s' % (','.join(map(str, sorted(banned))),
                                     '\t'.join(('|' if k in copy else '') + a + b for k, (a, b) in enumerate(seq))))
    if not seqs:
        raise Skip()
    text = '\n'.join(script) + '\n'
    ctx.write('script', text)
    out = ctx.run('patterns', [ctx.path('f.bin')], text).text
    lines = out.split('\n')
    if lines.pop() or len(lines) != len(seqs):
        raise Violation('%d answers to %d questions' % (len(lines), len(seqs)), out=out[:2000])
    hit = 0
    for (banned, seq), line in zip(seqs, lines):
        got = line.split()
        st = nfa.start()
        for k, sym in enumerate(seq):
            st = nfa.step(st, sym)
            exp = str(nfa.classify(st, banned)) if st else '-'
            ctx.count('steps')
            if k >= len(got) or got[k] != exp:
                raise Violation('after %s: %s, expected %s (not using %s)' % (
                    ' '.join(a + b for a, b in seq[:k + 1]), got[k] if k < len(got) else 'nothing', exp, sorted(banned)),
                    script=text, patterns=pats)
            hit += exp not in '-1'
    if hit:

        ctx.count('matches', hit)
        ctx.sig(pats, [s for b, s in seqs])
        if ctx.sample is None:
            ctx.sample = {'case': ctx.idx, 'patterns': len(pats), 'sequences': len(seqs), 'matches': hit}
