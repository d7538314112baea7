"""C03: the automaton operations preserve and combine weighted relations exactly."""
from fw import Violation, Skip
import fst, fstgen

SPEC = dict(
    id='C03', level='exploration', harness=('fstops',),
    technique='reference-model monitor over sanitized runs of the transducer library: random scripts of operations (minimise, '
              'determinise, reverse, union, concatenation, closures, copies, write/read, serialise/deserialise, path insertion) '
              'on random weighted transducers, each result compared with textbook constructions of the same relation',
    rule='one evaluation = one script; non-trivial when the resulting relation is not empty; distinct by script and result',
    quick=9000, thorough=120000, min_distinct=1500)

UN = ['minimize', 'minimize', 'minimize', 'determinize', 'determinize', 'reverse', 'joinFinals', 'optional', 'oneOrMore',
      'zeroOrMore', 'assign', 'serialise', 'write', 'copyalpha', 'dup']


def renamed(f, tag):
    g = fst.FST()
    g.init = (tag, f.init)
    for s, l in f.arcs.items():
        g.arcs[tag, s] = [(i, o, (tag, t), w) for i, o, t, w in l]
    g.finals = {(tag, s): w for s, w in f.finals.items()}
    return g


class M:
    n = 0

    def new(self):
        self.n += 1
        return self.n

    def wrap(self, f):
        """one new initial and one new final state"""
        g = renamed(f, self.new())
        a, b = (self.new(), 'i'), (self.new(), 'f')
        g.arcs[a].append(('', '', g.init, 0.0))
        for s, w in g.finals.items():
            g.arcs[s].append(('', '', b, w))
        g.init, g.finals = a, {b: 0.0}
        return g, a, b

    def star(self, f, zero, more):
        g, a, b = self.wrap(f)
        if more:
            g.arcs[b].append(('', '', a, 0.0))
            g, a, b = self.wrap(g)
        if zero:
            g.arcs[a].append(('', '', b, 0.0))
        return g

    def union(self, f, h):
        g = fst.combined([renamed(f, self.new()), renamed(h, self.new())])
        return g

    def concat(self, f, h):
        g, a, b = self.wrap(f)
        x = renamed(h, self.new())
        g.arcs[b].append(('', '', x.init, 0.0))
        for s, l in x.arcs.items():
            g.arcs[s] += l
        g.finals = x.finals
        return g

    def reverse(self, f):
        g, a, b = self.wrap(f)
        h = fst.FST()
        h.init, h.finals = b, {a: 0.0}
        for s, l in g.arcs.items():
            for i, o, t, w in l:
                h.arcs[t].append((i, o, s, w))
        return h


def determin(arcs, inits, finals):
    """subset construction over pair labels (epsilon = ('', '')); trimmed to reachable states"""
    def clo(ss):
        ss = set(ss)
        st = list(ss)
        while st:
            for lab, t in arcs.get(st.pop(), ()):
                if lab == ('', '') and t not in ss:
                    ss.add(t)
                    st.append(t)
        return frozenset(ss)
    i = clo(inits)
    out, todo = {i: []}, [i]
    while todo:
        q = todo.pop()
        m = {}
        for s in q:
            for lab, t in arcs.get(s, ()):
                if lab != ('', ''):
                    m.setdefault(lab, set()).add(t)
        for lab, ts in m.items():
            c = clo(ts)
            out[q].append((lab, c))
            if c not in out:
                out[c] = []
                todo.append(c)
                if len(out) > 3000:
                    raise Skip()
    return out, i, {q for q in out if q & finals}


def minimal_states(f):
    arcs = {s: [((i, o), t) for i, o, t, w in l] for s, l in f.arcs.items()}
    a, i, fin = arcs, {f.init}, set(f.finals)
    for _ in range(2):
        rev = {}
        for s, l in a.items():
            for lab, t in l:
                rev.setdefault(t, []).append((lab, s))
        a, q, fin = determin(rev, fin, set(i))
        i = {q}
    return len(a)


def rel(f, bounded):
    try:
        return fst.rel_bounded(f, 4, 4) if bounded else fst.relation(f.paths(20000))
    except OverflowError:
        raise Skip()


def chain(r, f):
    """puts a long chain of epsilons behind an arc, numbered in any order"""
    s = r.choice(sorted(x for x in f.arcs if f.arcs[x]))
    k = r.randrange(len(f.arcs[s]))
    i, o, t, w = f.arcs[s][k]
    n = r.choice([10, 30, 100, 150])
    m = max(f.states()) + 1
    new = list(range(m, m + n))
    x = r.random()
    if x < .4:
        r.shuffle(new)
    elif x < .7:
        new.reverse()
    f.arcs[s][k] = (i, o, new[0], w)
    for a, b in zip(new, new[1:] + [t]):
        f.arcs[a].append(('', '', b, 0.0))


def case(ctx):
    r = ctx.rng
    m = M()
    cyc = r.random() < .4
    letters = r.sample(fstgen.LETTERS, r.randint(2, 3))
    tags = r.sample(fstgen.TAGS, r.randint(1, 2))
    weights = r.random() < .5
    rec = r.random() < .2
    if rec:
        letters, tags, weights = ['a', 'b', 'é'], [], False
    secs = {'s%d' % k: fstgen.rand(r, letters, tags, n=r.randint(2, 7), cyclic=cyc, weights=weights, eps=0 if rec else .15)
            for k in range(2)}
    if r.random() < .15:
        chain(r, secs['s0'])
        ctx.count('long_epsilon_chains')
    bounded = cyc
    neg = not cyc and weights
    ctx.write('in.bin', fst.bin_bytes(''.join(letters), secs, tags=tags, r=r))
    args, st = [], []
    changed = set()

    def push():
        nonlocal st
        if r.random() < .2:
            f = fst.FST()
            args.append('new')
            for _ in range(r.randint(1, 5)):
                w = r.choice([0, 0, .5, 2]) if weights else 0
                args.extend(['path', str(w)])
                s = f.init
                k = r.randint(1, 3)
                for n in range(k):
                    i = r.choice(letters + tags + ([] if rec else ['']))
                    o = r.choice(letters + tags + [''])
                    if r.random() < .4:
                        o = i
                    args.extend([i, o])
                    t = m.new()
                    f.arcs[s].append((i, o, t, float(w) if n == 0 else 0.0))
                    s = t
                args.append('.')
                f.finals[s] = 0.0
            st.append(f)
        else:
            n = r.choice(['s0', 's1'])
            args.extend(['load', n])
            st.append(secs[n])
    push()
    nstar = 0
    for _ in range(r.randint(1, 6)):
        x = r.random()
        if x < .25:
            push()
            op = r.choice(['union', 'concat'])
            args.append(op)
            h = st.pop()
            st[-1] = m.union(st[-1], h) if op == 'union' else m.concat(st[-1], h)
            continue
        op = r.choice(UN)
        if op in ('oneOrMore', 'zeroOrMore'):
            if neg or nstar:
                continue
            nstar += 1
            bounded = True
        if op == 'dup':
            if len(st) > 2:
                continue
            st.append(st[-1])
        elif op == 'reverse':
            st[-1] = m.reverse(st[-1])
        elif op in ('optional', 'oneOrMore', 'zeroOrMore'):
            st[-1] = m.star(st[-1], op != 'oneOrMore', op != 'optional')
        args.append(op)
        if op == 'write':
            args.append(str(r.choice([0, 0, 1, 7])))
    mini = r.random() < .4
    if mini:
        args.append('minimize')
    asked = []
    if rec:
        for _ in range(r.randint(1, 4)):
            w = ''.join(r.choice(letters) for _ in range(r.randint(0, 4)))
            asked.append(w)
            args += ['recognise', w]
    args.append('stats')
    out = ctx.run('fstops', [ctx.path('in.bin'), ctx.path('out.bin')] + args).text
    try:
        b = fst.read_bin(ctx.path('out.bin'))
    except fst.BinErr as e:
        raise Violation('the result cannot be read back: %s' % e, script=args)
    if set(b.letters) != set(letters):
        raise Violation('alphabetic characters %r' % b.letters, script=args)
    nonempty = False
    for k, f in enumerate(st):
        e, g = rel(f, bounded), rel(b.sections['r%d' % k], bounded)
        d = fst.same_relation(e, g)
        if d:
            raise Violation('transducer %d: %s' % (k, d), script=args)
        ctx.count('pairs', len(e))
        nonempty = nonempty or bool(e)
    top = b.sections['r%d' % (len(st) - 1)]
    if mini:
        for s, l in top.arcs.items():
            labs = [(i, o, w) for i, o, t, w in l]
            if len(set(labs)) != len(labs):
                raise Violation('state %r is not deterministic after minimising' % s, script=args)
            if any(x == ('', '', 0.0) for x in labs):
                raise Violation('epsilon arc after minimising', script=args)
        if not weights:
            got, exp = len(top.states()), minimal_states(st[-1])
            if not exp <= got <= exp + 1:
                raise Violation('%d states after minimising, the minimal automaton has %d' % (got, exp), script=args)
            ctx.count('minimal_compared')
    lines = out.split('\n')
    i = 0
    for w in asked:
        exp = any(''.join(k[0]) == w for k in rel_in(st[-1]))
        if lines[i] != 'recognise %d' % exp:
            raise Violation('recognise(%r): %s' % (w, lines[i]), script=args)
        ctx.count('recognised' if exp else 'refused')
        i += 1
    s = lines[i].split()
    na = sum(map(len, top.arcs.values()))
    if [int(s[2]), int(s[4]), int(s[6])] != [na, int(not top.finals), len(top.finals)]:
        raise Violation('statistics %r differ from the transducer written (%d arcs, %d finals)' % (
            lines[i], na, len(top.finals)), script=args)
    if (s[5] == '1') != any([w for l in top.arcs.values() for _, _, _, w in l] + list(top.finals.values())):
        raise Violation('weighted() is %s' % s[5], script=args)
    if nonempty:
        ctx.sig(args, [sorted((s, l) for s, l in f.arcs.items()) for f in secs.values()])
        if ctx.sample is None:
            ctx.sample = {'case': ctx.idx, 'script': args, 'pairs': len(e)}


def rel_in(f):
    g = fst.FST()
    g.init, g.finals = f.init, f.finals
    for s, l in f.arcs.items():
        g.arcs[s] = [(i, '', t, w) for i, o, t, w in l]
    return rel(g, True)
