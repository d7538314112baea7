"""C13: lt-compose computes the weighted composition."""
from fw import Violation, Skip
import fst, fstgen

SPEC = dict(
    id='C13', level='exploration',
    technique='reference-model monitor over sanitized lt-compose runs: the composed binary, read by an independent reader, '
              'compared with the composition of the two relations computed pair by pair',
    rule='one evaluation = one pair of random transducer files and set of options; non-trivial when the composition is not '
         'empty; distinct by the result and options',
    quick=12000, thorough=80000, min_distinct=400)

TAGS = ['<n>', '<v>', '<sg>', '<é>']


def steps(s, g, memo):
    """all (output, weight) of (copy | g)* over the string s, g a list of (in, out, w)"""
    best = [dict() for _ in range(len(s) + 1)]
    best[0][()] = 0.0
    for k in range(len(s)):
        for o, w in list(best[k].items()):
            def put(n, o2, w2):
                b = best[n]
                if o2 not in b or w2 < b[o2]:
                    b[o2] = w2
            put(k + 1, o + (s[k],), w)
            for gi, go, gw in g:
                if s[k:k + len(gi)] == gi:
                    put(k + len(gi), o + go, w + gw)
        if sum(map(len, best)) > 4000:
            raise Skip()
    return best[len(s)]


def cyclic_case(ctx):
    """anchored composition of transducers with loops, compared up to a length"""
    r = ctx.rng
    inv = r.random() < .4
    letters = r.sample(fstgen.LETTERS, 2)
    ft, gt = r.sample(TAGS, 1), r.sample(TAGS, 1)
    F = {n: fstgen.rand(r, letters, ft, n=r.randint(2, 4), cyclic=True) for n in
         r.sample(['main@standard', 'x@postblank'], r.choice([1, 2]))}
    g = fstgen.rand(r, letters, gt, n=r.randint(2, 4), cyclic=True)
    ctx.write('f.bin', fst.bin_bytes(''.join(letters), F, tags=ft, r=r))
    ctx.write('g.bin', fst.bin_bytes(''.join(letters), {'main@standard': g}, tags=gt, r=r))
    exp = {n: fst.compose(f.inverted(), g).inverted() if inv else fst.compose(f, g) for n, f in F.items()}
    exp = {n: f.trimmed() for n, f in exp.items()}
    args = ['-i'] if inv else []
    res = ctx.run('lt-compose', args + [ctx.path('f.bin'), ctx.path('g.bin'), ctx.path('o.bin')], allow_fail=True)
    if res.rc:
        if res.rc != 1 or any(f.finals for f in exp.values()):
            raise Violation('lt-compose exits %d although the composition is not empty' % res.rc,
                            stderr=res.err.decode('utf-8', 'replace'), args=args)
        ctx.count('empty')
        return
    b = fst.read_bin(ctx.path('o.bin'))
    some = []
    for n, f in exp.items():
        try:
            e = fst.rel_bounded(f, 3, 3)
            got = fst.rel_bounded(b.sections[n], 3, 3) if n in b.sections else {}
        except OverflowError:
            raise Skip()
        d = fst.same_relation(e, got)
        if d:
            raise Violation('section %s: %s' % (n, d), args=args, f=repr(dict(F[n].arcs)), g=repr(dict(g.arcs)))
        some += sorted(e.items())
        ctx.count('cyclic_pairs', len(e))
    if some:
        ctx.count('cyclic')
        ctx.sig(some, args)


def case(ctx):
    r = ctx.rng
    if r.random() < .2:
        return cyclic_case(ctx)
    inv, anyw = r.random() < .4, r.random() < .4
    letters = r.sample(fstgen.LETTERS, r.randint(2, 3))
    ft = r.sample(TAGS, r.randint(1, 3))
    gt = r.sample(TAGS, r.randint(1, 3))
    wts = r.random() < .6
    names = r.sample(['main@standard', 'final@inconditional', 'x@postblank', 's2@standard'], r.choice([1, 1, 2, 3]))
    F = {n: fstgen.rand(r, letters, ft, n=r.randint(2, 6), weights=wts) for n in names}
    G = {n: fstgen.rand(r, letters + (['z'] if r.random() < .2 else []), gt, n=r.randint(2, 4 if anyw else 6), weights=wts,
                        eps=r.choice([0, .1, .25]))
         for n in r.sample(['main@standard', 'g@standard', 'h@inconditional'], r.choice([1, 1, 2]))}
    try:
        fr = {n: fst.relation(f.paths(20000)) for n, f in F.items()}
        gl = [(i, o, w) for f in G.values() for i, o, w in f.paths(5000)]
    except OverflowError:
        raise Skip()
    if anyw:
        gl = [p for p in gl]
        if any(not i for i, o, w in gl):
            raise Skip()       # an empty match of g could be repeated for ever
        if r.random() < .5 or len(gl) > 60:
            gl = gl[:60]
            G = {'main@standard': trie(gl)}
    # rename the middle side to something g reads, half of the time
    if not anyw and gl and r.random() < .5:
        for n, f in F.items():
            for i, o, w in r.sample(gl, min(3, len(gl))):
                add(f, [r.choice(letters) for _ in range(r.randint(1, 3))], list(i), inv, r)
            fr[n] = fst.relation(f.paths())
    if anyw:
        gi = {}
        memo = {}
    else:
        gi = {}
        for i, o, w in gl:
            d = gi.setdefault(i, {})
            if o not in d or w < d[o]:
                d[o] = w
    exp = {}
    for n, rel in fr.items():
        e = {}
        for (a, b), w in rel.items():
            mid = a if inv else b
            if anyw:
                outs = memo.get(mid)
                if outs is None:
                    outs = memo[mid] = steps(mid, gl, memo)
            else:
                outs = gi.get(mid, {})
            for o, w2 in outs.items():
                k = (o, b) if inv else (a, o)
                if k not in e or w + w2 < e[k]:
                    e[k] = w + w2
                if len(e) > 30000:
                    raise Skip()
        exp[n] = e
    lf = ''.join(letters)
    ctx.write('f.bin', fst.bin_bytes(lf, F, tags=ft, r=r))
    ctx.write('g.bin', fst.bin_bytes(lf + 'z', G, tags=gt, r=r))
    env = {'LT_JOBS': 'y'} if r.random() < .2 else None
    args = (['-i'] if inv else []) + (['-a'] if anyw else []) + (['-j'] if r.random() < .2 else [])
    res = ctx.run('lt-compose', args + [ctx.path('f.bin'), ctx.path('g.bin'), ctx.path('o.bin')], allow_fail=True, env=env)
    info = dict(args=args, f=repr({n: sorted(x.items()) for n, x in fr.items()})[:3000], g=repr(sorted(gl))[:2000])
    if res.rc:
        if any(exp.values()):
            raise Violation('lt-compose fails (rc %d) although the composition is not empty' % res.rc,
                            stderr=res.err.decode('utf-8', 'replace'), **info)
        if res.rc != 1:
            raise Violation('lt-compose exits %d' % res.rc, **info)
        ctx.count('empty')
        return
    try:
        b = fst.read_bin(ctx.path('o.bin'))
    except fst.BinErr as e:
        raise Violation('the result cannot be read back: %s' % e, **info)
    if set(b.sections) - set(exp):
        raise Violation('sections %r, first operand has %r' % (sorted(b.sections), sorted(exp)), **info)
    for n, e in exp.items():
        try:
            got = fst.relation(b.sections[n].paths(100000)) if n in b.sections else {}
        except OverflowError:
            raise Violation('section %s: far too many pairs' % n, **info)
        d = fst.same_relation(e, got)
        if d:
            raise Violation('section %s: %s' % (n, d), **info)
        ctx.count('pairs', len(e))
    if set(b.letters) != set(lf):
        raise Violation('alphabetic characters %r, first operand has %r' % (b.letters, lf), **info)
    ctx.count('inverted' if inv else 'forward')
    ctx.count('anywhere' if anyw else 'anchored')
    if len(names) > 1 and (env or '-j' in args):
        ctx.count('parallel_sections')
    if any(exp.values()):
        ctx.sig(sorted((n, sorted(e.items())) for n, e in exp.items()), args)
        if ctx.sample is None:
            ctx.sample = {'case': ctx.idx, 'args': args, 'pairs': sum(map(len, exp.values()))}


def trie(paths):
    f = fst.FST()
    n = 0
    for i, o, w in paths:
        s = 0
        for k in range(max(len(i), len(o))):
            n += 1
            f.arcs[s].append((i[k] if k < len(i) else '', o[k] if k < len(o) else '', n, w if k == 0 else 0.0))
            s = n
        f.finals[s] = 0.0
    return f


def add(f, a, mid, inv, r):
    s = f.init
    for k in range(max(len(a), len(mid))):
        x, y = (a[k] if k < len(a) else ''), (mid[k] if k < len(mid) else '')
        if inv:
            x, y = y, x
        t = ('n', r.random())
        f.arcs[s].append((x, y, t, 0.0))
        s = t
    f.finals[s] = 0.0
