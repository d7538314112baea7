"""C14: lt-append, lt-invert and lt-restrict change exactly what they say and nothing else."""
from fw import Violation, Skip
import dix, fst, fstgen

SPEC = dict(
    id='C14', level='exploration',
    technique='reference-model monitor over sanitized lt-append, lt-invert and lt-restrict runs: binaries read by an '
              'independent reader and compared with the union of sections, the swapped relation, and the denotation of the '
              'dictionary for the selected direction and variants',
    rule='one evaluation = one operation on random files; non-trivial when the result accepts something; distinct by '
         'operation, options and result',
    quick=6000, thorough=60000, min_distinct=600)

NAMES = ['main@standard', 'final@inconditional', 'x@postblank', 's2@standard', 'é b@preblank']


def relof(f, cyc):
    try:
        return fst.rel_bounded(f, 4, 4) if cyc else fst.relation(f.paths(60000))
    except OverflowError:
        raise Skip()


def readback(ctx, n):
    try:
        return fst.read_bin(ctx.path(n))
    except fst.BinErr as e:
        raise Violation('the result cannot be read back: %s' % e)


def compare(ctx, b, exp, letters, cyc, **info):
    if set(b.sections) != set(exp):
        raise Violation('sections %r, expected %r' % (sorted(b.sections), sorted(exp)), **info)
    allp = []
    for n, e in exp.items():
        got = relof(b.sections[n], cyc)
        d = fst.same_relation(e, got)
        if d:
            raise Violation('section %s: %s' % (n, d), **info)
        allp.append((n, sorted(e.items())))
        ctx.count('pairs', len(e))
    if set(b.letters) != set(letters):
        raise Violation('alphabetic characters %r, expected %r' % (b.letters, letters), **info)
    return sorted(allp)


def rand_file(ctx, r, name, letters, tags, cyc):
    secs = {n: fstgen.rand(r, letters, tags, n=r.randint(2, 6), cyclic=cyc) for n in r.sample(NAMES, r.randint(1, 3))}
    ctx.write(name, fst.bin_bytes(''.join(letters), secs, tags=tags, r=r))
    return secs


def append(ctx, r):
    cyc = r.random() < .2
    l1, l2 = r.sample(fstgen.LETTERS, 3), r.sample(fstgen.LETTERS, 3)
    a = rand_file(ctx, r, 'a.bin', l1, r.sample(fstgen.TAGS, 2), cyc)
    b = rand_file(ctx, r, 'b.bin', l2, r.sample(fstgen.TAGS, 2), cyc)
    keep = r.random() < .4
    args = (['-k'] if keep else []) + [ctx.path(x) for x in ('a.bin', 'b.bin', 'o.bin')]
    ctx.run('lt-append', args)
    exp = {n: relof(f, cyc) for n, f in (list(a.items()) + list(b.items()) if not keep else list(b.items()) + list(a.items()))}
    ctx.count('append')
    if set(a) & set(b):
        ctx.count('append_conflict')
    return ['append', keep], compare(ctx, readback(ctx, 'o.bin'), exp, set(l1) | set(l2), cyc, args=args[:-3],
                                     first=sorted(a), second=sorted(b))


def invert(ctx, r):
    cyc = r.random() < .2
    l = r.sample(fstgen.LETTERS, 3)
    a = rand_file(ctx, r, 'a.bin', l, r.sample(fstgen.TAGS, 2), cyc)
    ctx.run('lt-invert', [ctx.path('a.bin'), ctx.path('o.bin')])
    exp = {n: {(o, i): w for (i, o), w in relof(f, cyc).items()} for n, f in a.items()}
    got = compare(ctx, readback(ctx, 'o.bin'), exp, l, cyc)
    ctx.run('lt-invert', [ctx.path('o.bin'), ctx.path('p.bin')])
    compare(ctx, readback(ctx, 'p.bin'), {n: relof(f, cyc) for n, f in a.items()}, l, cyc, note='inverted twice')
    ctx.count('invert')
    return ['invert'], got


def restrict(ctx, r):
    g = dix.Gen(r)
    g.filters = True
    d = g.dix()
    if not dix.finite(d):
        raise Skip()
    p = ctx.write('d.dix', dix.dix_xml(d))
    m = r.random() < .3
    res = ctx.run('lt-comp', (['-m'] if m else []) + ['u', p, ctx.path('u.bin')], allow_fail=True)
    if res.rc:
        if not any('' in v or ' ' in v for x in ('lr', 'rl') for v in dix.firsts(d, dix.Sel(x)).values()):
            raise Violation('lt-comp u exits %d' % res.rc, stderr=res.err)
        raise Skip()
    letters = readback(ctx, 'u.bin').letters
    out = []
    for direction in ('lr', 'rl'):
        sel = dix.Sel(direction, m=m)
        if r.random() < .5:
            sel.alt = r.choice(['x', 'y', 'x', 'y', 'z', 'xy'])
        if r.random() < .5:
            sel.v = r.choice(['p', 'q', 'p', 'q', 's', 'pq'])
        if r.random() < .5:
            sel.vl = r.choice(['s', 't', 's', 't', 'st'])
        if r.random() < .5:
            sel.vr = r.choice(['s', 't', 's', 't', 'st'])
        try:
            exp = dix.denote(d, sel)
        except dix.TooBig:
            raise Skip()
        minim = r.random() < .4
        env = {'LT_RELEASE': 'y'} if r.random() < .1 else None
        args = [x for x in sel.args() if x != '-m'] + (['-m'] if minim else []) + [direction]
        if minim and any(not v for v in exp.values()):
            args.remove('-m')        # minimising an empty section is refused
            env = None
        ctx.run('lt-restrict', args + [ctx.path('u.bin'), ctx.path('o.bin')],
                env=env if all(exp.values()) else None)
        b = readback(ctx, 'o.bin')
        for n in list(b.sections):
            if n not in exp:
                raise Violation('section %s is not in the dictionary' % n)
        for n, e in exp.items():
            got = relof(b.sections[n], False) if n in b.sections else {}
            df = fst.same_relation(e, got)
            if df:
                raise Violation('restricted to %s: section %s: %s' % (' '.join(args), n, df), sel=sel)
            out.append((n, sorted(e.items())))
            ctx.count('pairs', len(e))
        ctx.count('restrict')
    return ['restrict', repr(sel)], out


def case(ctx):
    r = ctx.rng
    op = r.choice([append, invert, restrict, restrict])
    what, got = op(ctx, r)
    if any(p for n, p in got):
        ctx.sig(what, got)
        if ctx.sample is None:
            ctx.sample = {'case': ctx.idx, 'op': what, 'pairs': sum(len(p) for n, p in got)}
