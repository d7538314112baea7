"""C20: compiling and composing in parallel is free of data races and gives the same result."""
from fw import Violation, Skip
import dix, fst, fstgen, anagen
from c14 import relof
from c15 import table as acx_table, xml as acx_xml

SPEC = dict(
    id='C20', level='exploration', variant='tsan',
    technique='ThreadSanitizer (happens-before race detector) on real lt-comp -j and lt-compose -j runs with several sections, '
              'plus a reference-model comparison of the result',
    rule='one evaluation = one parallel run with at least two section threads, checked for races, deadlock and result; '
         'distinct by relation, threads and options',
    quick=3000, thorough=12000, min_distinct=250)


def jobs(r):
    return (['-j'], None) if r.random() < .6 else ([], {'LT_JOBS': 'yes'})


def load(ctx, n):
    try:
        return fst.read_bin(ctx.path(n))
    except fst.BinErr as e:
        raise Violation('the result cannot be read back: %s' % e)


def comp(ctx, r):
    letters = r.sample(list('abcdefghéж') + ['中', '\U0001F600'], 6)
    g = anagen.AGen(r, letters=letters, regex=r.random() < .3, filters=False, cyclic=False, maxpar=r.randint(0, 3))
    d = g.dix()
    pars = [n for n, _ in d.pardefs]
    n = r.randint(2, 8)
    big = r.random() < .1
    d.sections = [('s%d' % k, r.choice(['standard', 'inconditional', 'postblank', 'preblank']),
                   [g.entry(pars, False) for _ in range(r.randint(40, 120) if big else r.randint(1, 10))]) for k in range(n)]
    direction = r.choice(['lr', 'rl'])
    sel = dix.Sel(direction)
    try:
        exp = dix.denote(d, sel)
    except dix.TooBig:
        raise Skip()
    if any('' in v or ' ' in v for v in dix.firsts(d, sel).values()) or not all(exp.values()):
        raise Skip()
    if sum(map(len, exp.values())) > 20000 or not dix.finite(d):
        raise Skip()
    args, env = jobs(r)
    env = dict(env or {})
    if r.random() < .5:
        env['LT_MAX_SECTION_ENTRIES'] = str(r.choice([1, 2, 3, 5]))
    p = ctx.write('d.dix', dix.dix_xml(d))
    ctx.run('lt-comp', args + [direction, p, ctx.path('o.bin')], env=env, timeout=60)
    b = load(ctx, 'o.bin')
    got = {}
    for name, f in b.sections.items():
        base = name.lstrip('+')
        if base not in exp:
            raise Violation('section %s is not in the dictionary' % name, env=env)
        for k, w in fst.relation(f.paths()).items():
            x = got.setdefault(base, {})
            x[k] = min(w, x.get(k, w))
    for name, e in exp.items():
        df = fst.same_relation(e, got.get(name, {}))
        if df:
            raise Violation('section %s: %s' % (name, df), args=args, env=env)
    ctx.count('comp')
    if len(b.sections) > n:
        ctx.count('split_sections')
    return len(b.sections), sorted((k, sorted(v.items())) for k, v in exp.items()), args, sorted(env.items())


def compose(ctx, r):
    letters = r.sample(fstgen.LETTERS, 3)
    ft, gt = r.sample(fstgen.TAGS, 2), r.sample(fstgen.TAGS, 2)
    n = r.randint(2, 8)
    F = {'s%d@standard' % k: fstgen.rand(r, letters, ft, n=r.randint(2, 9)) for k in range(n)}
    G = {'main@standard': fstgen.rand(r, letters, gt, n=r.randint(2, 6))}
    inv = r.random() < .3
    g = G['main@standard']
    exp = {}
    try:
        for k, f in F.items():
            h = fst.compose(f.inverted(), g).inverted() if inv else fst.compose(f, g)
            exp[k] = fst.relation(h.paths(20000))
    except OverflowError:
        raise Skip()
    if not any(exp.values()):
        raise Skip()
    ctx.write('f.bin', fst.bin_bytes(''.join(letters), F, tags=ft, r=r))
    ctx.write('g.bin', fst.bin_bytes(''.join(letters), G, tags=gt, r=r))
    args, env = jobs(r)
    args = args + (['-i'] if inv else [])
    ctx.run('lt-compose', args + [ctx.path('f.bin'), ctx.path('g.bin'), ctx.path('o.bin')], env=env, timeout=60)
    b = load(ctx, 'o.bin')
    for k, e in exp.items():
        df = fst.same_relation(e, fst.relation(b.sections[k].paths()) if k in b.sections else {})
        if df:
            raise Violation('section %s: %s' % (k, df), args=args, env=env)
    ctx.count('compose')
    return n, sorted((k, sorted(v.items())) for k, v in exp.items()), args, env


def merged(ctx, name, cyc):
    """{section without its + marks: relation}"""
    out = {}
    for k, f in load(ctx, name).sections.items():
        out.setdefault(k.lstrip('+'), []).append(f)
    return {k: relof(l[0] if len(l) == 1 else fst.combined(l), cyc) for k, l in out.items()}


def both(ctx, r):
    """anything the tools can do, with and without -j"""
    env = {}
    cyc = True
    if r.random() < .6:
        g = anagen.AGen(r) if r.random() < .5 else dix.Gen(r)
        d = g.dix()
        if len(d.sections) < 2 or r.random() < .3:
            d.sections += [('t%d' % k, r.choice(['standard', 'inconditional', 'postblank']), r.choice(d.sections)[2])
                           for k in range(r.randint(1, 4))]
        if r.random() < .2:
            d.sections.append((d.sections[0][0], d.sections[0][1], r.choice(d.sections)[2]))
        cyc = not dix.finite(d)
        direction = r.choice(['lr', 'rl', 'u'])
        p = ctx.write('d.dix', dix.dix_xml(d))
        sel = dix.Sel(direction, alt=r.choice(['', '', 'x']), v=r.choice(['', 'p']), m=r.random() < .1)
        opts = sel.args() if direction != 'u' else []
        if r.random() < .3:
            env['LT_MAX_SECTION_ENTRIES'] = str(r.choice([1, 2, 3, 7]))
        tail = []
        if r.random() < .3 and direction == 'lr':
            ctx.write('t.acx', acx_xml(acx_table(r, list(g.letters))))
            tail = [ctx.path('t.acx')]
        run = lambda j, o, e: ctx.run('lt-comp', j + opts + [direction, p, ctx.path(o)] + tail, env=e, timeout=60, allow_fail=True)
        what = 'comp_' + direction + ('_acx' if tail else '')
    else:
        letters = r.sample(fstgen.LETTERS, 3)
        ft, gt = r.sample(fstgen.TAGS, 2), r.sample(fstgen.TAGS, 2)
        F = {'s%d@standard' % k: fstgen.rand(r, letters, ft, n=r.randint(2, 7), cyclic=r.random() < .2)
             for k in range(r.randint(2, 8))}
        G = {'g%d@standard' % k: fstgen.rand(r, letters, gt, n=r.randint(2, 5), eps=0) for k in range(r.randint(1, 3))}
        ctx.write('f.bin', fst.bin_bytes(''.join(letters), F, tags=ft, r=r))
        ctx.write('g.bin', fst.bin_bytes(''.join(letters), G, tags=gt, r=r))
        opts = [x for x in ('-a', '-i') if r.random() < .5]
        run = lambda j, o, e: ctx.run('lt-compose', j + opts + [ctx.path('f.bin'), ctx.path('g.bin'), ctx.path(o)], env=e,
                                      timeout=60, allow_fail=True)
        what = 'compose' + ''.join(opts)
    a = run([], 's.bin', r.choice([None, {'LT_JOBS': 'no'}]))
    args, jenv = jobs(r)
    b = run(args, 'j.bin', dict(env, **(jenv or {})))
    if a.rc != b.rc:
        raise Violation('%s: exit %d, but %d with %s' % (what, a.rc, b.rc, args or jenv), stderr=b.err)
    if a.rc:
        raise Skip()
    A, B = merged(ctx, 's.bin', cyc), merged(ctx, 'j.bin', cyc)
    for k in sorted(set(A) | set(B)):
        df = fst.same_relation(A.get(k, {}), B.get(k, {}))
        if df:
            raise Violation('%s: section %s in parallel: %s' % (what, k, df), args=args + opts, env=env)
    la, lb = load(ctx, 's.bin').letters, load(ctx, 'j.bin').letters
    if la != lb:
        raise Violation('%s: other letters in parallel' % what)
    ctx.count('same_' + what)
    n = len(load(ctx, 'j.bin').sections)
    return n, sorted((k, sorted(v.items())) for k, v in A.items()), args + opts, sorted(env.items())


def huge(ctx, r):
    """a section with more entries than one job takes"""
    n = r.randint(50000, 51500)
    w = lambda k: ''.join(chr(97 + (k >> s) % 16) for s in (0, 4, 8, 12))
    k0 = r.randint(1, 65535)
    ctx.write('d.dix', '<dictionary><alphabet/><sdefs/><section id="s" type="standard">\n%s\n</section>'
              '<section id="t" type="standard"><e><i>z</i></e></section></dictionary>\n' % '\n'.join(
                  '<e><p><l>%s</l><r>%s</r></p></e>' % (w(k), w(k * 3)) for k in range(n)))
    ctx.run('lt-comp', ['-j', 'lr', ctx.path('d.dix'), ctx.path('o.bin')], timeout=400)
    b = load(ctx, 'o.bin')
    got = {}
    for name, f in b.sections.items():
        if name.lstrip('+') not in ('s@standard', 't@standard'):
            raise Violation('section %s is not in the dictionary' % name)
        if name.lstrip('+') == 's@standard':
            got.update(fst.relation(f.paths(10 ** 6)))
    exp = {(tuple(w(k)), tuple(w(k * 3))): 0.0 for k in range(n)}
    df = fst.same_relation(exp, got)
    if df:
        raise Violation('%d entries: %s' % (n, df))
    ctx.count('huge_sections')
    return len(b.sections), [n, k0], ['-j'], []


def case(ctx):
    r = ctx.rng
    if ctx.idx == 3:
        n, rel, args, env = huge(ctx, r)
        ctx.count('section_threads', n)
        return ctx.sig(rel, n)
    k = r.random()
    n, rel, args, env = (comp if k < .35 else compose if k < .65 else both)(ctx, r)
    ctx.count('section_threads', n)
    if n > 1:
        ctx.sig(rel, n, args, env)
        if ctx.sample is None:
            ctx.sample = {'case': ctx.idx, 'threads': n, 'args': args, 'env': env, 'pairs': sum(len(x) for _, x in rel)}
