"""C01: a compiled dictionary denotes exactly what the XML says."""
from fw import Violation, Skip, Inconclusive
import dix, fst

SPEC = dict(
    id='C01', level='exploration',
    technique='reference-model monitor over sanitized lt-comp runs: compiled binary read back by an '
              'independent reader and compared with the denotation of the XML',
    rule='one evaluation = one random dictionary compiled in one direction with one selection of '
         'alt/variants; non-trivial when the expected relation is non-empty (or the dictionary must be '
         'rejected), distinct by the expected relation',
    quick=5000, thorough=40000, min_distinct=200)


def expected(d, sel, N):
    return dix.denote(d, sel, N)


def compare(ctx, d, sel, binp, exp, N, fin):
    try:
        b = fst.read_bin(binp)
    except fst.BinErr as e:
        raise Violation('the compiled file cannot be read back: %s' % e)
    names = {k for k, v in exp.items() if v}
    # with LT_MAX_SECTION_ENTRIES a section is split into s, +s, ++s, ...
    parts = {}
    for k, v in b.sections.items():
        parts.setdefault(k.lstrip('+'), []).append(v)
    secs = {k: v[0] if len(v) == 1 else fst.combined(v) for k, v in parts.items()}
    for k in set(secs) - names:
        if secs[k].trimmed().finals and fin:
            raise Violation('section %s should be empty' % k, sel=sel)
    n = 0
    for k in names:
        if k not in secs:
            raise Violation('section %s missing from the compiled dictionary' % k, sel=sel,
                            expected=sorted(exp[k])[:5])
        f = secs[k]
        try:
            ps = f.paths(120000) if fin else f.paths_bounded(N, N, max_eps=12, limit=120000)
        except OverflowError as e:
            if fin and not f.is_acyclic():
                raise Violation('a finite dictionary compiles to a cyclic section', sel=sel)
            raise Skip()
        got = fst.relation(ps)
        diff = fst.same_relation(exp[k], got, tight=True)
        if diff:
            raise Violation('section %s: %s' % (k, diff), sel=sel)
        n += len(got)
    return n


LSX = {('t',): '<ANY_TAG>', ('w',): '<ANY_CHAR>', ('d',): '<$>', ('f',): '</>', ('d', 'yes'): '<$_>',
       ('d', 'no'): '<$->', ('b',): ' ', ('j',): '+'}


def lsx(ctx):
    """Dictionaries for lsx-proc: wildcards repeat, and every entry may end in a word boundary."""
    r = ctx.rng
    letters = r.sample(dix.LETTERS, 3)
    tags = r.sample(dix.TAGS, 2)

    def side(lo):
        out = []
        for _ in range(r.randint(lo, 4)):
            k = r.random()
            x = r.choice(letters) if k < .45 else r.choice(tags) if k < .65 else r.choice(list(LSX))
            if out and x == out[-1] or not out and x in (('b',), ('f',)):
                continue
            out.append(x)
        return out

    def sxml(l):
        return ''.join('<d space="%s"/>' % x[1] if len(x) > 1 and isinstance(x, tuple) else '<%s/>' % x if isinstance(x, tuple)
                       else dix.side_xml([x]) for x in l)

    def entry(pars, inner=False):
        # a wildcard right behind another one, which may loop already, is not claimed
        el = []
        for _ in range(r.choice([1, 1, 2])):
            k = r.random()
            if pars and k < .3:
                el.append(('par', r.choice(pars)))
            elif k < .65:
                x = side(1)
                el.append(('i', [r.choice(letters)] + x if (el or inner) and x and x[0] in (('t',), ('w',)) else x))
            else:
                el.append(('p', [r.choice(letters)] + side(0), [r.choice(letters)] + side(0)))
        return el, r.choice([0, 0, 0, .5, 2.0])

    def exml(e):
        return '<e%s>%s</e>' % (' w="%s"' % e[1] if e[1] else '', ''.join(
            '<par n="%s"/>' % x[1] if x[0] == 'par' else '<i>%s</i>' % sxml(x[1]) if x[0] == 'i' else
            '<p><l>%s</l><r>%s</r></p>' % (sxml(x[1]), sxml(x[2])) for x in e[0]))
    pars = {}
    for k in range(r.randint(0, 2)):
        pars['p%d' % k] = [entry(sorted(pars), True) for _ in range(r.randint(1, 3))]
    es = [entry(sorted(pars)) for _ in range(r.randint(1, 5))]
    xml = '<dictionary type="%s">\n<alphabet/><sdefs>%s</sdefs><pardefs>%s</pardefs><section id="main" type="standard">\n%s\n' \
          '</section></dictionary>\n' % (
              r.choice(['separable', 'sequential']), ''.join('<sdef n="%s"/>' % t[1:-1] for t in tags),
              ''.join('<pardef n="%s">\n%s\n</pardef>' % (n, '\n'.join(map(exml, l))) for n, l in pars.items()),
              '\n'.join(map(exml, es)))
    ctx.write('d.lsx', xml)
    direction = r.choice(['lr', 'rl'])
    f = fst.FST()
    f.init = 0
    count = [0]

    def new():
        count[0] += 1
        return count[0]

    def add(s, a, b, w):
        a, b = [[LSX[x] if isinstance(x, tuple) else x for x in l] for l in ((a, b) if direction == 'lr' else (b, a))]
        t = new()
        f.arcs[s].append(('', '', t, w))
        s = t
        for k in range(max(len(a), len(b))):
            x, y = a[k] if k < len(a) else '', b[k] if k < len(b) else ''
            t = new()
            f.arcs[s].append((x, y, t, 0.0))
            if x in ('<ANY_TAG>', '<ANY_CHAR>') and y in (x, ''):
                f.arcs[t].append((x, y, t, 0.0))
            s = t
        return s

    def alts(s, l):
        end = new()
        for el, w in l:
            k = new()
            f.arcs[s].append(('', '', k, float(w)))
            for x in el:
                k = alts(k, pars[x[1]]) if x[0] == 'par' else add(k, x[1], x[-1], 0.0)
            f.arcs[k].append(('', '', end, 0.0))
        return end
    e = alts(0, es)
    f.finals[e] = 0.0
    t = new()
    f.arcs[e].append(('<$>', '<$>', t, 0.0))
    f.finals[t] = 0.0
    try:
        exp = fst.rel_bounded(f, 5, 5)
    except OverflowError:
        raise Skip()
    if any(not i or i[0] == ' ' for i, o in fst.rel_bounded(f, 1, 9)):
        raise Skip()
    if any(i[:1] == (' ',) for i, o in exp):
        raise Skip()
    tool = r.choice(['lsx-comp', 'lt-comp'])
    res = ctx.run(tool, [direction, ctx.path('d.lsx'), ctx.path('o.bin')], allow_fail=True)
    if res.rc:
        if b'beginning with whitespace' in res.err or b'is empty' in res.err:
            raise Skip()
        raise Violation('%s exits %d' % (tool, res.rc), xml=xml, stderr=res.err)
    try:
        b = fst.read_bin(ctx.path('o.bin'))
    except fst.BinErr as x:
        raise Violation('the compiled file cannot be read back: %s' % x)
    if set(b.sections) != {'main@standard'}:
        raise Violation('sections %r' % sorted(b.sections), xml=xml)
    try:
        got = fst.rel_bounded(b.sections['main@standard'], 5, 5)
    except OverflowError:
        raise Violation('far too many pairs', xml=xml)
    df = fst.same_relation(exp, got)
    if df:
        raise Violation('separable dictionary (%s): %s' % (direction, df), xml=xml)
    ctx.count('separable')
    ctx.count('pairs_checked', len(exp))
    if exp:
        ctx.sig('lsx', direction, sorted(exp.items()))


def malformed(ctx):
    """a regular expression that is none is refused"""
    r = ctx.rng
    d = dix.Gen(r, regex=False).dix()
    while True:
        t = dix.re_text(r, list('abcé') + ['\U0001F600'], '*+?')
        if dix.re_parse(t) is None:
            break
    i, ty, es = r.choice(d.sections)
    es.insert(r.randint(0, len(es)), dix.Entry([('re', ('raw', t, None))]))
    p = ctx.write('d.dix', dix.dix_xml(d))
    direction = r.choice(['lr', 'rl'])
    res = ctx.run('lt-comp', [direction, p, ctx.path('o.bin')] if direction == 'lr' else ['-v', 'p', 'rl', p, ctx.path('o.bin')], allow_fail=True)
    if res.rc == 0:
        raise Violation('the malformed regular expression %r was accepted' % t)
    ctx.count('malformed_regexp')
    ctx.sig('malformed', t, direction)


def reweigh(r, d):
    """negative or long weights"""
    pool = r.choice([['-0.5', '-1', '-0.125', '-20'], ['12345.678912', '0.333333333', '7', '99999.999'], ['1e3', '2.5e-1', '-0', '1e-3', '.5', '3.']])
    for l in [x[2] for x in d.sections] + list(d.pardefs.values() if isinstance(d.pardefs, dict) else [x[1] for x in d.pardefs]):
        for e in l:
            if e.attrs.get('w'):
                e.attrs['w'] = r.choice(pool)


def case(ctx):
    r = ctx.rng
    if r.random() < .12:
        return lsx(ctx)
    if r.random() < .06:
        return malformed(ctx)
    g = dix.Gen(r)
    d = g.dix()
    if len(d.sections) > 1 and r.random() < .3:      # a section may be continued
        d.sections[-1] = (d.sections[0][0], d.sections[0][1], d.sections[-1][2])
    fin = dix.finite(d)
    if g.weights and fin and r.random() < .4:
        reweigh(r, d)
        ctx.count('unusual_weights')
    N = 10 ** 6 if fin else r.choice([4, 5])
    xml = dix.dix_xml(d)
    p = ctx.write('d.dix', xml)
    for direction in ('lr', 'rl'):
        sel = dix.Sel(direction)
        if r.random() < .3:
            sel.m = True
        if g.filters:
            if r.random() < .5:
                sel.alt = r.choice(['x', 'y', 'x', 'y', 'z', 'xy'])
            if direction == 'rl':
                sel.v = r.choice(['p', 'q', 'p', 'q', 's', 'pq'])
                if r.random() < .5:
                    sel.vl = r.choice(['s', 't', 's', 't', 'st'])
            elif r.random() < .5:
                sel.vr = r.choice(['s', 't', 's', 't', 'st'])
        try:
            exp = expected(d, sel, N)
        except dix.TooBig:
            raise Skip()
        if sum(map(len, exp.values())) > 20000:
            raise Skip()
        out = ctx.path('%s.bin' % direction)
        env = {'LT_MAX_SECTION_ENTRIES': str(r.choice([1, 2, 3]))} if r.random() < .15 else None
        res = ctx.run('lt-comp', sel.args() + [direction, p, out], allow_fail=True, env=env)
        bad = any('' in v or ' ' in v for v in dix.firsts(d, sel).values())
        if bad:
            if res.rc == 0:
                raise Violation('a dictionary whose input side is empty or begins with a blank was accepted',
                                sel=sel, stderr=res.err)
            ctx.count('must_reject')
            ctx.sig('reject', direction, sorted((k, sorted(v)) for k, v in exp.items()))
            continue
        if res.rc != 0:
            raise Violation('lt-comp exits %d' % res.rc, sel=sel, stderr=res.err)
        n = compare(ctx, d, sel, out, exp, N, fin)
        ctx.count('pairs_checked', n)
        ctx.count('finite' if fin else 'cyclic_bounded')
        if g.weights:
            ctx.count('weighted')
        if n:
            ctx.sig(direction, sorted((k, sorted(v.items())) for k, v in exp.items()))
            if ctx.sample is None:
                ctx.sample = {'case': ctx.idx, 'selection': repr(sel), 'dictionary': xml[:400], 'pairs': n}
