"""C15: equivalent characters (ACX) are accepted exactly where the original character is."""
from fw import Violation, Skip
from xml.sax.saxutils import quoteattr
import dix, fst, fstgen
from c14 import relof, readback

SPEC = dict(
    id='C15', level='exploration',
    technique='reference-model monitor over sanitized lt-apply-acx and lt-comp runs with a table of equivalent characters: '
              'the binary, read by an independent reader, compared with the relation closed under the substitutions',
    rule='one evaluation = one transducer or dictionary with one ACX table; non-trivial when some substitution applies; '
         'distinct by the expected relation',
    quick=5000, thorough=60000, min_distinct=500)


def closed(rel, acx):
    out = {}
    for (i, o), w in rel.items():
        vs = [()]
        for s in i:
            vs = [v + (x,) for v in vs for x in [s] + acx.get(s, [])]
            if len(vs) > 3000:
                raise Skip()
        for v in vs:
            if (v, o) not in out or w < out[v, o]:
                out[v, o] = w
        if len(out) > 40000:
            raise Skip()
    return out


def xml(acx):
    return '<?xml version="1.0" encoding="UTF-8"?>\n<analysis-chars>\n' + ''.join(
        '  <char value=%s>\n%s  </char>\n' % (quoteattr(k), ''.join('    <equiv-char value=%s/>\n' % quoteattr(x) for x in v))
        for k, v in acx.items()) + '</analysis-chars>\n'


def table(r, letters):
    acx = {}
    pool = list(letters) + ['á', 'ä', '\U00010400', '\U0001F601', 'ẞ', '-', "'", 'ʼ']
    for c in r.sample(letters, r.randint(1, len(letters))):
        v = [x for x in r.sample(pool, r.randint(1, 3)) if x != c]
        if v:
            acx[c] = v
    return acx


def case(ctx):
    r = ctx.rng
    if r.random() < .4:
        cyc = r.random() < .2
        letters = r.sample(fstgen.LETTERS, r.randint(2, 4))
        secs = {n: fstgen.rand(r, letters, n=r.randint(2, 6), cyclic=cyc)
                for n in r.sample(['main@standard', 'x@postblank', 'y@inconditional'], r.choice([1, 1, 2]))}
        acx = table(r, letters)
        tags = r.sample(fstgen.TAGS, 2)
        ctx.write('a.bin', fst.bin_bytes(''.join(letters), secs, tags=tags, r=r))
        ctx.write('t.acx', xml(acx))
        ctx.run('lt-apply-acx', [ctx.path('a.bin'), ctx.path('t.acx'), ctx.path('o.bin')])
        base = {n: relof(f, cyc) for n, f in secs.items()}
        kind = 'apply'
    else:
        cyc = False
        g = dix.Gen(r)
        letters = list(g.letters)
        d = g.dix()
        if not dix.finite(d) or 're' in {x[0] for es in [e for _, e in d.pardefs] + [e for _, _, e in d.sections]
                                        for e in es for x in e.elems}:
            raise Skip()
        sel = dix.Sel('lr')
        try:
            base = dix.denote(d, sel)
        except dix.TooBig:
            raise Skip()
        if any('' in v or ' ' in v for v in dix.firsts(d, sel).values()):
            raise Skip()
        acx = table(r, letters)
        p = ctx.write('d.dix', dix.dix_xml(d))
        ctx.write('t.acx', xml(acx))
        if r.random() < .6:
            ctx.run('lt-comp', ['lr', p, ctx.path('o.bin'), ctx.path('t.acx')])
            kind = 'compile'
        else:
            ctx.run('lt-comp', ['lr', p, ctx.path('a.bin')])
            ctx.run('lt-apply-acx', [ctx.path('a.bin'), ctx.path('t.acx'), ctx.path('o.bin')])
            kind = 'compile_apply'
    b = readback(ctx, 'o.bin')
    some = []
    for n, rel in base.items():
        exp = closed(rel, acx)
        got = relof(b.sections[n], cyc) if n in b.sections else {}
        df = fst.same_relation(exp, got)
        if df:
            raise Violation('%s: section %s: %s' % (kind, n, df), acx=acx)
        ctx.count('pairs', len(exp))
        ctx.count('added', len(exp) - len(rel))
        if len(exp) > len(rel):
            some.append((n, sorted(exp.items())))
    ctx.count(kind)
    if some:
        ctx.sig(some, kind)
        if ctx.sample is None:
            ctx.sample = {'case': ctx.idx, 'kind': kind, 'acx': acx, 'pairs': sum(len(x) for _, x in some)}
