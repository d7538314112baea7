"""C21: the library's lookup functions answer what the bilingual and generation modes print."""
from fw import Violation, Skip
import dix, stream, model
from stream import isupper
from c08 import istag, forms
from c09 import lookup, text_of, split

SPEC = dict(
    id='C21', level='exploration', harness=('lookup',),
    technique='reference-model monitor over the answers of the sanitized library functions, called through a small driver',
    rule='one evaluation = one list of lookups in one dictionary; non-trivial when one is found; distinct by (dictionary, '
         'questions)',
    quick=4000, thorough=60000, min_distinct=800)


def case(ctx):
    r = ctx.rng
    g = dix.Gen(r, regex=False, cyclic=False, filters=False)
    for _ in range(6):
        d = g.dix()
        sel = dix.Sel(r.choice(['lr', 'rl']))
        try:
            rels = dix.denote(d, sel)
        except dix.TooBig:
            continue
        if any('' in v or ' ' in v for v in dix.firsts(d, sel).values()):
            continue
        if 0 < sum(map(len, rels.values())) <= 3000:
            break
    else:
        raise Skip()
    p = ctx.write('d.dix', dix.dix_xml(d))
    ctx.run('lt-comp', [sel.dir, p, ctx.path('d.bin')])
    trie = model.build(rels)
    keys = sorted({i for rel in rels.values() for i, o in rel})
    tags = sorted({s for k in keys for s in k if istag(s)})
    letters = sorted({s for k in keys for s in k if not istag(s)})
    cs = r.random() < .15
    qs = []
    for _ in range(r.randint(3, 25)):
        syms = list(r.choice(keys))
        k = r.random()
        if k < .45:
            pass
        elif k < .7:
            syms += [r.choice(tags + ['<zz>', '<a-b>', '/', '#', ' ', 'q', '\U0001F600']) for _ in range(r.randint(1, 3))]
        elif k < .8:
            syms.insert(r.randint(0, len(syms)), r.choice(['<zz>', '/', '\\', 'q', '<a b>', '\U00010400']))
        elif k < .9:
            syms = syms[:r.randint(1, len(syms))]
        else:
            syms = [r.choice(letters + list('/\\<$^qQ%')) for _ in range(r.randint(1, 4))] + [
                r.choice(tags + ['<zz>']) for _ in range(r.randint(0, 2))]
        if r.random() < .4:
            if r.random() < .5:
                syms[0] = syms[0] if istag(syms[0]) else stream.upper(syms[0])
            else:
                syms = [s if istag(s) else stream.upper(s) for s in syms]
        if syms[0] in ('*', '=') or '\n' in syms or '\t' in syms or any(s != s.strip('\r') for s in syms):
            continue
        qs.append((r.choice(['b', 'bn', 'o', 'on', 'q', 'qn', 'l', 'l']), syms, r.random() < .1, r.random() < .1))
    if not qs:
        raise Skip()
    lines, asked = [], []
    for m, syms, star, eq in qs:
        t = text_of(syms)
        if m != 'l':
            t = ('*' if star else '=' if eq else '') + t
        asked.append((m, syms, t, star, eq))
        lines.append(m + '\t' + ('^%s$' % t if m in 'boq' else t))
    src = '\n'.join(lines) + '\n'
    ctx.write('questions.txt', src)
    out = ctx.run('lookup', [ctx.path('d.bin')] + (['-c'] if cs else []), src).text
    ans = out.split('\n')
    if ans[-1] != '' or len(ans) != len(lines) + 1:
        raise Violation('%d answers to %d questions' % (len(ans) - 1, len(lines)), output=out)
    hits = 0
    for (m, syms, t, star, eq), a in zip(asked, ans):
        fu = not istag(syms[0]) and isupper(syms[0])
        up = fu and len(syms) > 1 and not istag(syms[1]) and isupper(syms[1])
        info = dict(question=m + ' ' + t, answer=a, case_sensitive=cs)
        ctx.count('lookups_' + m[0])
        if m == 'l':
            f = forms(trie, syms, '', cs, False) if not up or fu else {}
            n = len(syms)
            if not fu and len(syms) > 1 and not istag(syms[1]) and isupper(syms[1]):
                # here, unlike when generating, the first letter decides
                f = forms(trie, syms, '', cs, True)
            got = a.split('\t')
            exp = sorted(f)
            if got[0] != ('1' if f else '0') or sorted(got[1:]) != exp:
                raise Violation('lookup gives %r, expected %r' % (got, exp), **info)
            check_order(got[1:], f, info)
            hits += bool(f)
            continue
        dl = m in 'boq'
        if m[0] == 'q':
            n0, _, a = a.partition('\t')
        if star:
            exp = t if not dl else '^%s$' % t
            if a != exp or m[0] == 'q' and n0 != '0':
                raise Violation('expected %r' % exp, **info)
            continue
        n, f = lookup(trie, syms, cs, fu, up)
        if f and n < len(syms) and (m[0] == 'o' or not any(map(istag, syms))):
            f = None
        if not f:
            exp = '@' + t if not dl else '^@%s$' % t
            if a != exp or m[0] == 'q' and n0 != '0':
                raise Violation('expected %r' % exp, **info)
            ctx.count('not_found')
            continue
        hits += 1
        q = text_of(syms[n:])
        if q:
            ctx.count('with_queue')
        pre, post = ('^' if dl else '') + ('=' if eq else ''), '$' if dl else ''
        body = a[len(pre):len(a) - len(post)]
        f = {k + q: w for k, w in f.items()}
        if not a.startswith(pre) or not a.endswith(post) or sorted(split(body)) != sorted(f):
            raise Violation('expected %r%r%r' % (pre, sorted(f), post), **info)
        if m[0] == 'q' and n0 != str(len(q.encode('utf-16-le')) // 2):
            raise Violation('length of the queue %r given as %s' % (q, n0), **info)
        check_order(split(body), f, info)
    if hits:
        ctx.count('found', hits)
        ctx.sig(sorted(map(str, rels.items())), src)
        if ctx.sample is None:
            ctx.sample = {'case': ctx.idx, 'questions': lines[:4], 'answers': ans[:4]}


def check_order(got, f, info):
    ws = [f[g] for g in got]
    if any(ws[i] > ws[i + 1] + 1e-6 for i in range(len(ws) - 1)):
        raise Violation('not ordered by weight: %r' % got, weights=f, **info)
