"""C18: -N, -L and -W print the best analyses, whole weight classes and the true weights."""
import re
from fw import Violation, Skip
import dix, stream, model
from c08 import forms

SPEC = dict(
    id='C18', level='exploration',
    technique='reference-model monitor over sanitized lt-proc runs with -N, -L and -W: the readings printed for every word are '
              'compared with the N best and the L best weight classes of the denoted relation, and the printed weights with its '
              'weights',
    rule='one evaluation = one stream processed with one set of limits; non-trivial when some word loses readings to a limit '
         'or shows weights; distinct by relation, options and stream',
    quick=3000, thorough=40000, min_distinct=600)

WT = [0, 0, .5, .5, .50390625, .501953125, 1, 1.25, 2, 3, 10, 1024.5, -1]
HALVES = [w for w in WT if w * 2 % 1 == 0]       # lt-comp reads these exactly from text
RE_W = re.compile(r'<W:(-?[0-9.]+|-?inf)>$')


def att(r, rel):
    lines, fin, n = [], [], 0
    for (i, o), w in sorted(rel.items()):
        i, o = list(i), list(o)
        k = max(len(i), len(o))
        i += ['ε'] * (k - len(i))
        while len(o) < k:
            o.insert(r.randint(0, len(o)), 'ε')
        ws = [0.] * (k + 1)
        if r.random() < .3:
            a = r.choice([.5, 1, 7.5])
            ws[r.randint(0, k)] += a
            w -= a
        ws[r.choice([k, k, r.randint(0, k)])] += w
        st = 0
        for x, y, v in zip(i, o, ws):
            n += 1
            lines.append('%d\t%d\t%s\t%s\t%r' % (st, n, x, y, v))
            st = n
        fin.append('%d\t%r' % (st, ws[k]))
    return '\n'.join(lines + fin) + '\n'


def case(ctx):
    r = ctx.rng
    L = r.sample(list('abcdé') + ['ж', '中', '\U0001F600'], 3)
    T = ['<n>', '<v>', '<sg>', '<pl>']
    weighted = r.random() < .85
    use_att = weighted and all(c.isalpha() for c in L) and r.random() < .35

    def word(lo=1, hi=2):
        return [r.choice(L) for _ in range(r.randint(lo, hi))]
    mode = r.choice(['', '', '-g', '-b'])
    lefts = [word() + ([r.choice(T)] if mode == '-b' else []) for _ in range(r.randint(1, 3))]
    es = []
    for _ in range(r.randint(2, 12)):
        l, rr = r.choice(lefts), word() + [r.choice(T) for _ in range(r.randint(0, 2))]
        if mode == '-g':
            l, rr = word(1, 3), r.choice(lefts) + ['<n>']
        a = {'w': repr(float(r.choice(HALVES if use_att else WT)))} if weighted and r.random() < .8 else {}
        k = r.randint(0, len(rr))
        if r.random() < .3 and 0 < k:
            es.append(dix.Entry([('p', l, rr[:k]), ('p', [], rr[k:])], **a))
        else:
            es.append(dix.Entry([('p', l, rr)], **a))
    d = dix.Dix()
    d.alphabet = ''.join(L)
    d.sdefs = T
    d.sections = [('main', 'standard', es)]
    if len(es) > 3 and r.random() < .4:
        k = r.randint(1, len(es) - 1)
        d.sections = [('main', 'standard', es[:k]), ('two', 'inconditional' if mode else 'standard', es[k:])]
    direction = 'rl' if mode == '-g' else 'lr'
    rels = dix.denote(d, dix.Sel(direction))
    if use_att:
        # the same pairs as text, with the weights anywhere on the path
        one = {}
        for rel in rels.values():
            for p, w in rel.items():
                one[p] = min(w, one.get(p, w))
        rels = {'main@standard': one}
        ctx.write('d.att', att(r, one))
        ctx.run('lt-comp', ['lr', ctx.path('d.att'), ctx.path('d.bin')])
        ctx.count('from_att')
    else:
        ctx.write('d.dix', dix.dix_xml(d))
        ctx.run('lt-comp', [direction, ctx.path('d.dix'), ctx.path('d.bin')])
    N = r.choice([1, 1, 2, 3, 5]) if r.random() < .6 else None
    Lc = r.choice([1, 1, 2, 3]) if r.random() < .5 else None
    W = r.random() < .5
    args = ([mode] if mode else []) + (['-N', str(N)] if N else []) + (['-L', str(Lc)] if Lc else []) + (['-W'] if W else [])
    inputs = sorted({i for rel in rels.values() for i, o in rel})
    trie = model.build(rels)
    words, exps = [], []
    for _ in range(r.randint(1, 5)):
        i = list(r.choice(inputs))
        if r.random() < .25:
            i = [stream.upper(c) if len(c) == 1 and (k == 0 or r.random() < .3) else c for k, c in enumerate(i)]
        words.append(i)
        if mode == '-b':
            i = [c.lower() if len(c) == 1 else c for c in i]
            words[-1] = i
            exps.append(forms(trie, i, '-g', False, False))
        elif mode == '-g':
            exps.append(forms(trie, i, '-g', False, False))
        else:
            an = model.Analyser(rels, d.alphabet)
            exps.append(an.lookup(i))
    if mode:
        src = ' '.join('^%s$' % ''.join(i) for i in words) + '\n'
    else:
        src = ' '.join(''.join(i) for i in words) + '\n'
    out = ctx.run('lt-proc', args + [ctx.path('d.bin')], src).text
    info = dict(args=args, input=src, output=out)
    if mode == '-g':
        got = [x.split('/') for x in out.rstrip('\n').split(' ')]
    else:
        got = [x[1][1:] for x in stream.parse_or_violate(out, 'the output', **info) if x[0] == 'lu']
    if len(got) != len(words):
        raise Violation('%d words printed for %d' % (len(got), len(words)), **info)
    judged = False
    for i, exp, g in zip(words, exps, got):
        if not exp:
            continue
        rs = []
        for a in g:
            if W:
                m = RE_W.search(a)
                if not m:
                    raise Violation('no weight shown for %r' % a, **info)
                rs.append((a[:m.start()], float(m.group(1))))
            else:
                rs.append((a, None))
        names = [a for a, _ in rs]
        if len(set(names)) != len(names):
            raise Violation('%r: repeated readings %r' % (''.join(i), names), **info)
        for a, w in rs:
            if a not in exp:
                raise Violation('%r: unexpected reading %r' % (''.join(i), a), expected=exp, **info)
            if w is not None and abs(w - exp[a]) > 1e-5:
                raise Violation('%r: reading %r shows weight %r, it has %r' % (''.join(i), a, w, exp[a]), **info)
            if w is not None:
                ctx.count('weights_compared')
        classes = sorted(set(exp.values()))
        allowed = {a for a, w in exp.items() if Lc is None or w in classes[:Lc]}
        n = len(allowed) if N is None else min(N, len(allowed))
        if set(names) - allowed:
            raise Violation('%r: reading %r is not in the first %d weight classes' % (
                ''.join(i), sorted(set(names) - allowed)[0], Lc), expected=exp, **info)
        if len(names) != n:
            raise Violation('%r: %d readings printed, expected %d' % (''.join(i), len(names), n), expected=exp, **info)
        ws = [exp[a] for a in names]
        if ws != sorted(ws):
            raise Violation('%r: the readings are not ordered by weight' % ''.join(i), expected=exp, **info)
        rest = [exp[a] for a in allowed - set(names)]
        if rest and ws and max(ws) > min(rest):
            raise Violation('%r: a better reading was left out' % ''.join(i), expected=exp, **info)
        if len(names) < len(exp):
            ctx.count('limited_words')
            judged = True
        if W and len(names) > 1:
            judged = True
        ctx.count('words')
    if judged:
        ctx.sig(sorted((n, sorted(x.items())) for n, x in rels.items()), args, src)
        if ctx.sample is None:
            ctx.sample = {'case': ctx.idx, 'args': args, 'input': src, 'output': out}
