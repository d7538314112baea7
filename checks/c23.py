"""C23: decompounding (-e) finds exactly the shortest decompositions of unknown words."""
from fw import Violation, Skip
import dix, stream, textgen, model

SPEC = dict(
    id='C23', level='exploration',
    technique='reference-model monitor (enumeration of all decompositions over the denoted relation) on the output stream of '
              'sanitized lt-proc -e runs',
    rule='one evaluation = one random text analysed with -e and one random dictionary with compound tags; non-trivial when the '
         'model expects at least one compound; distinct by (expected units, options)',
    quick=1200, thorough=40000, min_distinct=300)

NAMES = [('<:co:only-L>', '<:co:R>'), ('<:compound:only-L>', '<:compound:R>'), ('<@co:only-L>', '<@co:R>'),
         ('<@compound:only-L>', '<@compound:R>'), ('<compound-only-L>', '<compound-R>')]
LET = list('abcdeABáÁñж') + ['\U00010428', '\U00010400', '中']


def mkdix(r, multi=False):
    L, R = r.choice(NAMES)
    if r.random() < .1:
        R = r.choice(NAMES)[1]
    letters = r.sample(LET, r.randint(2, 5))
    tags = ['<n>', '<v>', '<cmp>']
    weights = r.random() < .5
    big = 8 if r.random() < .2 else 0
    d = dix.Dix()
    d.alphabet = ''.join(letters)
    d.sdefs = tags + [L, R]

    def w():
        return {'w': str(r.choice([.5, 1, 2.25, 4]))} if weights and r.random() < .5 else {}

    def word(lo, hi):
        return [r.choice(letters) for _ in range(r.randint(lo, hi))]

    def ana(kind):
        t = [r.choice(tags) for _ in range(r.randint(0, 2))]
        if kind:
            t.insert(r.randint(0, len(t)) if r.random() < .4 else len(t), kind)
        return t
    pars = []
    if r.random() < .5:
        for k in range(r.randint(1, 2)):
            es = []
            for _ in range(r.randint(1, 3)):
                kind = r.choice([L, R, R, ''])
                es.append(dix.Entry([('p', word(0, 1), ana(kind))], **w()))
            pars.append('p%d' % k)
            d.pardefs.append(('p%d' % k, es))
    es = []
    for _ in range(r.randint(2, 9)):
        sf = word(1 + big, 3 + big)
        if multi and len(sf) > 1 and r.random() < .5:
            sf.insert(r.randint(1, len(sf) - 1), ('b',))
        lem = list(sf) if r.random() < .7 else word(1, 3)
        if pars and r.random() < .5:
            es.append(dix.Entry([('i', sf) if r.random() < .5 else ('p', sf, lem), ('par', r.choice(pars))], **w()))
            continue
        for kind in r.sample([L, R, ''], r.randint(1, 3)):
            s2 = sf + (word(1, 1) if kind == L and r.random() < .3 else [])
            a = lem + ana(kind)
            if r.random() < .1:
                a = lem + ana('') + [('j',)] + word(1, 2) + ana(kind)
            if r.random() < .15:
                es.append(dix.Entry([('p', [], a[:1]), ('p', s2, a[1:])], **w()))
            else:
                es.append(dix.Entry([('p', s2, a)], **w()))
    if r.random() < .2:
        k = r.randint(1, len(es))
        d.sections = [('s0', 'standard', es[:k]), ('s1', 'standard', es[k:])]
    else:
        d.sections = [('s0', 'standard', es)]
    return d, L, R, letters


class Analyser(model.Analyser):
    """Standard sections, words of letters only."""

    def __init__(self, rels, alphabet, cs, dc, L, R, most):
        super().__init__(rels, alphabet, cs, dc)
        self.L, self.R, self.most = L, R, most
        self.compounds = 0

    def shown(self, out, word, dirty):
        fu = (not self.dc) and stream.isupper(word[0])
        up = fu and len(word) > 1 and stream.isupper(word[-1])
        return model.render([x for x in out if x not in (self.L, self.R)], dirty and up, dirty and fu)

    def best(self, cands, word):
        res = {}
        for out, w, dirty in cands:
            s = self.shown(out, word, dirty)
            if s not in res or res[s] > w:
                res[s] = w
        return res

    def whole(self, word):
        front = [(self.t, False)]
        for c in word:
            front = self.step(front, c)
        return self.best([(o, w, d) for n, d in front for typ, o, w in n.ends if self.L not in o], word)

    @staticmethod
    def has(out, tag):
        k = len(out) - 1 - out[::-1].index('+') if '+' in out else -1
        return tag in out[k + 1:]

    def compound(self, word):
        cands, n = [], len(word)
        count = [0]

        def go(p, out, w, dirty):
            front = [(self.t, dirty)]
            for q in range(p, n):
                front = self.step(front, word[q])
                for node, d in front:
                    for typ, o, w2 in node.ends:
                        count[0] += 1
                        if count[0] > 20000:
                            raise Skip()
                        if q == n - 1:
                            if self.has(o, self.R):
                                cands.append((out + o, w + w2, d))
                        elif self.has(o, self.L):
                            go(q + 1, out + o + ('+',), w + w2, d)
        go(0, (), 0., False)
        joins = [sum(x == '+' for x in o[1:-1]) for o, w, d in cands]
        if not joins or min(joins) > self.most:
            return {}
        return self.best([c for c, j in zip(cands, joins) if j == min(joins)], word)

    def run(self, text):
        out, p, n = [], 0, len(text)
        while p < n:
            if not self.alphabetic(text[p]):
                out.append(('c', text[p]))
                p += 1
                continue
            q = p
            while q < n and self.alphabetic(text[q]):
                q += 1
            word = ''.join(text[p:q])
            a, kind = self.whole(word), 'whole'
            if not a:
                a, kind = self.compound(word), 'compound'
            if not a:
                low = word.lower()
                kind = 'unknown'
                if low != word and not self.cs and (self.whole(low) or self.compound(low)):
                    self.ambiguous = True
            out.append(('lu', word, a or None, kind))
            p = q
        return out


def case(ctx):
    r = ctx.rng
    d, L, R, letters = mkdix(r)
    sel = dix.Sel('lr')
    try:
        rels = dix.denote(d, sel)
    except dix.TooBig:
        raise Skip()
    if not any(rels.values()) or any('' in v for v in dix.firsts(d, sel).values()):
        raise Skip()
    p = ctx.write('d.dix', dix.dix_xml(d))
    ctx.run('lt-comp', ['lr', p, ctx.path('d.bin')])
    surf = textgen.surfaces(rels)
    cs, dc = r.random() < .15, r.random() < .25
    most = r.choice([None, None, None, 1, 2, 3, 5])
    flags = ['-e'] + (['-c'] if cs else []) + (['-w'] if dc else []) + (['-M', str(most)] if most else [])
    show = r.random() < .4
    if show:
        flags.append('-W')
    for k in range(3):
        its = []
        for _ in range(r.randint(1, 8)):
            w = [c for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5, 6])) for c in r.choice(surf)]
            x = r.random()
            if x < .1:
                w.insert(r.randint(0, len(w)), r.choice(letters))
            elif x < .15:
                w.append(r.choice(letters + list('xyz')))
            its += [('c', c) for c in stream.vary_case(r, w[:14] if len(surf[0]) < 8 else w[:60])]
            its.append(('c', r.choice([' ', ' ', ' ', '.', ', ', '\n', '-'])))
        its = [('c', c) for x in its for c in x[1]]
        src = textgen.to_stream(its)
        ctx.write('in%d.txt' % k, src)
        an = Analyser(rels, d.alphabet, cs, dc, L, R, most or 4)
        exp = an.run([x[1] for x in its])
        if an.ambiguous:
            ctx.count('skipped_lowercase_fallback')
            continue
        res = ctx.run('lt-proc', flags + [ctx.path('d.bin')], src)
        if b'MAX_COMBINATIONS' in res.err:
            ctx.count('given_up_by_lt_proc')
            continue
        out = res.text
        got = stream.parse_or_violate(out, 'the output', input=src)
        comp = 0
        for i in range(max(len(exp), len(got))):
            if i >= len(exp) or i >= len(got):
                raise Violation('the output has %d units, expected %d' % (len(got), len(exp)), input=src, output=out, flags=flags)
            x, y = exp[i], got[i]
            if x[0] != y[0] or x[0] == 'c' and x[1] != y[1]:
                raise Violation('unit %d is %r, expected %r' % (i, y, x), input=src, output=out, flags=flags)
            if x[0] == 'c':
                continue
            sf = stream.unesc(y[1][0])
            if sf != x[1]:
                raise Violation('surface form %r, expected %r' % (sf, x[1]), input=src, output=out, flags=flags)
            g = y[1][1:]
            ctx.count(x[3])
            if x[2] is None:
                if g != ['*' + sf]:
                    raise Violation('unknown word %r comes out as %r' % (sf, y[1]), input=src, output=out, flags=flags)
                continue
            ws = {}
            for a in g:
                w = None
                if show:
                    j = a.rfind('<W:')
                    if j < 0:
                        raise Violation('no weight in %r' % a, input=src, output=out, flags=flags)
                    a, w = a[:j], float(a[j + 3:-1])
                if a in ws:
                    raise Violation('an analysis of %r is repeated: %r' % (sf, g), input=src, output=out, flags=flags)
                ws[a] = w
            if set(ws) != set(x[2]):
                raise Violation('%r (%s) analysed as %r, expected %r' % (sf, x[3], sorted(ws), sorted(x[2])), input=src, output=out,
                                flags=flags)
            last = None
            for a, w in ws.items():
                if w is not None and abs(w - x[2][a]) > 1e-4:
                    raise Violation('%r: weight of %r is %r, expected %r' % (sf, a, w, x[2][a]), input=src, output=out, flags=flags)
                if last is not None and x[2][a] < last - 1e-6:
                    raise Violation('the analyses of %r are not ordered by weight: %r' % (sf, g), input=src, flags=flags)
                last = x[2][a]
            if x[3] == 'compound':
                comp += 1
                if len(g) > 1:
                    ctx.count('ambiguous_compounds')
                ctx.count('joins_%d' % min(a.count('+') for a in ws))
        if comp:
            ctx.sig([(x[1], sorted(x[2].items())) if x[0] == 'lu' and x[2] else x[1] for x in exp], flags)
            if ctx.sample is None:
                ctx.sample = {'case': ctx.idx, 'flags': flags, 'input': src[:120], 'output': out[:160]}
