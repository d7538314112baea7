"""C16: lt-paradigm lists exactly the pairs whose lexical side matches the pattern."""
import re
from fw import Violation, Skip
import dix, fst

SPEC = dict(
    id='C16', level='exploration',
    technique='reference-model monitor over sanitized lt-paradigm runs: every line of every answer compared with a matcher for '
              'the patterns applied to the relation of the binary',
    rule='one evaluation = one pattern asked of one transducer; non-trivial when something but not everything matches; '
         'distinct by transducer, options and pattern',
    quick=6000, thorough=30000, min_distinct=800)

LOOP = ('rep', '+', ('c', 'x'))
TAGS = ['<n>', '<v>', '<sg>', '<pl>', '<é>', '<a.b>']


def istag(s):
    return len(s) > 1


def matches(pat, s, letters, tags):
    """pat: list of items"""
    memo = {}

    def go(p, k):
        key = (p, k)
        if key in memo:
            return memo[key]
        if p == len(pat):
            x = k == len(s)
        else:
            kind, v = pat[p]
            if kind == 'lit':
                x = k < len(s) and s[k] == v and go(p + 1, k + 1)
            elif kind == 'or':
                x = k < len(s) and s[k] in v and go(p + 1, k + 1)
            else:
                ok = letters if kind == 'chars' else v if kind == 'set' else tags - set(v)
                x = False
                j = k
                while True:
                    if go(p + 1, j):
                        x = True
                        break
                    if j < len(s) and s[j] in ok:
                        j += 1
                    else:
                        break
        memo[key] = x
        return x
    return go(0, 0)


def text(pat):
    out = ''
    for k, v in pat:
        if k == 'lit':
            out += v
        elif k == 'chars':
            out += '*'
        elif k == 'tags':
            out += '<*' + ''.join('-' + t[1:-1] for t in v) + '>'
        elif k == 'set':
            out += '<*|' + '|'.join(t[1:-1] for t in v) + '>'
        else:
            out += '<|' + '|'.join(t[1:-1] for t in v) + '>'
    return out


def case(ctx):
    r = ctx.rng
    L = r.sample(['a', 'b', 'c', 'é', '\U00010428', '\U0001F600', '中', '-'], r.randint(2, 4))
    T = r.sample(TAGS, r.randint(2, 5))
    alpha = L if r.random() < .7 else r.sample(L, len(L) - 1)

    def word(lo=1, hi=3):
        return [r.choice(L) for _ in range(r.randint(lo, hi))]
    lemmas = [word() for _ in range(r.randint(1, 3))]
    if r.random() < .2:
        lemmas[0] = lemmas[0] + [' '] + word()
    ents = {}
    for _ in range(r.randint(3, 12)):
        lex = list(r.choice(lemmas)) + [r.choice(T) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]
        if r.random() < .1:
            lex += word(1, 2)
        ents[tuple(word()), tuple(lex)] = r.choice([0, 0, 0, 1.5])
    analyser = r.random() < .5
    d = dix.Dix()
    d.alphabet = ''.join(alpha)
    d.sdefs = T

    def syms(x):
        return [('b',) if c == ' ' else c for c in x]
    secs = [('main', 'standard', [])]
    if r.random() < .3:
        secs.append(('s2', 'inconditional', []))
    for (s, l), w in ents.items():
        e = dix.Entry([('p', syms(s), syms(l))], **({'w': str(w)} if w else {}))
        if r.random() < .2:
            k = r.randint(0, len(l))
            e = dix.Entry([('p', [], syms(l[:k])), ('p', syms(s), syms(l[k:]))], **({'w': str(w)} if w else {}))
        r.choice(secs)[2].append(e)
    # words behind a loop: listed at least once round it, and nothing that is not in the dictionary
    loops = {}
    if r.random() < .15:
        for _ in range(r.randint(1, 2)):
            a, l = word(), list(r.choice(lemmas)) + [r.choice(T)]
            loops[tuple(a), tuple(l)] = 1
            secs[0][2].append(dix.Entry([('re', LOOP), ('p', syms(a), syms(l))]))
        if r.random() < .7:
            alpha = alpha + ['x']
            d.alphabet += 'x'
    d.sections = secs
    p = ctx.write('d.dix', dix.dix_xml(d))
    ctx.run('lt-comp', ['lr' if analyser else 'rl', p, ctx.path('d.bin')])
    tags = set(T)
    args = ['-a'] if analyser else []
    excl = []
    if r.random() < .3:
        excl = r.sample(T, 1)
        args += ['-e', excl[0]]
    sort = r.random() < .4
    if sort:
        args.append('-s')
    pats = []
    for _ in range(r.randint(3, 7)):
        base = list(r.choice(list(ents))[1]) if r.random() < .85 else word()
        if loops and r.random() < .5:
            base = ['x'] * r.choice([1, 1, 2]) + list(r.choice(list(loops))[1])
        pat = []
        k = 0
        while k < len(base):
            c = base[k]
            x = r.random()
            if istag(c):
                if x < .35:
                    n = r.randint(0, 3)
                    while n and not all(map(istag, base[k:k + n])):
                        n -= 1
                    y = r.random()
                    others = [t for t in T + ['<unk>'] if r.random() < .3]
                    if y < .5:
                        pat.append(('tags', []))
                    elif y < .75 and others:
                        pat.append(('tags', others))
                    else:
                        pat.append(('set', sorted(set([t for t in base[k:k + n] if istag(t)] + others)) or ['<unk>']))
                    k += n
                    continue
                if x < .5:
                    pat.append(('or', sorted({c} | {r.choice(T + ['<unk>']) for _ in range(r.randint(0, 2))}))
                               if r.random() < .9 else ('or', ['<unk>']))
                elif c in excl:
                    pat.append(('tags', []))
                else:
                    pat.append(('lit', c if r.random() < .95 else '<unk>'))
            elif x < .25:
                pat.append(('chars', None))
                k += r.randint(0, 3)
                continue
            else:
                pat.append(('lit', c))
            k += 1
        if r.random() < .2:
            pat.append(('tags', []))
        if r.random() < .2:
            pat.insert(0, ('chars', None))
        # -e is documented for listings, not for tags the pattern asks for by name
        if excl and any(k in ('or', 'set') or k == 'lit' and v in excl for k, v in pat):
            continue
        if pat:
            pats.append(pat)
    if not pats:
        raise Skip()
    nul = r.random() < .2
    sep = '\0' if nul else '\n'
    if nul:
        args.append('-z')
    inp = ''.join(text(x) + sep for x in pats)
    if r.random() < .3:
        ctx.write('in.txt', inp)
        ctx.run('lt-paradigm', args + [ctx.path('d.bin'), ctx.path('in.txt'), ctx.path('out.txt')])
        out = open(ctx.path('out.txt'), newline='').read()
    else:
        out = ctx.run('lt-paradigm', args + [ctx.path('d.bin')], inp).text
    exps = []
    more = []
    for pat in pats:
        more.append({'%s%s:%s%s' % ('x' * k, ''.join(l), 'x' * k, ''.join(s)): k for s, l in loops for k in range(1, 9)
                     if matches(pat, ('x',) * k + l, set(alpha), tags - set(excl))})
        e = {(''.join(l), ''.join(s)) for s, l in ents if matches(pat, l, set(alpha), tags - set(excl))}
        exps.append({'%s:%s' % x for x in e})
    # the answers, one after the other, each ended by the separator
    if nul:
        ans = [a.split('\n')[:-1] if a else [] for a in out.split('\0')]
        if not out.endswith('\0') or len(ans) != len(pats) + 1:
            raise Violation('%d answers to %d patterns' % (len(ans) - 1, len(pats)), args=args, input=inp, output=out)
    else:
        ans = []
        cur = []
        for l in out.split('\n')[:-1]:
            if l == '':
                ans.append(cur)
                cur = []
            else:
                cur.append(l)
        if cur or len(ans) != len(pats):
            raise Violation('%d answers to %d patterns' % (len(ans), len(pats)), args=args, input=inp, output=out)
    for pat, e, m, a in zip(pats, exps, more, ans):
        e |= {x for x, k in m.items() if k == 1}
        miss, extra = e - set(a), set(a) - e - set(m)
        if m:
            ctx.count('answers_with_loops')
        info = dict(args=args, pattern=text(pat), answer=a, expected=sorted(e))
        if miss:
            raise Violation('pattern %s: %s is not listed' % (text(pat), sorted(miss)[0]), **info)
        if extra:
            raise Violation('pattern %s: %s does not match' % (text(pat), sorted(extra)[0]), **info)
        if sort and (len(a) != len(set(a)) or [x for x in a] != sorted(a, key=lambda x: tuple(
                y.encode('utf-16-be') for y in x.split(':')))):
            raise Violation('pattern %s: the answer is not sorted' % text(pat), **info)
        ctx.count('patterns')
        ctx.count('listed', len(e))
        if e and len(e) < len(ents):
            ctx.sig(sorted(ents), sorted(alpha), args, text(pat))
            if ctx.sample is None:
                ctx.sample = {'case': ctx.idx, 'args': args, 'pattern': text(pat), 'listed': len(e), 'of': len(ents)}
