"""C08: generation prints exactly the surface forms the dictionary has for each lexical unit."""
from fw import Violation, Skip
import dix, stream, anagen, model
from stream import isupper, lower

SPEC = dict(
    id='C08', level='exploration',
    technique='reference-model monitor (transduction of each lexical unit through the denoted relation, with case '
              'restoration) on the output of sanitized lt-proc generation runs',
    rule='one evaluation = one random stream of lexical units generated in one mode; non-trivial when at least one '
         'unit has surface forms; distinct by (expected output, mode)',
    quick=1500, thorough=30000, min_distinct=500)

MODES = ['-g', '-g', '-d', '-n', '-l', '-m', '-C']


def istag(s):
    return len(s) > 1 and s[0] == '<'


def forms(trie, syms, mode, case_sensitive, dict_case):
    front = [(trie, False)]
    for s in syms:
        nf = []
        for node, dirty in front:
            k = node.kids.get(s)
            if k:
                nf.append((k, dirty))
            if not istag(s) and isupper(s) and lower(s) != s and not case_sensitive:
                if mode == '-C' and k:
                    continue
                k = node.kids.get(lower(s))
                if k:
                    nf.append((k, True))
        front = nf
    fu = bool(syms) and not istag(syms[0]) and isupper(syms[0]) and not dict_case
    up = len(syms) > 1 and not istag(syms[1]) and isupper(syms[1]) and not dict_case
    best = {}
    for node, dirty in front:
        for typ, out, w in node.ends:
            t = model.render(out, dirty and up, dirty and fu)
            best[t] = min(w, best.get(t, w))
    return best


def flat_dix(r):
    """One section whose entries only differ in letters (and case) and tags."""
    d = dix.Dix()
    letters = r.sample(list('abAB\u00e1\u00c1\u0436\u0416'), 5)
    letters = sorted(set(letters) | {lower(c) for c in letters} | {stream.upper(c) for c in letters[:2]})
    d.alphabet = ''.join(letters)
    d.sdefs = ['<n>', '<v>']
    es = []
    for _ in range(r.randint(3, 12)):
        w = [r.choice(letters) for _ in range(r.randint(1, 3))]
        for v in [w] + ([stream.vary_case(r, list(w))] if r.random() < .7 else []):
            es.append(dix.Entry([('i', v), ('p', [], [r.choice(d.sdefs)])]))
    d.sections = [('s', 'standard', es)]
    return d, dix.denote(d, dix.Sel('rl')), letters


def lu_text(r, syms, extra):
    """The lexical unit as written in the stream."""
    o = ''
    for i, s in enumerate(syms):
        if istag(s):
            o += s
        elif s in stream.RESERVED or (i == 0 and s in '*@#=%'):
            o += '\\' + s
        elif extra and r.random() < .1:
            o += '\\' + s
        else:
            o += s
    return o


def split_tags(t):
    """(text before the first tag, whole text); a tag at the very start is no lemma."""
    i = 0
    while i < len(t):
        if t[i] == '\\':
            i += 2
            continue
        if t[i] == '<' and i:
            return t[:i]
        i += 1
    return t


def esc_content(t):
    o, i = '', 0
    while i < len(t):
        if t[i] == '\\':
            o += t[i:i + 2]
            i += 2
            continue
        o += ('\\' if t[i] in stream.RESERVED else '') + t[i]
        i += 1
    return o


def unknown(mode, t, mark):
    lem = split_tags(t)
    if mode == '-d':
        return [mark + esc_content(t)]
    if mode == '-n':
        return [lem if mark != '*' else esc_content(t)]
    if mode == '-m':
        return ['^' + lem + '/' + mark + t + '$']
    return [mark + (lem if mark != '*' else esc_content(t))]


def case(ctx):
    r = ctx.rng
    flat = r.random() < .2
    if flat:
        d, rels, letters = flat_dix(r)
    else:
        d, rels, letters = anagen.good_dix(r, ['standard', 'inconditional', 'postblank', 'preblank'], dir='rl')
    p = ctx.write('d.dix', dix.dix_xml(d))
    ctx.run('lt-comp', ['rl', p, ctx.path('d.bin')])
    trie = model.build(rels)
    keys = sorted({i for rel in rels.values() for i, o in rel})
    tags = sorted({s for k in keys for s in k if istag(s)})
    for _ in range(4):
        mode = '-C' if flat and r.random() < .7 else r.choice(MODES)
        dc, cs = r.random() < (.5 if flat else .15), r.random() < .15
        flags = [mode] + (['-w'] if dc else []) + (['-c'] if cs else [])
        src, exp, hits = '', [], 0
        for _ in range(r.randint(1, 10)):
            if r.random() < .5:
                b = r.choice([' ', '\n', ' \\^ ', '[<b>]', 'é ', '\\\\', ' \U0001F600', '[[t:b:x]]z', '.', '[\\]]\\[',
                              ' [[/]] '])
                src += b
                exp.append([b])
            if r.random() < .1:
                src += '[[t:i:q9]]'
                exp.append(['[[t:i:q9]]'])
            k = r.random()
            syms = list(r.choice(keys))
            if k < .65:
                pass
            elif k < .75:
                syms.append(r.choice(tags + ['<zz>', '<a-b>']))
                ctx.count('units_with_extra_tag')
            elif k < .8:
                syms.insert(r.randint(0, len(syms)), r.choice(['<zz>', '/', '\\', 'q', '<a b>']))
            elif k < .87:
                syms = syms[:r.randint(1, len(syms))]
            else:
                syms = [r.choice(letters + list('/\\<$^qQ')) for _ in range(r.randint(1, 4))] + [
                    r.choice(tags + ['<zz>']) for _ in range(r.randint(0, 2))]
            lem = 0
            while lem < len(syms) and not istag(syms[lem]):
                lem += 1
            if r.random() < .4:
                k = r.random()
                if k < .5 and lem:
                    syms[0] = stream.upper(syms[0])
                elif k < .9:
                    syms = [s if istag(s) else stream.upper(s) for s in syms]
            if lem > 1 and not isupper(syms[0]) and isupper(syms[1]):
                syms[1] = lower(syms[1])
                if isupper(syms[1]):
                    continue
            if mode == '-C' and not flat:
                # which lower-case arcs are blocked depends on the states entries share: only units
                # whose forms do not depend on it
                if forms(trie, syms, mode, cs, dc) != forms(trie, syms, '-g', cs, dc):
                    ctx.count('careful_case_unspecified')
                    continue
            mark = r.choice([''] * 16 + ['*', '@', '=', '*', '@'])
            t = lu_text(r, syms, r.random() < .2)
            tail = '' if r.random() < .85 else r.choice(['/b<x>', '/*b', '/@\\/<n>/c'])
            if not syms or istag(syms[0]):      # no lemma: how such a unit is echoed is not specified
                continue
            src += '^' + mark + t + tail + '$'
            if mark in ('*', '@'):
                exp.append(unknown(mode, t, mark))
                ctx.count('marked')
                continue
            if mark:
                exp.append([mark])
            f = forms(trie, syms, mode, cs, dc)
            if not f:
                exp.append(unknown(mode, t, '#'))
                ctx.count('not_found')
                continue
            hits += 1
            if len(f) > 1:
                ctx.count('ambiguous')
            if any(isupper(s) for s in syms if not istag(s)):
                ctx.count('found_with_capitals')
            opts = ['']
            pre, post = ('^', '/' + t + '$') if mode in ('-l', '-m') else ('', '')
            exp.append((pre, f, post))
        out = ctx.run('lt-proc', flags + [ctx.path('d.bin')], src).text
        match(exp, out, src, flags)
        if hits:
            ctx.sig(src, flags, out)
            if ctx.sample is None:
                ctx.sample = {'case': ctx.idx, 'flags': flags, 'input': src[:120], 'output': out[:160]}


def match(exp, out, src, flags):
    pos = 0
    for e in exp:
        if isinstance(e, list):
            s = e[0]
            if not out.startswith(s, pos):
                raise Violation('expected %r at offset %d of the output, got %r' % (s, pos, out[pos:pos + 40]), input=src,
                                output=out, flags=flags)
            pos += len(s)
            continue
        pre, f, post = e
        # all forms, in an order consistent with the weights
        by = sorted(f.items(), key=lambda x: x[1])
        total = len(pre) + len(post) + sum(len(k) for k in f) + len(f) - 1
        seg = out[pos:pos + total]
        body = seg[len(pre):len(seg) - len(post)]
        ok = seg.startswith(pre) and seg.endswith(post)
        got = stream.split_lu(body)
        if ok and sorted(got) != sorted(f):
            ok = False
        if not ok:
            raise Violation('generated %r, expected %r%r%r' % (out[pos:pos + 60], pre, sorted(f), post), input=src,
                            output=out, flags=flags)
        ws = [f[g] for g in got]
        if any(ws[i] > ws[i + 1] + 1e-6 for i in range(len(ws) - 1)):
            raise Violation('surface forms not ordered by weight: %r' % got, input=src, output=out, weights=f, flags=flags)
        pos += total
    if pos != len(out):
        raise Violation('extra output %r' % out[pos:pos + 60], input=src, output=out, flags=flags)
