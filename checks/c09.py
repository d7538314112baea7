"""C09: bilingual lookup gives every lexical unit exactly the dictionary's translations."""
from fw import Violation, Skip
import dix, stream, model
from stream import isupper, lower
from c08 import istag, split_tags

SPEC = dict(
    id='C09', level='exploration',
    technique='reference-model monitor (longest-prefix transduction of each lexical unit) on the output of sanitized '
              'lt-proc bilingual runs',
    rule='one evaluation = one random stream of lexical units looked up in one mode; non-trivial when a unit has a '
         'translation; distinct by (input, flags, output)',
    quick=1500, thorough=30000, min_distinct=500)

MARKS = '*@#=%'
ANY = '<ANY_CHAR>'


class Wild(Exception):
    pass


def add_wildcards(r, d, dr):
    """Entries in which the wildcard stands for one character, which is copied."""
    tags = d.sdefs[:3]
    d.sdefs.append(ANY)
    for _ in range(r.randint(1, 4)):
        es = []
        for _ in range(r.randint(1, 3)):
            w = [r.choice(list('abcé') + [ANY] * 3) for _ in range(r.randint(1, 3))]
            if dr == 'lr' and r.random() < .2 and ANY not in w[1:] and ANY in w:
                es.append(('p', w, []) if r.random() < .5 else ('p', ['b'], ['c', 'a']))
            else:
                es.append(('i', w))
        if any(e[0] == 'p' and ANY in e[1] for e in es):
            es = [e for e in es if e[0] == 'p']     # which one was copied would not be clear
        if tags and r.random() < .7:
            t = [r.choice(tags)]
            es.append(('p', t, r.choice([t, [r.choice(tags)], t + t])))
        e = dix.Entry(es)
        if r.random() < .3:
            e.attrs['w'] = r.choice(['0.5', '1', '2.25'])
        r.choice(d.sections)[2].append(e)


def lookup(trie, syms, cs, fu, up):
    """-> (number of symbols matched, {translation: weight})"""
    front = [(trie, False, ())]
    best = (0, None)
    for i, s in enumerate(syms):
        nf = []
        for node, dirty, wild in front:
            k = node.kids.get(s)
            if k:
                nf.append((k, dirty, wild))
            if not cs and not istag(s) and lower(s) != s:
                k = node.kids.get(lower(s))
                if k:
                    nf.append((k, True, wild))
            k = node.kids.get(ANY)
            if k:
                if istag(s):
                    raise Wild()            # not specified whether it matches a tag
                nf.append((k, True, wild + (s,)))
        front = nf
        if any(n[0].ends for n in front):
            f = {}
            for node, dirty, wild in front:
                for typ, out, w in node.ends:
                    if wild and ANY in out:
                        it = iter(wild)
                        out = tuple(next(it) if x == ANY else x for x in out)
                    t = model.render(out, dirty and up, dirty and fu)
                    f[t] = min(w, f.get(t, w))
            best = (i + 1, f)
    return best


def text_of(syms):
    return ''.join(('\\' if s in stream.RESERVED else '') + s for s in syms)


def case(ctx):
    r = ctx.rng
    g = dix.Gen(r, regex=False, cyclic=False, filters=False)
    for _ in range(6):
        d = g.dix()
        sel = dix.Sel(r.choice(['lr', 'rl']))
        wild = r.random() < .25 and bool(d.sections)
        if wild:
            add_wildcards(r, d, sel.dir)
        try:
            rels = dix.denote(d, sel)
        except dix.TooBig:
            continue
        if any('' in v or ' ' in v for v in dix.firsts(d, sel).values()):
            continue
        if 0 < sum(map(len, rels.values())) <= 3000:
            break
    else:
        raise Skip()
    p = ctx.write('d.dix', dix.dix_xml(d))
    ctx.run('lt-comp', [sel.dir, p, ctx.path('d.bin')])
    trie = model.build(rels)
    keys = sorted({i for rel in rels.values() for i, o in rel})
    tags = sorted({s for k in keys for s in k if istag(s)})
    letters = sorted({s for k in keys for s in k if not istag(s)}) or ['a']
    tags = [t for t in tags if t != ANY]
    if wild:
        keys = [k for k in keys if ANY in k] * 3 + keys
    for _ in range(4):
        mode = r.choice([[], [], [], ['-g'], ['-d'], ['-n']])
        surf = r.choice([[], [], ['-o'], ['-O']])
        cs = r.random() < .15
        flags = ['-b'] + mode + surf + (['-c'] if cs else [])
        src, exp, hits = '', [], 0
        for _ in range(r.randint(1, 10)):
            if r.random() < .5:
                b = r.choice([' ', '\n', ' \\^ ', '[<b>]', 'é ', '\\\\', ' \U0001F600', '[[t:b:x]]z', '.', '[\\]]\\[',
                              ' [[/]] '])
                src += b
                exp.append(b)
            if r.random() < .1:
                src += '[[t:i:q9]]'
                exp.append('[[t:i:q9]]')
            syms = [r.choice('aAbBqÉ\U00010428/.') if s == ANY else s for s in r.choice(keys)]
            k = r.random()
            if k < .45:
                pass
            elif k < .7:
                syms += [r.choice(tags + ['<zz>', '<a-b>', '<1/2>', '/', '#', ' ', 'q']) for _ in range(r.randint(1, 3))]
            elif k < .8:
                syms.insert(r.randint(0, len(syms)), r.choice(['<zz>', '/', '\\', 'q', '<a b>']))
            elif k < .9:
                syms = syms[:r.randint(1, len(syms))]
            else:
                syms = [r.choice(letters + list('/\\<$^qQ%')) for _ in range(r.randint(1, 4))] + [
                    r.choice(tags + ['<zz>']) for _ in range(r.randint(0, 2))]
            if r.random() < .4:
                if r.random() < .5:
                    syms[0] = syms[0] if istag(syms[0]) else stream.upper(syms[0])
                else:
                    syms = [s if istag(s) else stream.upper(s) for s in syms]
            if syms[0] == '=' and len(syms) > 1 and not istag(syms[1]):
                continue                        # '=' before a lemma is a mark
            if wild:
                try:
                    lookup(trie, syms, cs, False, False)
                except Wild:
                    ctx.count('wildcard_at_tag')
                    continue
            t = text_of(syms)
            sf = r.choice(['x', 'Ab c', '\\^', '%', 'x\\/y', '*', '#q'])
            pre, src1 = '', ''
            if surf:
                src1 = sf + '/'
                if surf == ['-O']:
                    pre = sf + '/'
            tail = '' if r.random() < .85 else r.choice(['/b<x>', '/*b', '/@\\/<n>/c'])
            if r.random() < .1:
                src += '^' + src1 + '*' + t + tail + '$'
                exp.append('^' + pre + '*' + t + '/' + ('' if mode == ['-n'] else '*') + t + '$')
                ctx.count('unknown_marked')
                continue
            star = syms[0] == '*'
            wr = t
            if star or (syms[0] in MARKS and syms[0] != '@' and r.random() < .5):
                wr = '\\' + t
            src += '^' + src1 + wr + tail + '$'
            s = ('\\' if star else '') + t        # as printed
            lead = not istag(syms[0]) and syms[0] in MARKS and not wr.startswith('\\')
            fs = syms[1:] if lead else syms
            fu = bool(fs) and not istag(fs[0]) and isupper(fs[0])
            up = fu and len(fs) > 1 and not istag(fs[1]) and isupper(fs[1])
            n, f = lookup(trie, syms, cs, fu, up)
            if f and n < len(syms) and (not any(map(istag, syms)) or mode in (['-g'], ['-d'])):
                f = None
                ctx.count('partial_refused')
            if not f:
                exp.append('^' + pre + s + '/' + ('#' if mode == ['-d'] else '@') + s + '$')
                ctx.count('not_found')
                continue
            hits += 1
            if wild:
                ctx.count('with_wildcards')
            q = text_of(syms[n:])
            if q:
                ctx.count('with_queue')
            if len(f) > 1:
                ctx.count('ambiguous')
            if fu:
                ctx.count('capitalised')
            exp.append(('^' + pre + s + '/', f, q, '$'))
        out = ctx.run('lt-proc', flags + [ctx.path('d.bin')], src).text
        match(exp, out, src, flags)
        if hits:
            ctx.sig(src, flags, out)
            if ctx.sample is None:
                ctx.sample = {'case': ctx.idx, 'flags': flags, 'input': src[:120], 'output': out[:160]}


def match(exp, out, src, flags):
    pos = 0
    for e in exp:
        if isinstance(e, str):
            if not out.startswith(e, pos):
                raise Violation('expected %r at offset %d of the output, got %r' % (e, pos, out[pos:pos + 60]), input=src,
                                output=out, flags=flags)
            pos += len(e)
            continue
        pre, f, q, post = e
        f = {k + q: w for k, w in f.items()}
        total = len(pre) + len(post) + sum(len(k) for k in f) + len(f) - 1
        seg = out[pos:pos + total]
        body = seg[len(pre):len(seg) - len(post)]
        got = split(body)
        if not seg.startswith(pre) or not seg.endswith(post) or sorted(got) != sorted(f):
            raise Violation('got %r, expected %r%r%r' % (out[pos:pos + 60], pre, sorted(f), post), input=src, output=out,
                            flags=flags)
        ws = [f[g] for g in got]
        if any(ws[i] > ws[i + 1] + 1e-6 for i in range(len(ws) - 1)):
            raise Violation('translations not ordered by weight: %r' % got, input=src, output=out, weights=f, flags=flags)
        pos += total
    if pos != len(out):
        raise Violation('extra output %r' % out[pos:pos + 60], input=src, output=out, flags=flags)


def split(s):
    """Splits readings at slashes outside tags."""
    out, cur, i, tag = [], '', 0, False
    while i < len(s):
        c = s[i]
        if c == '\\':
            cur += s[i:i + 2]
            i += 2
            continue
        if c == '<':
            tag = True
        elif c == '>':
            tag = False
        if c == '/' and not tag:
            out.append(cur)
            cur = ''
        else:
            cur += c
        i += 1
    return out + [cur]
