"""C04: whatever is written in the binary formats is read back the same."""
import random, struct, math
from fw import Violation, Skip
import fst, fstgen, stream

SPEC = dict(
    id='C04', level='exploration', harness=('codec',),
    technique='round-trip monitor over sanitized runs: transducer files of all sizes written by an independent encoder are read '
              'and rewritten by the real tools and decoded again; numbers, weights and strings around every encoding boundary go '
              'through the library\'s own writers and readers',
    rule='one evaluation = one file through one tool, or one batch of values through both stream kinds and the serialiser; '
         'distinct by content',
    quick=600, thorough=5000, min_distinct=150)

CH = [chr(c) for c in range(0x4e00, 0x9fff)] + [chr(c) for c in range(0x1F300, 0x1F600)] + list('abcdefghijklmnopqrstuvwxyz')


def codec(ctx, r):
    lines, exp = [], []
    for _ in range(400):
        k = r.choice('iiidddsIwp')
        if k == 'i':
            b = r.choice([0, 0x40, 0x4000, 0x400000, 0x3fffffff, r.randrange(0x40000000), 1 << r.randrange(30)])
            v = min(max(b + r.choice([-2, -1, 0, 1, 2]), 0), 0x3fffffff)
            lines.append('i %d' % v)
            exp += [('=', str(v))] * 3
        elif k == 'd':
            x = r.random()
            if x < .1:
                d = r.choice([0.0, math.inf, -math.inf, 1.0, -1.0, 0.5, -0.5])
            elif x < .5:
                d = r.randrange(-1 << 20, 1 << 20) / r.choice([1, 2, 4, 1024])
            elif x < .8:
                d = math.ldexp(r.uniform(-1, 1), r.randint(-40, 40))
            else:
                d = math.ldexp(r.uniform(-1, 1), r.randint(-900, 900))
            h = '%x' % struct.unpack('>Q', struct.pack('>d', d))
            lines.append('d ' + h)
            exp += [('~', d), ('~', d), ('=', h)]
        elif k == 's':
            s = ''.join(chr(r.choice([r.randint(1, 0x7f), r.randint(0x80, 0x7ff), r.randint(0xe000, 0xffff), r.randint(0x10000, 0x10ffff)]))
                        for _ in range(r.choice([1, 2, 5, 70])))
            h = s.encode().hex()
            lines.append('s ' + h)
            exp += [('=', h)] * 3
        else:
            n = 63 if k == 'I' else 31
            v = r.choice([-1, 1]) * ((1 << r.randrange(n)) + r.choice([-1, 0, 1]))
            v = max(min(v, (1 << n) - 1), -1 << n)
            if k == 'p':
                d = r.uniform(-5, 5)
                h = '%x' % struct.unpack('>Q', struct.pack('>d', d))
                if v == 7:
                    continue
                lines.append('p %d %s' % (v, h))
                exp += [('=', '%d %s' % x) for x in sorted([(v, h), (7, '3fe0000000000000')])]
            else:
                lines.append('%s %d' % (k, v))
                exp.append(('=', str(v)))
    out = ctx.run('codec', [], '\n'.join(lines) + '\n').text.split('\n')[:-1]
    if len(out) != len(exp):
        raise Violation('%d values read back, expected %d: %r' % (len(out), len(exp), out[-1:]), input=lines)
    for (k, e), o in zip(exp, out):
        if k == '=':
            ok = e == o
        else:
            d = struct.unpack('>d', struct.pack('>Q', int(o, 16)))[0]
            ok = d == e if math.isinf(e) or e == 0 else abs(d - e) <= abs(e) * 2 ** -28
        if not ok:
            raise Violation('%r was written, %r read back' % (e, o), input=lines)
    ctx.count('values', len(exp))
    ctx.sig(lines)


def bigfile(r, n, weighted):
    letters = r.sample(CH, r.choice([3, 40, 400, 4000]))
    tags = ['<t%d>' % k for k in range(r.choice([2, 63, 64, 65, 300]))]
    if r.random() < .3:
        tags += ['<%s>' % (r.choice('xé中\U0001F600') * r.choice([30, 63, 64, 65, 255, 256, 300, 1000, 17000])) for _ in range(2)]
        tags = sorted(set(tags))
    pool = r.choice([[0, .5, -2, 1000, 123456.75], [0, -.5, -3, -1e-3], [0, .3, 12345.678912, 1 / 3]])
    f = fst.FST()
    f.init = 0
    nxt = 1
    words = {}
    trie = {}
    on_arcs = r.random() < .5
    arcs_only = on_arcs and r.random() < .5
    for _ in range(n):
        lab = []
        for _ in range(r.randint(1, 6)):
            i = r.choice(letters)
            lab.append((i, i if r.random() < .6 else r.choice(letters)))
        lab.append(('', r.choice(tags)))
        k = (tuple(x for x, _ in lab if x), tuple(y for _, y in lab if y))
        if k in words:
            continue
        w = float(r.choice(pool)) if weighted else 0.0
        x = float(r.choice(pool)) if weighted and on_arcs else 0.0
        w *= not arcs_only
        words[k] = w + x
        s = 0
        for j, (i, o) in enumerate(lab):
            key = (s, i, o)
            if key not in trie:
                trie[key] = nxt
                f.arcs[s].append((i, o, nxt, x if j == len(lab) - 1 else 0.0))
                nxt += 1
            s = trie[key]
        f.finals[s] = w
    if r.random() < .5:
        # number the states at random, so that arcs go far forwards and backwards
        p = list(range(1, nxt))
        r.shuffle(p)
        p = [0] + p
        g = fst.FST()
        g.init = 0
        for s, l in f.arcs.items():
            g.arcs[p[s]] = [(i, o, p[t], w) for i, o, t, w in l]
        g.finals = {p[s]: w for s, w in f.finals.items()}
        f = g
    return letters, tags, f, words


def files(ctx, r):
    weighted = r.random() < .5
    n = r.choice([5, 30, 300, 3000]) if r.random() < .9 else r.choice([12000, 12000, 30000])
    letters, tags, f, words = bigfile(r, n, weighted)
    name = 'main@standard'
    old = r.random() < .3 and not weighted
    secs = {name: f}
    if r.random() < .3:
        secs['\u4e2d\U0001F600 x@inconditional'] = fstgen.rand(r, letters[:3], tags[:2], weights=weighted, first=letters[:3])
    data = fst.bin_bytes(''.join(letters), secs, tags=tags, r=r, weighted=True if weighted else None, old=old)
    ctx.write('a.bin', data)
    ctx.count('states', len(f.states()))
    op = r.choice(['invert', 'append', 'print', 'proc', 'proc'])

    def back(n):
        try:
            return fst.read_bin(ctx.path(n))
        except fst.BinErr as e:
            raise Violation('the result cannot be read back: %s' % e)
    exps = {k: fst.relation(x.paths(100000)) for k, x in secs.items()}

    def compare(b, exp, what):
        if set(b.sections) != set(exp):
            raise Violation('%s: sections %r, expected %r' % (what, sorted(b.sections), sorted(exp)))
        for k, e in exp.items():
            d = fst.same_relation(e, fst.relation(b.sections[k].paths(100000)), tight=True)
            if d:
                raise Violation('%s: section %s: %s' % (what, k, d), old_format=old)
        if set(b.letters) != set(letters):
            raise Violation('%s: the alphabetic characters differ' % what)
    if op == 'invert':
        ctx.run('lt-invert', [ctx.path('a.bin'), ctx.path('o.bin')], timeout=120)
        compare(back('o.bin'), {k: {(o, i): w for (i, o), w in e.items()} for k, e in exps.items()}, 'lt-invert')
    elif op == 'append':
        ctx.write('b.bin', fst.bin_bytes('', {'z@postblank': fstgen.rand(r, letters[:2], ['<zz>'], weights=False)}, r=r))
        z = fst.relation(fst.read_bin(ctx.path('b.bin')).sections['z@postblank'].paths())
        ctx.run('lt-append', [ctx.path('a.bin'), ctx.path('b.bin'), ctx.path('o.bin')], timeout=120)
        compare(back('o.bin'), dict(exps, **{'z@postblank': z}), 'lt-append')
    elif op == 'print':
        ctx.run('lt-print', [ctx.path('a.bin'), ctx.path('o.att')], timeout=120)
        fs = fst.parse_att(open(ctx.path('o.att'), encoding='utf-8', newline='\n').read())
        if len(fs) != len(secs):
            raise Violation('lt-print shows %d transducers' % len(fs))
        for k, g in zip(sorted(secs), fs):
            g.init = 0
            d = fst.same_relation(exps[k], fst.relation(g.paths(100000)))
            if d:
                raise Violation('lt-print: section %s: %s' % (k, d), old_format=old)
    else:
        ks = r.sample(sorted(words), min(len(words), 400))
        inv = {}
        for k, e in exps.items():
            for i, o in e:
                inv.setdefault(i, set()).add(''.join(o))
        src = ''.join('%s\n' % ''.join(i) for i, o in ks)
        out = ctx.run('lt-proc', ['-w', '-c', ctx.path('a.bin')], src, timeout=120).text
        us = [x[1] for x in stream.parse_or_violate(out, 'the output', input=src[:500]) if x[0] == 'lu']
        if len(us) != len(ks):
            raise Violation('%d words analysed, %d sent' % (len(us), len(ks)))
        for (i, o), u in zip(ks, us):
            if set(u[1:]) != inv[i]:
                raise Violation('%s analysed as %r, expected %r' % (''.join(i), u[1:], sorted(inv[i])), old_format=old)
        ctx.count('looked_up', len(ks))
    ctx.count(op)
    if old:
        ctx.count('old_format')
    ctx.sig(op, len(data), random.Random(0).sample(list(data), min(len(data), 64)), sorted(words)[:20])
    if ctx.sample is None:
        ctx.sample = {'case': ctx.idx, 'op': op, 'bytes': len(data), 'states': len(f.states()), 'old_format': old}


def case(ctx):
    r = ctx.rng
    (codec if r.random() < .25 else files)(ctx, r)
