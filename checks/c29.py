"""C29: the Python binding does what lt-proc does, whatever was called before."""
import json, os
from fw import Violation, Skip
import anagen, dix, stream

SPEC = dict(
    id='C29', level='exploration', variant='plain', variants=('binding',),
    technique='differential runtime monitor: the SWIG module, built with ASan and UBSan, runs histories of calls on several objects inside '
              'Python; every file it writes is compared with the one lt-proc writes for that call alone',
    rule='one evaluation = one call of FST.lt_proc in a history; distinct by dictionary, options, input and place in the history',
    quick=1500, thorough=30000, min_distinct=2500)

MODES = ['', 'a', 'a', 'e', 'g', 'd', 'n', 'l', 'm', 'C', 'gd', 'gn', 'b', 'b', 'bg', 'gb', 'o', 'bo', 'bd', 'p', 't', 'x', 'bgn']


def texts(r, keys):
    def w(side):
        t = ''.join(c if len(c) > 1 else stream.esc(c) for c in r.choice(keys)[side])
        return t.upper() if r.random() < .1 and '<' not in t else t[:1].upper() + t[1:] if r.random() < .2 else t

    def plain(side):
        t = w(side).replace('<', '').replace('>', '')
        return t[:len(t) // 2] + '\u00ad' + t[len(t) // 2:] if r.random() < .1 and '\\' not in t else t

    kind = r.random()
    n = r.randint(0, 6)
    if kind < .45:
        u = [plain(r.randint(0, 1)) for _ in range(n)]
    elif kind < .9:
        u = ['^%s$' % '/'.join(r.choice(['', '', '', '*', '@', '#']) + w(r.randint(0, 1)) for _ in range(r.choice([1, 1, 2, 3]))) for _ in range(n)]
    else:
        u = [r.choice(['~', '^', '$', '[<b>]', '[[t:x]]a[[/]]', '^x<n>$']) + plain(0) for _ in range(n)]
    seps = [' ', '\n', '[<b>]', '. ', '', ' \0']
    return ''.join(x + r.choice(seps) for x in u) + r.choice(['\n', '', '.\n', '[]\n', '\0'])


def case(ctx):
    r = ctx.rng
    bins, keys = [], []
    for i in range(r.choice([1, 1, 2])):
        d, rels, letters = anagen.good_dix(r)
        ctx.write('d%d.dix' % i, dix.dix_xml(d))
        ctx.run('lt-comp', [r.choice(['lr', 'rl']), ctx.path('d%d.dix' % i), ctx.path('d%d.bin' % i)], allow_fail=True)
        if os.path.exists(ctx.path('d%d.bin' % i)):
            bins.append('d%d.bin' % i)
            keys += sorted({k for rel in rels.values() for k in rel})
    if not keys:
        raise Skip()
    if r.random() < .1:
        bins.append('missing.bin')
    files = []
    for i in range(r.randint(1, 3)):
        ctx.write('in%d' % i, texts(r, keys))
        files.append('in%d' % i)
    if r.random() < .1:
        files.append('missing')
    ops, expect, objs, fresh = [], [], {}, 0
    for k in range(r.choice([1, 3, 6, 10])):
        if not objs or r.random() < .3:
            b = r.choice(bins)
            name = 'o%d' % fresh
            fresh += 1
            ops.append(['new', name, ctx.path(b)])
            if b == 'missing.bin':
                expect.append(None)
                continue
            expect.append('ok')
            objs[name] = b
        if r.random() < .1 and len(objs) > 1:
            x = r.choice(sorted(objs))
            del objs[x]
            ops.append(['del', x])
            expect.append('ok')
        name = r.choice(sorted(objs))
        opts = list(r.choice(MODES)) + r.sample('cwzIW', r.choice([0, 0, 1, 1, 2]))
        r.shuffle(opts)
        if r.random() < .4 and opts:
            args = ['-' + ''.join(opts)]
        else:
            args = ['-' + o for o in opts]
        src = r.choice(files)
        res = ctx.run('lt-proc', args + [ctx.path(objs[name]), ctx.path(src), ctx.path('ref%d' % k)], allow_fail=True)
        if res.rc and b'trailing backslash' in res.err:
            continue                # the library ends the process there
        ops.append(['proc', name, ['lt-proc'] + args, ctx.path(src), ctx.path('out%d' % k)])
        if res.rc == 0:
            expect.append((k, args, src))
        else:
            expect.append(None)
            del objs[name]          # what is left of a call that failed is not specified
    ctx.write('jobs', json.dumps(ops))
    res = ctx.run('bind', [ctx.path('jobs')], variant='binding', timeout=60)
    got = json.loads(res.out.decode().strip().split('\n')[-1])
    for i, (g, e) in enumerate(zip(got, expect)):
        what = '%s of %d: %s' % (i + 1, len(ops), [x.replace(ctx.dir + '/', '') if isinstance(x, str) else x for x in ops[i]])
        if e is None:
            if g == 'ok':
                raise Violation('call %s succeeds in Python, but lt-proc fails' % what, jobs=ops)
            ctx.count('errors_raised')
            continue
        if g != 'ok':
            raise Violation('call %s raises %s' % (what, g), jobs=ops)
        if e == 'ok':
            continue
        k, args, src = e
        a = open(ctx.path('ref%d' % k), 'rb').read()
        b = open(ctx.path('out%d' % k), 'rb').read()
        if a != b:
            raise Violation('call %s writes something else than lt-proc' % what, lt_proc=repr(a.decode('utf-8', 'replace')),
                            python=repr(b.decode('utf-8', 'replace')), jobs=json.dumps(ops, indent=1))
        ctx.count('calls' + ''.join(c for c in '-abegdlmnCoptx' if c in ''.join(args)))
        ctx.sig(ctx.idx, i, args, a)
    if len(got) != len(ops):
        raise Violation('%d calls, %d answers' % (len(ops), len(got)))
    if ctx.sample is None and len(ops) > 3:
        ctx.sample = {'case': ctx.idx, 'history': [[x.replace(ctx.dir + '/', '') if isinstance(x, str) else x for x in o] for o in ops][:6]}
