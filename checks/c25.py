"""C25: incomplete input and output is never reported as success, and it does not matter whether data comes and goes through files or pipes."""
import os, threading
from fw import Violation, Skip
import anagen, dix, fst, fstgen, stream, textgen
import c15, c24
from c19 import REJECT

SPEC = dict(
    id='C25', level='exploration',
    technique='fault injection (inputs cut at every kind of place, missing files, full devices, file size limits at every length) and channel '
              'substitution (files, redirections, pipes, FIFOs) on the sanitized programs; a monitor watches exit status and compares what was written',
    rule='one evaluation = one program run with one fault, or one substituted channel, next to its fault-free run; distinct by program, fault and position',
    quick=1500, thorough=30000, min_distinct=1000)


def tmx(r):
    words = ['a', 'b', 'casa', 'ñu', '12', 'x 3', '.', 'house', '中']
    segs = ''.join('<tu><tuv xml:lang="en"><seg>%s</seg></tuv><tuv xml:lang="es"><seg>%s</seg></tuv></tu>\n' % (
        ' '.join(r.choice(words) for _ in range(r.randint(1, 4))), ' '.join(r.choice(words) for _ in range(r.randint(1, 4)))) for _ in range(r.randint(1, 4)))
    return '<?xml version="1.0" encoding="UTF-8"?>\n<tmx version="1.4">\n<header srclang="en"/>\n<body>\n%s</body>\n</tmx>\n' % segs


def write_bin(ctx, r, name):
    if r.random() < .4:
        d, rels, letters = anagen.good_dix(r)
        ctx.write(name + '.dix', dix.dix_xml(d))
        ctx.run('lt-comp', [r.choice(['lr', 'lr', 'rl']), ctx.path(name + '.dix'), ctx.path(name)], allow_fail=True)
        if os.path.exists(ctx.path(name)):
            return
    letters = r.sample(fstgen.LETTERS, 3)
    tags = r.sample(fstgen.TAGS, 2)
    old = r.random() < .1
    secs = {n: fstgen.rand(r, letters, tags, n=r.randint(2, 6), weights=False if old else None) for n in r.sample(['main@standard', 'final@inconditional', 'p@postblank'], r.randint(1, 2))}
    ctx.write(name, fst.bin_bytes(''.join(letters), secs, tags=tags, r=r, old=old))


def prepare(ctx, r):
    """-> tool, arguments before the files, [(kind, name)] of the input files, whether the output may be left out,
    kinds: bin, xml, text (the last may be left out if the output is)"""
    tool = r.choice(['lt-invert', 'lt-append', 'lt-compose', 'lt-trim', 'lt-restrict', 'lt-apply-acx', 'lt-print', 'lt-comp', 'lt-comp', 'lt-expand',
                     'lt-proc', 'lt-proc', 'lt-proc', 'lt-paradigm', 'lt-merge', 'lt-tmxcomp', 'lt-tmxproc'])
    pre, ins = [], []
    if tool not in ('lt-comp', 'lt-expand', 'lt-merge', 'lt-tmxcomp', 'lt-tmxproc'):
        write_bin(ctx, r, 'a.bin')
        ins = [('bin', 'a.bin')]
    if tool in ('lt-append', 'lt-compose', 'lt-trim'):
        write_bin(ctx, r, 'b.bin')
        ins.append(('bin', 'b.bin'))
    if tool == 'lt-trim':
        ctx.run('lt-invert', [ctx.path('b.bin'), ctx.path('c.bin')])
    if tool == 'lt-restrict':
        pre = r.choice([['lr'], ['rl'], ['-v', 'x', 'lr'], ['-m', 'rl']])
    if tool == 'lt-append':
        pre = r.choice([[], ['-k']])
    if tool == 'lt-compose':
        pre = r.choice([[], ['-i'], ['-a'], ['-j']])
    if tool == 'lt-print':
        pre = r.choice([[], ['-H'], ['-a']])
    if tool == 'lt-apply-acx':
        ctx.write('t.acx', c15.xml(c15.table(r, r.sample(fstgen.LETTERS, 3))))
        ins.append(('xml', 't.acx'))
    if tool in ('lt-comp', 'lt-expand'):
        d, rels, letters = anagen.good_dix(r, filters=True)
        ctx.write('d.dix', dix.dix_xml(d))
        ins = [('xml', 'd.dix')]
        if tool == 'lt-comp':
            pre = r.choice([[], [], ['-j']]) + [r.choice(['lr', 'lr', 'rl'])]
            if pre[-1] == 'lr' and r.random() < .3:
                ctx.write('t.acx', c15.xml(c15.table(r, r.sample(fstgen.LETTERS, 3))))
                ins.append(('xml', 't.acx'))
    if tool == 'lt-tmxcomp':
        pre = ['en-es']
        ctx.write('t.tmx', tmx(r))
        ins = [('xml', 't.tmx')]
    if tool == 'lt-tmxproc':
        ctx.write('t.tmx', tmx(r))
        ctx.run('lt-tmxcomp', ['en-es', ctx.path('t.tmx'), ctx.path('t.bin')])
        ins = [('bin', 't.bin')]
    if tool in ('lt-proc', 'lt-paradigm', 'lt-merge', 'lt-tmxproc'):
        mode = []
        if tool == 'lt-proc':
            mode = r.choice([[], [], ['-g'], ['-b'], ['-p'], ['-t'], ['-w'], ['-e'], ['-d'], ['-o']])
        if r.random() < .3:
            mode = mode + ['-z']
        letters = r.sample(fstgen.LETTERS, 3)
        if '-g' in mode or '-b' in mode or '-d' in mode or '-o' in mode:
            t = ' '.join('^%s<n>%s$' % (stream.esc(r.choice(letters)), '/a' if '-o' in mode else '') for _ in range(r.choice([1, 5, 300])))
        elif tool == 'lt-paradigm':
            t = '\n'.join('%s*<n>' % stream.esc(r.choice(letters)) for _ in range(3)) + '\n'
        elif tool == 'lt-merge':
            t = '^x/x<n>$ ^(/(<MERGE_BEG>$ ^a/b<n>$ ^c/c<v>$ ^)/)<MERGE_END>$ ' * r.choice([1, 300])
        else:
            t = ''.join(stream.esc(r.choice(letters + [' ', '.'])) for _ in range(r.choice([1, 20, 9000])))
        ctx.write('in.txt', t)
        pre = mode
        ins.append(('text', 'in.txt'))
        if tool == 'lt-proc' and mode in ([], ['-w'], ['-z']) and r.random() < .4:
            if r.random() < .5:
                ctx.write('x.icx', c24.icx(r, ['-', 'x']))
                ins.insert(0, ('opt', 'x.icx', '-i'))
            else:
                ctx.write('x.rcx', c24.rcx(r, [('a', ['b', 'c']), ('e', ['b'])]))
                ins.insert(0, ('opt', 'x.rcx', '-r'))
    return tool, pre, ins


def command(ctx, tool, pre, ins, out, names=None):
    """out: name of the output, None: leave it (and an unnamed last input) out"""
    names = names or {}
    pre = list(pre)
    files = []
    for x in ins:
        n = names.get(x[1], ctx.path(x[1]))
        if x[0] == 'opt':
            pre += [x[2], n]
        elif n is not None:
            files.append(n)
    acx = None
    if tool == 'lt-comp' and len(files) > 1:
        acx = files.pop()
    if out is not None:
        files.append(out)
    if acx:
        files.append(acx)
    return pre + files


def content(p):
    with open(p, 'rb') as f:
        return f.read()


def refused(ctx, what, tool, args, **kw):
    res = ctx.run(tool, args, allow_fail=True, reject=REJECT, **kw)
    if res.rc == 0:
        raise Violation('%s: %s exits 0' % (what, tool), args=args, stderr=res.err.decode('utf-8', 'replace')[:500])
    if res.rc != 1:
        raise Violation('%s: %s exits %d' % (what, tool, res.rc), args=args, stderr=res.err.decode('utf-8', 'replace')[:500])
    return res


def cut_at(r, data):
    n = len(data)
    x = r.random()
    if x < .15:
        return 0
    if x < .4:
        return r.randint(0, min(n, 20))
    if x < .65:
        return max(0, n - r.randint(1, 12))
    return r.randrange(n)


def case(ctx):
    r = ctx.rng
    tool, pre, ins = prepare(ctx, r)
    good = ctx.path('good.out')
    base = ctx.run(tool, command(ctx, tool, pre, ins, good), allow_fail=True, reject=REJECT)
    if base.rc:
        ctx.count('refused_without_fault')
        raise Skip()
    want = content(good)

    def seen(kind, *what):
        ctx.count(kind)
        ctx.count(tool)
        ctx.sig(tool, [p for p in pre], kind, what)

    # cut inputs
    for x in ins:
        if x[0] == 'text':
            continue
        data = content(ctx.path(x[1]))
        solid = len(data.rstrip()) if x[0] != 'bin' else len(data)
        for _ in range(2):
            k = cut_at(r, data)
            if k >= solid or tool == 'lt-comp' and not data[:k].strip():
                continue        # an empty file is an ATT file without transducers
            p = ctx.write('cut', data[:k])
            refused(ctx, '%s is cut after %d of %d bytes' % (x[1], k, len(data)), tool,
                    command(ctx, tool, pre, ins, ctx.path('o1'), {x[1]: p}))
            seen('cut_input', x[1], k, len(data))
    # missing inputs, output that cannot be opened
    x = r.choice(ins)
    refused(ctx, '%s does not exist' % x[1], tool, command(ctx, tool, pre, ins, ctx.path('o1'), {x[1]: ctx.path('no/such')}))
    seen('missing_input', x[1])
    refused(ctx, 'the output cannot be opened', tool, command(ctx, tool, pre, ins, ctx.path('no/such')))
    seen('no_output')
    # output that cannot be written
    last = ins[-1] if ins[-1][0] == 'text' else None
    noout = tool not in ('lt-comp', 'lt-tmxcomp')
    if want:
        for _ in range(2):
            k = r.choice([0, min(1, len(want) - 1), len(want) - 1, r.randrange(len(want)), r.randrange(len(want))])
            via = r.choice(['path', 'stdout', 'full', 'stdout_full'])
            kw = {}
            if via in ('path', 'stdout'):
                kw['fsize'] = k
            else:
                k = 0
            out = '/dev/full' if via == 'full' else ctx.path('o2') if via == 'path' else r.choice(['-'] + [None] * noout)
            if tool == 'lt-tmxcomp' and out == '-':
                out, via = ctx.path('o2'), 'path'
                kw['fsize'] = k
            names = {}
            if out is None and last:
                # the output can only be left out with the input before it, or by naming both
                if r.random() < .5:
                    names = {last[1]: None}
                    kw['stdin_file'] = ctx.path(last[1])
            if via in ('stdout', 'stdout_full'):
                kw['stdout_file'] = '/dev/full' if via == 'stdout_full' else ctx.path('o2')
            refused(ctx, 'only %d of %d bytes of output can be written (%s)' % (k, len(want), via), tool,
                    command(ctx, tool, pre, ins, out, names), **kw)
            seen('cut_output', via, k, len(want))
        if os.path.exists(ctx.path('o2')):
            os.unlink(ctx.path('o2'))
        ctx.run(tool, command(ctx, tool, pre, ins, ctx.path('o2')), fsize=len(want) + (0 if tool != 'lt-tmxcomp' else 0))
        if content(ctx.path('o2')) != want:
            raise Violation('the output differs when its size is limited to %d bytes' % len(want), tool=tool, pre=pre)
        seen('exact_limit', len(want))
    # channels
    for _ in range(3):
        names, kw, thr = {}, {}, None
        desc = []
        cands = [x for x in ins if x[0] in ('bin', 'text')]
        if cands and r.random() < .8:
            x = r.choice(cands)
            data = content(ctx.path(x[1]))
            how = r.choice(['redirect', 'pipe', 'fifo', 'devstdin'])
            if how == 'fifo':
                f = ctx.path('fifo')
                if os.path.exists(f):
                    os.unlink(f)
                os.mkfifo(f)
                names[x[1]] = f

                def feed(f=f, data=data):
                    try:
                        with open(f, 'wb') as o:
                            o.write(data)
                    except BrokenPipeError:
                        pass
                thr = threading.Thread(target=feed, daemon=True)
                thr.start()
            elif how == 'devstdin':
                names[x[1]] = '/dev/stdin'
                kw['stdin'] = data
            else:
                names[x[1]] = '-' if x[0] == 'bin' else '/dev/stdin'
                if how == 'redirect':
                    kw['stdin_file'] = ctx.path(x[1])
                else:
                    kw['stdin'] = data
            desc.append((x[1], how))
        else:
            x = None
        oh = r.choice(['path', 'path', '-', '-', 'none', 'devstdout'])
        if tool == 'lt-tmxcomp' and oh != 'devstdout' or tool == 'lt-comp' and oh == 'none':
            oh = 'path'
        out = {'path': ctx.path('o3'), '-': '-', 'none': None, 'devstdout': '/dev/stdout'}[oh]
        if oh == 'none' and x is last and last and kw:
            names[last[1]] = r.choice([None, None, '/dev/stdin'])
        if oh != 'path' and r.random() < .5:
            kw['stdout_file'] = ctx.path('o3')
        res = ctx.run(tool, command(ctx, tool, pre, ins, out, names), **kw)
        if thr:
            thr.join(5)
        got = content(ctx.path('o3')) if oh == 'path' or 'stdout_file' in kw else res.out
        if oh == 'devstdout' and tool not in ('lt-proc', 'lt-print', 'lt-expand', 'lt-paradigm', 'lt-merge', 'lt-tmxproc'):
            continue        # statistics may go to the same place
        if got != want:
            raise Violation('the result differs with input through %r and output through %s' % (desc, oh), tool=tool, pre=pre,
                            expected=repr(want[:400]), got=repr(got[:400]))
        seen('channel', desc, oh, len(want))
    if ctx.sample is None:
        ctx.sample = {'case': ctx.idx, 'tool': tool, 'args': pre, 'inputs': [x[1] for x in ins], 'output_bytes': len(want)}
