"""C11: with null flush, every NUL-terminated segment is processed as if it were alone, and at once."""
import os, select, subprocess, time
from fw import Violation, Skip, SAN_ENV, SAN_MARKS, san_summary
import fw
import dix, stream, textgen, anagen, c10

SPEC = dict(
    id='C11', level='exploration',
    technique='history monitor: outputs of one sanitized long-lived process over a NUL-separated history compared with '
              'fresh processes per segment; half of the histories are fed interactively and the reply awaited after '
              'every NUL',
    rule='one evaluation = one history of 2 to 8 segments in one mode; non-trivial when a segment is changed by the tool; '
         'distinct by (mode, history)',
    quick=800, thorough=12000, min_distinct=300)

BAD = ['[unclosed', '[[t:b:x', '^a<', '^a<n', '^a', '^', '<x', '[\\', '^a/b', '^ab<x>/q', '[[/]', 'ab[', '[', '[[', 'a\\', '^*a', '^@a<n>', '^*a<', '^a/*b', '[<b>]^#a<n', '^=a', '^a<n>#b']
BADX = {k: [b for b in BAD if not b.endswith('\\')] for k in ('gen', 'bil')}
BADX['ana'] = [b for b in BAD if '^' not in b]


def lus(r, keys, letters):
    s = ''
    for _ in range(r.randint(0, 5)):
        k = list(r.choice(keys)) if r.random() < .7 else [r.choice(letters) for _ in range(3)]
        if r.random() < .3:
            k = stream.vary_case(r, [c for c in k if len(c) == 1]) + [c for c in k if len(c) > 1]
        t = ''.join(c if len(c) > 1 else stream.esc(c) for c in k)
        if not t:
            continue
        s += '^' + r.choice(['', '', '', '', '*', '@', '#', '=', '%']) + t + r.choice(['', '', '', '/z<n>']) + '$'
        s += r.choice([' ', '', '\n', '[<b>]', ' \\^', '[[t:b:1]]', '.'])
    return s


def interactive(ctx, args, segs, timeout=30):
    """Feeds a segment, waits for its NUL, and so on."""
    cmd = [os.path.join(ctx.bin, 'lt-proc')] + args
    ctx.log.append('lt-proc %s (interactive, %d segments)' % (' '.join(args), len(segs)))
    errf = open(ctx.path('stderr.txt'), 'w+b')
    fw.limit_memory(False)
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=errf, env=SAN_ENV, cwd=ctx.dir)
    fw.limit_memory(True)
    ctx.runs += 1
    out = b''
    res = []
    try:
        for s in segs:
            try:
                p.stdin.write(s + b'\0')
                p.stdin.flush()
            except BrokenPipeError:
                pass
            end = time.time() + timeout
            while b'\0' not in out:
                left = end - time.time()
                if left <= 0:
                    raise Violation('no reply within %ds of the NUL that ends segment %d (%r)' % (
                        timeout, len(res), s.decode()), flags=args, segments=[x.decode() for x in segs])
                if select.select([p.stdout], [], [], left)[0]:
                    x = os.read(p.stdout.fileno(), 65536)
                    if not x:
                        p.wait()
                        errf.seek(0)
                        err = errf.read()
                        if p.returncode < 0 or any(m in err for m in SAN_MARKS):
                            raise Violation('sanitizer/abort (rc %d): %s' % (p.returncode, san_summary(err)), flags=args,
                                            segments=[y.decode() for y in segs])
                        raise Violation('the process ended (rc %d) in segment %d (%r)' % (
                            p.returncode, len(res), s.decode()), flags=args, segments=[y.decode() for y in segs])
                    out += x
            i = out.index(b'\0')
            res.append(out[:i])
            out = out[i + 1:]
        try:
            p.stdin.close()
        except BrokenPipeError:
            pass
        rest = out + p.stdout.read()
        rc = p.wait(timeout)
        if rest.strip(b'\0') or rc:
            raise Violation('after the last segment: rc %d, output %r' % (rc, rest[:200]), flags=args,
                            segments=[x.decode() for x in segs])
    finally:
        p.kill()
        p.wait()
        errf.close()
    return res


def case(ctx):
    r = ctx.rng
    kind = r.choice(['ana', 'ana', 'gen', 'bil', 'pgen'])
    if kind == 'ana':
        d, rels, letters = anagen.good_dix(r, ['standard', 'inconditional', 'postblank', 'preblank'])
        dirn = 'lr'
        flags = r.choice([[], [], ['-a'], ['-w'], ['-c'], ['-e'], ['-W']])
        surf = textgen.surfaces(rels)

        def seg():
            return textgen.to_stream(textgen.text(r, surf, letters + list('xyzQ'), shy=r.random() < .2), r)
    elif kind == 'pgen':
        d, letters = c10.rules(r)
        dirn = 'lr'
        flags = [r.choice(['-p', '-t', '-x'])]
        lhs = sorted({i for x in dix.denote(d, dix.Sel('lr')).values() for i, o in x})

        def seg():
            s = ''
            for _ in range(r.randint(0, 6)):
                w = list(r.choice(lhs)) if r.random() < .7 else [r.choice(letters) for _ in range(3)]
                w = w[:6]
                if r.random() < .3:
                    w = [upper(c) if r.random() < .5 else c for c in w]
                t = ''.join(c if len(c) > 1 else stream.esc(c) for c in w)
                if r.random() < .15:
                    t = '[[t:b:1]]' + t.strip() + '[[/]]'
                s += t + r.choice([' ', ' ', '\n', '[<b>]', '', ' [x] '])
            return s
    else:
        dirn = 'rl' if kind == 'gen' else 'lr'
        d, rels, letters = anagen.good_dix(r, ['standard'], dir='rl' if kind == 'gen' else 'lr')
        flags = [r.choice(['-g', '-d', '-n', '-l', '-m', '-C'])] if kind == 'gen' else r.choice(
            [['-b'], ['-b', '-g'], ['-o'], ['-O'], ['-b', '-n']])
        keys = sorted({i for x in rels.values() for i, o in x})

        def seg():
            return lus(r, keys, letters)
    p = ctx.write('d.dix', dix.dix_xml(d))
    ctx.run('lt-comp', [dirn, p, ctx.path('d.bin')])
    n = r.randint(2, 8)
    segs = []
    for _ in range(n):
        s = '' if r.random() < .1 else seg()
        bad = False
        if r.random() < .2:
            s += r.choice(BADX.get(kind, BAD))
            bad = True
        segs.append((s.encode(), bad))
    if r.random() < .15:             # a long life
        size = sum(len(s) for s, b in segs) + n
        segs *= min(200, 4000 // size + 2)
        n = len(segs)
        ctx.count('long_histories')
    ctx.write('history.bin', b'\0'.join(s for s, b in segs) + b'\0')
    args = ['-z'] + flags + [ctx.path('d.bin')]
    raw = [s for s, b in segs]
    if r.random() < .5 and n < 60:
        got = interactive(ctx, args, raw)
        ctx.count('interactive')
    else:
        out = ctx.run('lt-proc', args, b'\0'.join(raw) + b'\0').out
        got = out.split(b'\0')
        if len(got) < n + 1 or any(x for x in got[n:]):
            raise Violation('%d segments in, %d out' % (n, len(got) - 1), flags=flags, input=raw, output=out)
        got = got[:n]
        ctx.count('batch')
    changed = False
    seen = {}
    for i, (s, bad) in enumerate(segs):
        if s in seen:
            if got[i] != seen[s]:
                raise Violation('segment %d (%r) gives %r in the history but %r alone' % (
                    i, s.decode(), got[i].decode('utf-8', 'replace'), seen[s].decode('utf-8', 'replace')), flags=flags, segments=raw)
            ctx.count('segments')
            continue
        alone = ctx.run('lt-proc', args, s + b'\0').out
        exp = alone.split(b'\0')[0]
        if alone.strip(b'\0') != exp:
            raise Violation('one segment gives several', input=s, output=alone, flags=flags)
        if got[i] != exp:
            raise Violation('segment %d (%r) gives %r in the history but %r alone' % (
                i, s.decode(), got[i].decode('utf-8', 'replace'), exp.decode('utf-8', 'replace')), flags=flags, segments=raw)
        if not bad:
            plain = ctx.run('lt-proc', flags + [ctx.path('d.bin')], s).out
            if plain != exp:
                raise Violation('%r gives %r without null flush but %r with it' % (
                    s.decode(), plain.decode('utf-8', 'replace'), exp.decode('utf-8', 'replace')), flags=flags)
            ctx.count('compared_with_plain_run')
        else:
            ctx.count('malformed_segments')
        ctx.count('segments')
        seen[s] = exp
        changed = changed or exp != s
    if changed:
        ctx.sig(flags, raw)
        if ctx.sample is None:
            ctx.sample = {'case': ctx.idx, 'flags': flags, 'segments': [s.decode()[:60] for s in raw]}


upper = stream.upper
