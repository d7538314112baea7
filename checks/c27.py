"""C27: a command line means the same however it is written, and a wrong one is refused."""
import os
from fw import Violation, Skip
import anagen, dix, fstgen, stream, c15, c24
from c25 import write_bin, tmx

SPEC = dict(
    id='C27', level='exploration',
    technique='metamorphic monitor: every program is run with one command line in many spellings (short, long, bundled, attached, '
              'permuted) and what it prints, writes and exits with is compared; wrong command lines are watched (also under '
              'valgrind memcheck, which sees what getopt reads) for exit status and written files',
    rule='one evaluation = one command line with its spellings, or one wrong command line; distinct by program, options and spelling',
    variants=('plain',), quick=1200, thorough=20000, min_distinct=700)

# letter: long name, '' or the kind of value
VARS = {'v': ('var', 'v'), 'a': ('alt', 'a'), 'l': ('var-left', 'v'), 'r': ('var-right', 'v')}
OPTIONS = {
    'lt-append': {'k': ('keep', ''), 's': ('single', ''), 'h': ('help', '')},
    'lt-apply-acx': {},
    'lt-comp': dict(VARS, d=('debug', ''), m=('keep-boundaries', ''), H=('hfst', ''), S=('no-split', ''), j=('jobs', ''), V=('verbose', ''), h=('help', '')),
    # not -j: which section's symbol pairs are numbered first then depends on the schedule, so the bytes may differ (C20 compares the relations)
    'lt-compose': {'i': ('inverted', ''), 'a': ('anywhere', '')},
    'lt-expand': dict(VARS, m=('keep-boundaries', '')),
    'lt-invert': {'h': ('help', '')},
    'lt-merge': {'u': ('unmerge', ''), 'z': ('null-flush', ''), 'h': ('help', '')},
    'lt-paradigm': {'a': ('analyser', ''), 'e': ('exclude', 'e'), 's': ('sort', ''), 'z': ('null-flush', ''), 'h': ('help', '')},
    'lt-print': {'a': ('alpha', ''), 'H': ('hfst', ''), 'h': ('help', '')},
    'lt-proc': {'a': ('analysis', ''), 'b': ('bilingual', ''), 'c': ('case-sensitive', ''), 'd': ('debugged-gen', ''), 'e': ('decompose-nouns', ''),
                'g': ('generation', ''), 'i': ('ignored-chars', 'i'), 'r': ('restore-chars', 'r'), 'l': ('tagged-gen', ''), 'm': ('tagged-nm-gen', ''),
                'n': ('non-marked-gen', ''), 'o': ('surf-bilingual', ''), 'O': ('surf-bilingual-keep', ''), 'p': ('post-generation', ''),
                'x': ('inter-generation', ''), 't': ('transliteration', ''), 'z': ('null-flush', ''), 'w': ('dictionary-case', ''),
                'C': ('careful-case', ''), 'I': ('no-default-ignore', ''), 'W': ('show-weights', ''), 'N': ('analyses', 'n'),
                'L': ('weight-classes', 'n'), 'M': ('compound-max-elements', 'n'), 'h': ('help', ''), 'v': ('version', ''), 's': ('sao', '')},
    'lt-restrict': dict(VARS, m=('minimise', '')),
    'lt-tmxproc': {'s': ('space', ''), 'z': ('null-flush', '')},
    'lt-trim': {'s': ('match-section', 's')},
}
MODES = 'abdegCnolmOptx'


def prepare(ctx, r):
    """-> program, options [(letter, value)], files with the output last, least number of files, standard input"""
    tool = r.choice(sorted(OPTIONS) + ['lt-proc'] * 6 + ['lt-comp', 'lt-expand'] * 2)
    src = ''
    if tool in ('lt-append', 'lt-compose', 'lt-trim'):
        write_bin(ctx, r, 'a.bin')
        write_bin(ctx, r, 'b.bin')
        files = ['a.bin', 'b.bin', 'out']
    elif tool in ('lt-invert', 'lt-print', 'lt-restrict'):
        write_bin(ctx, r, 'a.bin')
        files = ['a.bin', 'out']
        if tool == 'lt-restrict':
            files.insert(0, r.choice(['lr', 'rl']))
    elif tool == 'lt-apply-acx':
        write_bin(ctx, r, 'a.bin')
        ctx.write('t.acx', c15.xml(c15.table(r, r.sample(fstgen.LETTERS, 3))))
        files = ['a.bin', 't.acx', 'out']
    elif tool in ('lt-comp', 'lt-expand'):
        d, rels, letters = anagen.good_dix(r, filters=True)
        ctx.write('d.dix', dix.dix_xml(d))
        files = ['d.dix', 'out']
        if tool == 'lt-comp':
            files.insert(0, r.choice(['lr', 'rl', 'u']))
    elif tool == 'lt-tmxproc':
        ctx.write('t.tmx', tmx(r))
        ctx.run('lt-tmxcomp', ['en-es', ctx.path('t.tmx'), ctx.path('t.bin')])
        ctx.write('in', 'a b casa.\n12 x 3 house ñu\n')
        files = ['t.bin', 'in', 'out']
    elif tool == 'lt-merge':
        ctx.write('in', ' '.join(r.choice(['^a/b<n>$', '^a/b<MERGE_BEG>$', '^c/d<MERGE_END>$', '^x y/x<MERGED>$', 'q']) for _ in range(6)) + '\n')
        files = ['in', 'out']
    else:
        d, rels, letters = anagen.good_dix(r)
        ctx.write('d.dix', dix.dix_xml(d))
        ctx.run('lt-comp', [r.choice(['lr', 'rl']), ctx.path('d.dix'), ctx.path('a.bin')], allow_fail=True)
        if not os.path.exists(ctx.path('a.bin')):
            raise Skip()
        keys = sorted({k for rel in rels.values() for k in rel})
        if not keys:
            raise Skip()
        side = r.randint(0, 1)

        def w():
            return ''.join(c if len(c) > 1 else stream.esc(c) for c in r.choice(keys)[side])
        if tool == 'lt-paradigm':
            ctx.write('in', '\n'.join(r.choice(['*', '*<*>', w(), w() + '<*>']) for _ in range(3)) + '\n')
        elif r.random() < .5:
            ctx.write('in', ' '.join('^%s$' % '/'.join(w() for _ in range(r.randint(1, 2))) for _ in range(5)) + '\n')
        else:
            ctx.write('in', ' '.join(w() for _ in range(5)).replace('<', '').replace('>', '') + '\n')
        files = ['a.bin', 'in', 'out']
    if len(files) and files[-2] == 'in' and r.random() < .4:
        src = open(ctx.path('in'), encoding='utf-8').read()
        files = files[:-2]
    elif tool in ('lt-proc', 'lt-print', 'lt-expand', 'lt-merge', 'lt-paradigm', 'lt-tmxproc') and r.random() < .3:
        files = files[:-1]
    opts = []
    table = OPTIONS[tool]
    free = [k for k in table if k not in 'h' and not (tool == 'lt-proc' and (k in MODES or k in 'vsM' or k in 'ir')) and not (tool == 'lt-comp' and k == 'H')]
    for k in r.sample(sorted(free), r.randint(0, min(4, len(free)))):
        opts.append((k, value(ctx, r, table[k][1])))
    if tool == 'lt-proc':
        if r.random() < .2:
            k = r.choice('irM')
            opts.append((k, value(ctx, r, table[k][1])))
        for k in r.sample(MODES, r.choice([0, 1, 1, 1, 2])):
            opts.append((k, ''))
    r.shuffle(opts)
    return tool, opts, files, src


def value(ctx, r, kind):
    if kind == 'v':
        return r.choice(['p', 'q', 's', 't', 'x y', '-p', 'é'])
    if kind == 'a':
        return r.choice(['x', 'y', 'z', '--', 'é'])
    if kind == 'e':
        return r.choice(['<n>', '<v>', '<sg>'])
    if kind == 's':
        return r.choice(['main@standard', 'final@inconditional', '-x', ''])
    if kind == 'n':
        return str(r.choice([1, 2, 3, 100]))
    if kind in ('i', 'r'):
        ctx.write('t.' + kind, '<ignored-chars><char value="b"/></ignored-chars>' if kind == 'i' else
                  '<restore-chars><char value="a"><restore-char value="b"/></char></restore-chars>')
        return ctx.path('t.' + kind)
    return ''


def spell(r, table, opts, files, plain=False):
    """one way of writing the command line"""
    if plain:
        out = []
        for k, v in opts:
            out += ['-' + k] + ([v] if table[k][1] else [])
        return out + files
    opts = list(opts)
    keep = [o for o in opts]
    r.shuffle(opts)
    # the same option given twice keeps its order; a flag may be repeated
    for k in {o[0] for o in opts}:
        same = [o for o in keep if o[0] == k]
        for i, o in enumerate(opts):
            if o[0] == k:
                opts[i] = same.pop(0)
    flags = [o for o in opts if not table[o[0]][1]]
    if flags and r.random() < .2:
        opts.insert(r.randint(0, len(opts)), r.choice(flags))
    groups, i = [], 0
    while i < len(opts):
        k, v = opts[i]
        name, val = table[k]
        x = r.random()
        if val:
            groups.append(r.choice([['-' + k, v], ['-' + k + v] if v else ['-' + k, v], ['--%s=%s' % (name, v)], ['--' + name, v]]))
            i += 1
        elif x < .4:
            groups.append(['--' + name])
            i += 1
        else:
            b = '-' + k
            i += 1
            while i < len(opts) and r.random() < .6:
                k, v = opts[i]
                b += k
                i += 1
                if table[k][1]:
                    groups.append(r.choice([[b, v], [b + v] if v else [b, v]]))
                    b = None
                    break
            if b:
                groups.append([b])
    fs = list(files)
    x = r.random()
    if x < .25:
        return [a for g in groups for a in g] + ['--'] + fs
    if x < .5:
        return [a for g in groups for a in g] + fs
    # options among and after the files
    slots = [[] for _ in range(len(fs) + 1)]
    for g in groups:
        slots[r.randint(0, len(fs))].append(g)
    order = []
    for i, s in enumerate(slots):
        order += [a for g in s for a in g] + ([fs[i]] if i < len(fs) else [])
    return order


def result(ctx, tool, args, src):
    out = ctx.path('out')
    if os.path.exists(out):
        os.remove(out)
    res = ctx.run(tool, args, src, allow_fail=True)
    data = open(out, 'rb').read() if os.path.exists(out) else None
    return res.rc, res.out, data


def wrong(ctx, r, tool, opts, files, src):
    table = OPTIONS[tool]
    args = spell(r, table, opts, files, plain=True)
    k = r.choice(['short', 'long', 'long', 'value', 'missing', 'many', 'few'])
    vals = [c for c in table if table[c][1]]
    flags = [c for c in table if not table[c][1] and c not in 'hv']
    i = r.randint(0, len(args) - len(files)) if not vals else 0
    if k == 'short':
        args.insert(0, '-' + r.choice([c for c in 'qQyYXZ%1' if c not in table]))
    elif k == 'long':
        args.insert(i, r.choice(['--zzz', '--zzz=1', '--no-such-option', '--%sx' % (table[r.choice(sorted(table))][0] if table else 'y')]))
    elif k == 'value' and flags:
        args.insert(0, '--%s=%s' % (table[r.choice(sorted(flags))][0], r.choice(['', 'x', '1'])))
    elif k == 'missing' and vals:
        c = r.choice(sorted(vals))
        args.append(r.choice(['-' + c, '--' + table[c][0]]))
    elif k == 'few':
        if tool in ('lt-invert', 'lt-print', 'lt-merge'):
            raise Skip()                # all of them may be left out
        files = []
        args = spell(r, table, opts, files, plain=True)
    else:
        k = 'many'
        while len(files) < 5:
            files = files + ['more']
        args = spell(r, table, opts, files, plain=True)
    if r.random() < .15:
        ctx.valgrind = True
        ctx.count('valgrind')
    rc, out, data = result(ctx, tool, args, src)
    if rc == 0:
        raise Violation('%s succeeds with a wrong command line (%s): %r' % (tool, k, args))
    if rc == 99 and ctx.valgrind:
        raise Violation('%s: invalid memory access with the command line %r' % (tool, args))
    if data is not None:
        raise Violation('%s writes its output with a wrong command line (%s): %r' % (tool, k, args))
    ctx.count('wrong_' + k)
    ctx.sig('wrong', tool, args)


def case(ctx):
    r = ctx.rng
    tool, opts, files, src = prepare(ctx, r)
    if r.random() < .35:
        return wrong(ctx, r, tool, opts, files, src)
    table = OPTIONS[tool]
    args = spell(r, table, opts, files, plain=True)
    first = result(ctx, tool, args, src)
    for _ in range(4):
        other = spell(r, table, opts, files)
        got = result(ctx, tool, other, src)
        if got != first:
            what = 'exits %d and %d' % (first[0], got[0]) if first[0] != got[0] else 'prints something else' if first[1] != got[1] else 'writes something else'
            raise Violation('%s %s for two spellings of one command line' % (tool, what), one=args, other=other,
                            printed=[first[1][:500], got[1][:500]])
        ctx.count('spellings')
    ctx.count(tool + ('' if first[0] == 0 else '_refused'))
    ctx.sig(tool, sorted(opts), files, args)
    if ctx.sample is None and opts:
        ctx.sample = {'case': ctx.idx, 'command': [tool] + args, 'spelled': other}
