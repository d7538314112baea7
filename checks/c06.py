"""C06: analysis changes no text."""
from fw import Violation, Skip
import dix, stream, textgen, anagen, c23

SPEC = dict(
    id='C06', level='exploration',
    technique='conservation monitor over the recorded input and output streams of sanitized lt-proc runs',
    rule='one evaluation = one random text analysed with one random dictionary; non-trivial when the output '
         'has a lexical unit; distinct by (dictionary, text)',
    quick=2500, thorough=40000, min_distinct=500)


def flat(items, out=False):
    """-> (sequence of characters and blanks), lexical units replaced by their surface form"""
    seq = []
    for it in items:
        if it[0] == 'lu':
            if len(it[1]) < 2:
                raise Violation('lexical unit without an analysis', lu=it[1])
            seq += [('s', c) for c in stream.unesc(it[1][0])]
        else:
            seq.append(it)
    return seq


def runs(seq):
    """-> ([non-blank item, ...], [whitespace run before each, and after the last])"""
    items, ws = [], [[]]
    for x in seq:
        if x[0] != 'b' and len(x[1]) == 1 and stream.isspace(x[1]):
            ws[-1].append(x[1])
        else:
            items.append(x[1])
            ws.append([])
    return items, ws


def whitespace(ctx, want, got, special, exact, src, out, flags):
    seq, lo, hi = [], {}, {}
    n = 0            # non-blank items so far
    for it in got:
        if it[0] != 'lu':
            seq.append(it)
            n += not (it[0] == 'c' and stream.isspace(it[1]))
            continue
        sf = stream.unesc(it[1][0])
        # analyses can start with a literal * too
        star = it[1][1].startswith('*')
        known = it[1][1:] != ['*' + it[1][0]] or sf.casefold() in special['star']
        for typ, where in (('preblank', n), ('postblank', n + sum(not stream.isspace(c) for c in sf))):
            if known and sf.casefold() in special[typ][1]:
                hi[where] = hi.get(where, 0) + 1
                if exact and not star and sf in special[typ][0]:
                    lo[where] = lo.get(where, 0) + 1
                    ctx.count(typ + '_units')
        seq += [('s', c) for c in sf]
        n += sum(not stream.isspace(c) for c in sf)
    i1, w1 = runs(want)
    i2, w2 = runs(seq)
    for k, (x, y) in enumerate(zip(w1, w2)):
        extra = list(y)
        ok = True
        it = iter(y)
        ok = all(c in it for c in x)        # subsequence
        for c in x:
            if c in extra:
                extra.remove(c)
        if not ok or any(c != ' ' for c in extra) or not lo.get(k, 0) <= len(extra) <= hi.get(k, 0):
            raise Violation('whitespace changed before %r: %r became %r' % (
                ''.join(i1[k:k + 6]), ''.join(x), ''.join(y)), input=src, output=out, flags=flags)


def inside(ctx, want, got, src, out, flags):
    """Formatted blanks inside a multiword stand for its space and come right after it; all else stays in place."""
    p, pending = 0, []

    def bad(what):
        raise Violation('%s, at %r of the input' % (what, ''.join(x[1] for x in want[p:p + 6])), input=src, output=out,
                        flags=flags)
    for it in got:
        if it[0] == 'lu':
            if pending:
                bad('blanks from inside a unit are missing after it')
            for c in stream.unesc(it[1][0]):
                if p >= len(want):
                    bad('extra text')
                if c == ' ' and want[p][0] == 'b':
                    pending.append(want[p][1])
                    ctx.count('blanks_inside_multiwords')
                elif want[p][1] != c:
                    bad('text changed in %r' % it[1][0])
                p += 1
        elif pending:
            if it[1] != pending.pop(0):
                bad('blanks from inside a unit do not follow it')
        else:
            if p >= len(want) or want[p][1] != it[1]:
                bad('%r is not the text' % it[1])
            p += 1
    if p != len(want) or pending:
        bad('text is missing at the end')


def long_partial(ctx):
    """A match that fails only after more text than any fixed buffer holds."""
    r = ctx.rng
    ctx.write('d.dix', '<dictionary><alphabet>abcx</alphabet><sdefs><sdef n="n"/></sdefs><section id="m" type="standard">'
              '<e><re>a(b )*c</re></e><e><p><l>b</l><r>b<s n="n"/></r></p></e></section></dictionary>')
    ctx.run('lt-comp', ['lr', ctx.path('d.dix'), ctx.path('d.bin')])
    for _ in range(3):
        words = ['x'] * r.randint(0, 1500)
        for _ in range(r.randint(1, 3)):
            words += ['a' + 'b'] + ['b'] * r.choice([r.randint(900, 1200), r.randint(1, 6000)]) + [r.choice(['c', 'x', '', '.'])]
        src = ' '.join(words) + r.choice(['', '\n'])
        ctx.write('in.txt', src)
        out = ctx.run('lt-proc', [ctx.path('d.bin')], src).text
        got = ''.join(stream.unesc(x[1][0]) if x[0] == 'lu' else x[1] for x in stream.parse_or_violate(out, 'the output', input=src))
        if got != src:
            i = next((i for i, (x, y) in enumerate(zip(src, got)) if x != y), min(len(src), len(got)))
            raise Violation('text changed at character %d: %r became %r' % (i, src[i:i + 20], got[i:i + 20]), output=out[:200])
        ctx.count('long_partial_matches')
        ctx.sig('long', src)


def case(ctx):
    r = ctx.rng
    types = r.choice([['standard'], ['standard', 'inconditional'], ['standard', 'postblank'],
                      ['standard', 'preblank'], ['standard', 'inconditional', 'preblank', 'postblank']])
    kind = r.random()
    if kind < .012:
        return long_partial(ctx)
    if kind < .15:
        d, L, R, letters = c23.mkdix(r, multi=True)
        types = ['standard']
        rels = dix.denote(d, dix.Sel('lr'))
        if not any(rels.values()) or any('' in v for v in dix.firsts(d, dix.Sel('lr')).values()):
            raise Skip()
        flags = ['-e']
        ctx.count('compound_dictionaries')
    else:
        d, rels, letters = anagen.good_dix(r, types)
        flags = r.choice([[], [], ['-a'], ['-w'], ['-c'], ['-W'], ['-e'], ['-N', '1'], ['-L', '1']])
    p = ctx.write('d.dix', dix.dix_xml(d))
    ctx.run('lt-comp', ['lr', p, ctx.path('d.bin')])
    surf = textgen.surfaces(rels)
    special = {}
    for typ in ('preblank', 'postblank'):
        sfs = {''.join(i) for k, rel in rels.items() if k.endswith('@' + typ) for i, o in rel}
        special[typ] = (sfs, {x.casefold() for x in sfs})
    special['star'] = {''.join(i).casefold() for rel in rels.values() for i, o in rel if o[:1] == ('*',)}
    for k in range(4):
        its = textgen.text(r, surf, letters + list('xyzQ'), shy=r.random() < .15, blanks=r.random() < .6,
                           maxrep=r.choice([4, 12, 40]) if r.random() < .95 else 900, newline=r.random() < .7)
        if flags == ['-e'] and r.random() < .5:
            # parts run together
            its = [x for x in its if x != ('c', ' ') or r.random() < .3]
        if r.random() < .2:
            its.insert(r.randint(0, len(its)), ('t', r.choice(['<zzz>', r.choice([x for x in d.sdefs if 'co' not in x])])))
            ctx.count('texts_with_tags')
        src = textgen.to_stream(its, r)
        ctx.write('in%d.txt' % k, src)
        out = ctx.run('lt-proc', flags + [ctx.path('d.bin')], src).text
        got = stream.parse_or_violate(out, 'the output', input=src)
        nlu = sum(1 for x in got if x[0] == 'lu')
        ctx.count('lexical_units', nlu)
        seq = flat(got)
        want = []
        for x in its:
            want += [('c', c) for c in x[1]] if x[0] == 't' else [x] if x != ('c', '\u00ad') else []
        # characters other than blanks, in order
        a = [x[1] for x in want if x[0] == 'c' and not stream.isspace(x[1])]
        b = [x[1] for x in seq if x[0] in 'cs' and not stream.isspace(x[1])]
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            raise Violation('text changed at character %d: %s became %s' % (
                i, ''.join(a[i:i + 12]), ''.join(b[i:i + 12])), input=src, output=out, flags=flags)
        a = [x[1] for x in want if x[0] == 'b']
        b = [x[1] for x in seq if x[0] == 'b']
        if a != b:
            raise Violation('blanks changed', expected=a, got=b, input=src, output=out, flags=flags)
        # whitespace: exact, but for the blank that postblank and preblank entries add, when no
        # formatted blank falls inside a multiword
        inner = any(x[0] == 's' and stream.isspace(x[1]) for x in seq)
        if not (inner and a):
            whitespace(ctx, want, got, special, len(types) <= 2, src, out, flags)
            ctx.count('exact')
        elif not special['preblank'][0] and not special['postblank'][0]:
            inside(ctx, want, got, src, out, flags)
        if nlu:
            ctx.sig(sorted(rels), src, flags)
            if ctx.sample is None:
                ctx.sample = {'case': ctx.idx, 'input': src[:120], 'output': out[:160]}
