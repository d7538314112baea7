"""C07: every stretch of text gets exactly the analyses of the longest dictionary match."""
from fw import Violation, Skip
import dix, stream, textgen, anagen, model

SPEC = dict(
    id='C07', level='exploration',
    technique='reference-model monitor (left-to-right longest match over the denoted relation) on the output '
              'stream of sanitized lt-proc runs',
    rule='one evaluation = one random text analysed with one random dictionary; non-trivial when the model '
         'expects at least one known word; distinct by (expected units, options)',
    quick=1400, thorough=40000, min_distinct=500)


def weights_ok(analyses, exp):
    last = None
    for a in analyses:
        w = exp[a]
        if last is not None and w < last - 1e-6:
            return False
        last = w
    return True


def case(ctx):
    r = ctx.rng
    types = r.choice([['standard'], ['standard', 'inconditional'], ['standard', 'postblank'],
                      ['standard', 'preblank']])
    d, rels, letters = anagen.good_dix(r, types)
    p = ctx.write('d.dix', dix.dix_xml(d))
    ctx.run('lt-comp', ['lr', p, ctx.path('d.bin')])
    surf = textgen.surfaces(rels)
    cs, dc = r.random() < .15, r.random() < .2
    flags = (['-c'] if cs else []) + (['-w'] if dc else [])
    for k in range(4):
        an = model.Analyser(rels, d.alphabet, cs, dc)
        its = textgen.text(r, surf, letters + list('xyzQ'), blanks=r.random() < .3, shy=r.random() < .1,
                           maxrep=r.choice([4, 12, 40]), newline=r.random() < .7)
        src = textgen.to_stream(its, r)
        ctx.write('in%d.txt' % k, src)
        exp = an.run([' ' if x[0] == 'b' else x[1] for x in its if x != ('c', '\u00ad')])
        if an.ambiguous:
            ctx.count('skipped_lowercase_fallback')
            continue
        out = ctx.run('lt-proc', flags + [ctx.path('d.bin')], src).text
        got = stream.parse_or_violate(out, 'the output', input=src)
        e = [x for x in exp if not (x[0] == 'c' and stream.isspace(x[1]))]
        g = [x for x in got if x[0] != 'b' and not (x[0] == 'c' and stream.isspace(x[1]))]
        known = 0
        for i in range(max(len(e), len(g))):
            if i >= len(e) or i >= len(g):
                raise Violation('the output has %d units, expected %d' % (len(g), len(e)), input=src, output=out,
                                flags=flags)
            x, y = e[i], g[i]
            if x[0] != y[0]:
                raise Violation('unit %d is %r, expected %r' % (i, y, x), input=src, output=out, flags=flags)
            if x[0] == 'c':
                if x[1] != y[1]:
                    raise Violation('unit %d is %r, expected %r' % (i, y, x), input=src, output=out, flags=flags)
                continue
            sf = stream.unesc(y[1][0])
            if sf != x[1]:
                raise Violation('surface form %r, expected %r' % (sf, x[1]), input=src, output=out, flags=flags)
            an_got = y[1][1:]
            if x[2] is None:
                if an_got != ['*' + stream.esc(sf)]:
                    raise Violation('unknown word %r comes out as %r' % (sf, y[1]), input=src, output=out, flags=flags)
                ctx.count('unknown')
                continue
            known += 1
            if len(set(an_got)) != len(an_got):
                raise Violation('an analysis of %r is repeated: %r' % (sf, an_got), input=src, output=out, flags=flags)
            if set(an_got) != set(x[2]):
                raise Violation('%r analysed as %r, expected %r' % (sf, sorted(an_got), sorted(x[2])), input=src,
                                output=out, flags=flags)
            if not weights_ok(an_got, x[2]):
                raise Violation('the analyses of %r are not ordered by weight: %r' % (sf, an_got), input=src,
                                weights=x[2], flags=flags)
            ctx.count('known_' + x[3])
            if len(an_got) > 1:
                ctx.count('ambiguous_words')
            if any(stream.isupper(c) for c in sf):
                ctx.count('words_with_capitals')
        if known:
            ctx.sig([(x[1], sorted(x[2].items())) if x[0] == 'lu' and x[2] else x[1] for x in e], flags)
            if ctx.sample is None:
                ctx.sample = {'case': ctx.idx, 'flags': flags, 'input': src[:120], 'output': out[:160]}
