"""C17: lt-merge joins exactly the marked lexical units, and unmerging gives their text back."""
from fw import Violation, Skip
import stream

SPEC = dict(
    id='C17', level='exploration',
    technique='conservation monitor over sanitized lt-merge and lt-merge -u runs: the stream printed is parsed strictly and '
              'compared unit by unit with what was sent, merged spans with their text, and again after the round trip',
    rule='one evaluation = one random stream merged (and unmerged); non-trivial when it holds a merged span; distinct by the '
         'stream',
    quick=4500, thorough=80000, min_distinct=800)

CH = ['a', 'b', 'é', '\U0001F600', '«', '»', ' ', '\\^', '\\$', '\\/', '\\\\', '\\[', '\\]', '\\<', '\\>', '\\@', '\\{', '\\}',
      '*', '#', '+', '%', '=', '~', '.', '\\*']
GAPCH = ['a', ' ', ' ', '\n', '\t', '\\^', '\\$', '\\[', '\\\\', '\\/', 'é', '\U0001F600', '\\@', '.']


def word(r, first=True):
    while True:
        w = [r.choice(CH) for _ in range(r.randint(1, 4))]
        if first or w[0] not in '*#%=':
            return ''.join(w)


def gap(r):
    out = ''
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        x = r.random()
        if x < .2:
            out += r.choice(stream.BLANKS)
        elif x < .27:
            out += '[[/]]'
        else:
            out += r.choice(GAPCH)
    return out


def unesc1(s):
    return stream.unesc(s)


def reading(r):
    x = r.random()
    if x < .15:
        return '*' + word(r)
    return word(r, False) + ''.join(r.choice(['<n>', '<adj>', '<é>', '<lquot>', '<MERGE>']) for _ in range(r.randint(0, 2)))


def case(ctx):
    r = ctx.rng
    nul = r.random() < .3
    segs = []
    for _ in range(r.choice([1, 2, 3]) if nul else 1):
        us = []
        inside = False
        for _ in range(r.randint(0, 8) if r.random() < .97 else 60):
            wb = r.choice(['[[t:b:abc]]', '[[t:i:\\]x]]', '[[t:i:x; t:b:y]]']) if r.random() < .2 else ''
            kind = r.random()
            rs = [reading(r) for _ in range(r.randint(1, 3))]
            beg = end = False
            if kind < .25:
                beg = True
            elif kind < .45:
                end = True
            elif kind < .5:
                beg = end = True
            k = r.randrange(len(rs))
            if beg:
                rs[k] += '<MERGE_BEG>'
            if end:
                rs[r.randrange(len(rs))] += '<MERGE_END>'
            sf = word(r)
            if r.random() < .04:
                sf = ''.join(word(r, False) for _ in range(r.choice([20, 60, 200])))
            elif r.random() < .1 and (beg and end and not inside or inside and not beg):
                sf = ''
            inside = (inside or beg) and not end
            lu = [sf] + rs
            if not (beg or end) and r.random() < .08:
                lu = ['']       # ^$
            us.append((gap(r), wb, lu, beg, end))
        segs.append((us, gap(r)))
    last = r.random() < .7
    inp = ''
    for k, (us, tail) in enumerate(segs):
        inp += ''.join(g + w + '^' + '/'.join(lu) + '$' for g, w, lu, b, e in us) + tail
        if nul and (k < len(segs) - 1 or last):
            inp += '\0'
    # what it stands for: [('raw', text) | ('merged', text)]
    exp = []

    def raw(s):
        if exp and exp[-1][0] == 'raw':
            exp[-1] = ('raw', exp[-1][1] + s)
        elif s:
            exp.append(('raw', s))
    spans = 0
    for k, (us, tail) in enumerate(segs):
        cur = None
        for g, w, lu, b, e in us:
            if b and cur is None:
                raw(g + w)
                cur = lu[0]
            elif cur is not None:
                cur += g + w + ('^$' if w or g.endswith('[[/]]') else '') + lu[0]
            else:
                raw(g + w + '^' + '/'.join(lu) + '$')
            if e and cur is not None:
                exp.append(('merged', cur))
                spans += 1
                cur = None
        if cur is not None:
            exp.append(('merged', cur + tail))
            spans += 1
            ctx.count('unfinished')
        else:
            raw(tail)
        if nul and (k < len(segs) - 1 or last):
            raw('\0')
    args = ['-z'] if r.random() < .5 else []
    mode = r.random()
    if mode < .15:
        ctx.write('in', inp)
        out = ctx.run('lt-merge', args + [ctx.path('in')]).text
    elif mode < .3:
        ctx.write('in', inp)
        ctx.run('lt-merge', args + [ctx.path('in'), ctx.path('out')])
        out = open(ctx.path('out'), newline='').read()
    else:
        out = ctx.run('lt-merge', args, inp).text
    info = dict(input=inp, output=out)
    pos = 0
    un_in, un_exp = '', ''
    for kind, t in exp:
        if kind == 'raw':
            if out[pos:pos + len(t)] != t:
                raise Violation('text outside merges changed at %d: expected %r' % (pos, t), **info)
            pos += len(t)
            un_in += t
            un_exp += t
            continue
        j = pos + 1
        while j < len(out) and out[j] != '$':
            j += 2 if out[j] == '\\' else 1
        lu = out[pos:j + 1]
        if not (lu.startswith('^') and lu.endswith('<MERGED>$')):
            raise Violation('a merged unit is missing at %d: %r' % (pos, lu), **info)
        parts = stream.split_lu(lu[1:-1])
        if len(parts) != 2 or parts[1] != parts[0] + '<MERGED>':
            raise Violation('badly formed merged unit %r' % lu, **info)
        # one level of escapes gives the text of the span
        k = 0
        while k < len(parts[0]):
            if parts[0][k] == '\\':
                k += 2
                continue
            if parts[0][k] in '^$/<>[]{}@':
                raise Violation('unescaped %s in merged unit %r' % (parts[0][k], lu), **info)
            k += 1
        if unesc1(parts[0]) != t:
            raise Violation('merged unit stands for %r, the span is %r' % (unesc1(parts[0]), t), **info)
        pos = j + 1
        ctx.count('spans')
        if t[:1] in ('*', '#', '%', '=') or not t:
            continue        # would read as a mark in front of the unit
        un_in += '^%s<MERGED>/%s$' % (parts[0], parts[0])
        un_exp += t
    if pos != len(out):
        raise Violation('extra output %r' % out[pos:], **info)
    un = ctx.run('lt-merge', ['-u'] + args, un_in).text
    if un != un_exp:
        raise Violation('unmerging does not give the text back', sent=un_in, got=un, expected=un_exp)
    ctx.count('unmerged_streams')
    if spans:
        ctx.sig(inp)
        if ctx.sample is None:
            ctx.sample = {'case': ctx.idx, 'input': inp[:200], 'output': out[:200]}
