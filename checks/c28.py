"""C28: a translation memory is looked up exactly and everything else of the text stays as it is."""
import unicodedata
from fw import Violation, Skip
import stream

SPEC = dict(
    id='C28', level='exploration',
    technique='runtime monitoring: lt-tmxcomp and lt-tmxproc (sanitized) run over random memories and texts made from them; an '
              'independent model of the memory (segments as symbol sequences, longest match, numbers, blanks) says what must be printed',
    rule='one evaluation = one text through one memory; distinct by memory and text; only texts with at least one character count',
    variants=('asan',), quick=6000, thorough=100000, min_distinct=4000)

NUM = ('n',)
PH = ('ph',)


def ispunct(c):
    return unicodedata.category(c)[0] == 'P'


def word(r, letters):
    w = ''.join(r.choice(letters) for _ in range(r.choice([1, 2, 3, 3, 4, 5])))
    x = r.random()
    return w.upper() if x < .08 and len(w.upper()) == len(w) else w[0].upper() + w[1:] if x < .2 and len(w[0].upper()) == 1 else w


def number(r):
    return ''.join(r.choice('0123456789') for _ in range(r.choice([1, 1, 2, 3, 6])))


def segment(r, words, reuse):
    """source: a list of words, numbers ('n', digits) and separators"""
    out = []
    if reuse and r.random() < .6:
        s = r.choice(reuse)
        out = list(s[:r.randint(1, len(s))])
        while out and (out[-1] == PH or (isinstance(out[-1], str) and (out[-1][-1].isspace() or ispunct(out[-1][0])))):
            out.pop()
    many = r.random() < .03
    for _ in range(r.randint(10, 13) if many else r.randint(1, 4)):
        if out:
            out.append(r.choice(['  ', ' \t', ' - ']) if r.random() < .05 else ' ' if r.random() < .85 else PH if r.random() < .5 else r.choice([', ', '-', '. ', ' ($', '@', '\t', '/']))
        out.append(('n', number(r)) if r.random() < (.95 if many else .2) else r.choice(words))
    return out


def target(r, src, words):
    nums = [x for x in src if isinstance(x, tuple) and x[0] == 'n']
    phs = [x for x in src if x == PH]
    parts = [r.choice(words + ['x)', '(y', 'a/b', '[z]', '$5'[:1], '<t>', 'ü#', 'q@']) for _ in range(r.randint(2, 4))] + [r.choice(nums[-3:] if len(nums) > 9 else nums) for _ in range(r.randint(0, 2)) if nums]
    if not nums and r.random() < .2:
        parts.append(('lit', number(r)))
    r.shuffle(parts)
    out = []
    for i, p in enumerate(parts):
        if i:
            if phs and r.random() < .4:
                out.append(PH)
            else:
                out.append(' ')
        out.append(p)
    return out


def xml_esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def seg_xml(r, s):
    out = ''
    close = ''
    for x in s:
        if x == PH:
            if r.random() < .5:
                out += r.choice(['<ph/>', '<hi/>', ' <ph/>', '<ph/> ', ' <hi /> '])
            else:
                out += close + r.choice(['<hi>', ' <hi>'])
                close = '</hi>'
                continue
        elif isinstance(x, tuple):
            out += x[1]
        elif r.random() < .05:
            out += '<!-- c -->' + xml_esc(x)
        else:
            out += xml_esc(x)
        if close and r.random() < .5:
            out += close
            close = ''
    return r.choice(['', '', ' ', '\n  ']) + out + close + r.choice(['', '', ' ', '\n'])


def tmx_xml(r, tus, sl, tl):
    out = '<?xml version="1.0" encoding="UTF-8"?>\n<tmx version="1.4">\n<header srclang="%s"><prop type="p">q</prop></header>\n<body>\n' % sl
    for s, t in tus:
        a = r.choice(['xml:lang', 'xml:lang', 'lang'])
        v = ['<tuv %s="%s"><seg>%s</seg></tuv>' % (a, sl, seg_xml(r, s)), '<tuv %s="%s">%s<seg>%s</seg></tuv>' % (a, tl, r.choice(['', '\n']), seg_xml(r, t))]
        if r.random() < .15:
            v.append('<tuv %s="xx"><seg>nothing at all</seg></tuv>' % a)
        r.shuffle(v)
        out += '<tu>' + r.choice(['', '\n']).join(v) + '</tu>\n'
        if r.random() < .1:
            out += '<!-- c -->\n'
    return out + '</body>\n</tmx>\n'


def pattern(s):
    """the symbols a source is looked up with"""
    out = []
    for x in s:
        if x == PH:
            out.append(' ')
        elif isinstance(x, tuple):
            out.append(NUM)
        else:
            out += list(x)
    return tuple(out)


def meta(s, t):
    """the translation: text, ('i', index of the source's number) and placeholders; and its length in the memory"""
    nums = [x[1] for x in s if isinstance(x, tuple) and x[0] == 'n']
    out, n = [], 0
    for x in t:
        if x == PH:
            out.append(PH)
            n += 3
        elif isinstance(x, tuple) and x[0] == 'n':
            out.append(('i', nums.index(x[1])))
            n += 3 + len(str(nums.index(x[1]) + 1))
        else:
            v = x[1] if isinstance(x, tuple) else x
            out.append(v)
            n += len(v)
    return out, n


class Item:
    def __init__(self, kind, val, raw):
        self.kind, self.val, self.raw = kind, val, raw

    def space(self):
        return self.kind == 'b' or (self.kind == 'c' and stream.isspace(self.val))

    def punct(self):
        return self.kind == 'c' and ispunct(self.val)

    def symbols(self):
        if self.kind == 'n':
            return {NUM}
        if self.kind == 'b':
            return {' '}
        return {self.val, stream.lower(self.val)} if stream.isupper(self.val) else {self.val}


def expected(items, memory, space):
    """pieces: literal text, or a set of translations"""
    prefixes = memory['prefixes']
    out = []
    i, n = 0, len(items)
    while i < n:
        live = {()}
        found = None
        j = i
        while j < n:
            it = items[j]
            done = [p for p in live if p in memory['units']]
            if done and (it.punct() or (space and it.space())):
                found = (j, done)
            live = {p + (s,) for p in live for s in it.symbols() if p + (s,) in prefixes}
            if not live:
                break
            j += 1
        if found:
            k, done = found
            nums = [x.val for x in items[i:k] if x.kind == 'n']
            blanks = [x.raw for x in items[i:k] if x.kind == 'b']
            res, rest = set(), blanks
            for p in done:
                for m in memory['units'][p]:
                    text, rest = '', list(blanks)
                    for x in m:
                        if x == PH:
                            text += rest.pop(0)[1:-1] if rest else ' '
                        elif isinstance(x, tuple):
                            text += nums[x[1]]
                        else:
                            text += stream.esc(x)
                    res.add(text)
            if blanks and len(res) > 1 and any(PH in m for p in done for m in memory['units'][p]):
                raise Skip()            # which of the translations gets the blank is not said
            out.append(res)
            out += rest
            i = k
        elif j == n:
            out += [x.raw for x in items[i:]]
            break
        elif items[j].space() or items[j].punct():
            j = max(j, i + 1)
            out += [x.raw for x in items[i:j]]
            i = j
        else:
            while j < n and not (items[j].space() or items[j].punct()):
                j += 1
            out += [x.raw for x in items[i:j]]
            i = j
    return out


def text(r, tus, words):
    items = []

    def lit(s):
        for c in s:
            items.append(Item('c', c, stream.esc(c)))

    def num():
        d = number(r) if r.random() < .9 else r.choice(['٣', '४५', '7٣'])
        if not (items and items[-1].kind == 'n'):
            items.append(Item('n', d, d))
    for _ in range(r.choice([1, 2, 3, 4, 6, 10])):
        if r.random() < .75:
            s = r.choice(tus)[0]
            s = s[:r.randint(1, len(s))] if r.random() < .3 else s
            up = r.random()
            for x in s:
                if x == PH:
                    if r.random() < .6:
                        b = '[%s]' % r.choice(['<b>', '</i>', ' x ', '', '\\]'])
                        items.append(Item('b', b, b))
                    else:
                        lit(' ')
                elif isinstance(x, tuple):
                    num()
                elif x == ' ' and r.random() < .06:
                    b = '[%s]' % r.choice(['<b>', '</i>', ' x '])
                    items.append(Item('b', b, b))
                else:
                    lit(x.upper() if up < .1 and len(x.upper()) == len(x) else x)
        else:
            lit(r.choice(words) + r.choice(['', 'x', ' ' + r.choice(words)]))
        k = r.random()
        if k < .5:
            lit(r.choice(['.', '!', ',', '. ', '.\n', '; ', '¿', ')']))
        elif k < .85:
            lit(r.choice([' ', ' ', '\n', '  ', '$', '^', ' [', ' @', '\\', '<', '+']))
        elif k < .93:
            b = '[%s]' % r.choice(['<p>', ' ', '\n', 'x y'])
            items.append(Item('b', b, b))
        if r.random() < .1:
            num()
    return items


def compare(ctx, got, exp):
    """where got is not what was expected, or None"""
    i = 0
    for p in exp:
        if isinstance(p, str):
            if got[i:i + len(p)] != p:
                return i, p
            i += len(p)
            continue
        if got[i:i + 1] != '[':
            return i, sorted(p)
        j, cur, parts = i + 1, '', []
        while j < len(got) and got[j] != ']':
            if got[j] == '\\':
                cur += got[j:j + 2]
                j += 2
                continue
            if got[j] == '/' and len(p) > 1:
                parts.append(cur)
                cur = ''
            else:
                cur += got[j]
            j += 1
        parts.append(cur)
        if got[i:j + 1] != '[%s]' % min(p) if len(p) == 1 and len(parts) == 1 else set(parts) != p:
            # one translation may stand there more than once, for sources that differ in case
            if not (len(p) == 1 and got[i + 1:j] in ['/'.join([min(p)] * k) for k in range(1, 9)]):
                return i, sorted(p)
        i = j + 1
        ctx.count('translated')
    return None if i == len(got) else (i, '')


def case(ctx):
    r = ctx.rng
    letters = r.sample('abcdefgñéßжд中', r.choice([2, 3, 5]))
    words = [word(r, letters) for _ in range(r.choice([3, 5, 8]))]
    tus, srcs = [], []
    for _ in range(r.choice([1, 2, 4, 8])):
        s = segment(r, words, srcs)
        t = target(r, s, words)
        if any('@(' in x or '(#' in x for x in [''.join(y if isinstance(y, str) else '(' if y[0] == 'n' else ' ' for y in t)]):
            continue
        tus.append((s, t))
        srcs.append(s)
    if not tus:
        raise Skip()
    sl, tl = r.choice([('en', 'es'), ('es', 'en'), ('nob', 'nno')])
    ctx.write('t.tmx', tmx_xml(r, tus, sl, tl))
    ctx.run('lt-tmxcomp', ['%s-%s' % (sl, tl), ctx.path('t.tmx'), ctx.path('t.bin')])
    memory = {'units': {}, 'prefixes': {()}}
    for s, t in tus:
        p = pattern(s)
        m, n = meta(s, t)
        if len(p) < 5 or n < 5:
            ctx.count('short_units')
            continue
        memory['units'].setdefault(p, []).append(m)
        for i in range(len(p) + 1):
            memory['prefixes'].add(p[:i])
    space = r.random() < .5
    parts = [text(r, tus, words) for _ in range(r.choice([1, 1, 1, 2, 3]))]
    src = '\0'.join(''.join(x.raw for x in p) for p in parts)
    exp = [expected(p, memory, space) for p in parts]
    args = (['-s'] if space else []) + [ctx.path('t.bin')]
    if r.random() < .3:
        ctx.write('in', src)
        res = ctx.run('lt-tmxproc', args + [ctx.path('in')])
    else:
        res = ctx.run('lt-tmxproc', args, src)
    got = res.out.decode('utf-8')
    outs = got.split('\0')
    if len(outs) == len(exp) + 1 and not outs[-1]:
        outs.pop()
    if len(outs) != len(exp):
        raise Violation('lt-tmxproc prints %d parts for %d' % (len(outs), len(exp)), stdin=repr(src), got=repr(got))
    for o, e, p in zip(outs, exp, parts):
        bad = compare(ctx, o, e)
        if bad:
            raise Violation('lt-tmxproc: at %d %r is expected' % bad, text=''.join(x.raw for x in p), got=o, expected=repr(e), option='-s' if space else '')
        ctx.count('blanks', sum(x.kind == 'b' for x in p))
        ctx.count('numbers', sum(x.kind == 'n' for x in p))
    ctx.count('texts', len(parts))
    if src:
        ctx.sig(sorted(map(str, memory['units'])), src, space)
    if ctx.sample is None and '[' in got:
        ctx.sample = {'case': ctx.idx, 'text': src[:200], 'printed': got[:300]}
