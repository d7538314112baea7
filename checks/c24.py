"""C24: ignored characters leave no trace, and text matches the dictionary through restored characters."""
from fw import Violation, Skip
import anagen, dix, model, stream, textgen
from stream import isupper, lower

SPEC = dict(
    id='C24', level='exploration',
    technique='reference-model monitor (longest match over the denoted relation, stepping through restored characters, with '
              'ignored characters removed) on the output of sanitized lt-proc -i, -r and -I runs',
    rule='one evaluation = one random text analysed with one random dictionary and one set of -i, -r and -I options; non-trivial when a '
         'character was ignored or a word was known through a restored character; distinct by (expected units, options)',
    quick=1500, thorough=40000, min_distinct=500)


class Restoring(model.Analyser):
    rcx = {}

    def step(self, front, c):
        alts = self.rcx.get(c)
        if alts is None:
            return super().step(front, c)
        alts = set(alts)
        if isupper(c) and not self.cs:
            alts.add(lower(c))
            alts |= set(self.rcx.get(lower(c), ()))
        nf = []
        for node, dirty in front:
            k = node.kids.get(c)
            if k:
                nf.append((k, dirty))
            for a in sorted(alts):
                k = node.kids.get(a)
                if k and a != c:
                    nf.append((k, True))
        return nf


def ref(r, c):
    x = r.random()
    if x < .15:
        return '&#%d;' % ord(c)
    if x < .3:
        return '&#x%x;' % ord(c)
    return {'<': '&lt;', '&': '&amp;', '"': '&quot;'}.get(c, c)


def noise(r):
    return r.choice(['\n', '\n', ' ', '', '<!-- <char value="a"/> -->', '\n\n'])


def icx(r, chars):
    return '<?xml version="1.0"?>\n<ignored-chars>' + ''.join(
        noise(r) + (r.choice(['<char value="%s"/>', '<char value="%s"></char>']) % ref(r, c)) for c in chars) + noise(r) + '</ignored-chars>\n'


def rcx(r, m):
    out = '<?xml version="1.0"?>\n<restore-chars>'
    for c, alts in m:
        out += noise(r) + '<char value="%s">' % ref(r, c)
        for a in alts:
            out += noise(r) + (r.choice(['<restore-char value="%s"/>', '<restore-char value="%s"></restore-char>']) % ref(r, a))
        out += noise(r) + '</char>'
    return out + noise(r) + '</restore-chars>\n'


def malformed(ctx, r):
    d, rels, letters = anagen.good_dix(r)
    ctx.run('lt-comp', ['lr', ctx.write('d.dix', dix.dix_xml(d)), ctx.path('d.bin')])
    rs = r.random() < .5
    t = rcx(r, [('a', ['b', 'c']), ('é', ['e'])]) if rs else icx(r, ['a', '-', 'é'])
    k = r.choice(['value', 'elem', 'empty', 'cut', 'other', 'close'])
    i = r.choice([i for i in range(len(t)) if t.startswith('value="', i) and not t.startswith('value="a"/>', i)])
    if k == 'value':
        t = t[:i] + 'valeu' + t[i + 5:]
    elif k == 'empty':
        t = t[:i] + 'value="' + t[t.index('"', i + 7):]
    elif k == 'elem':
        t = t[:i] + '/><chars ' + t[i:]
        t = t.replace('<char />', '').replace('<restore-char />', '')
    elif k == 'cut':
        t = t[:i + r.randint(0, 7)]
    elif k == 'other':
        t = t[:t.rindex('</')] + '<p/>' + t[t.rindex('</'):]
    else:
        t = t.replace('-chars>', '-chras>', 1)
    p = ctx.write('x.xml', t)
    res = ctx.run('lt-proc', ['-r' if rs else '-i', p, ctx.path('d.bin')], 'a b', allow_fail=True)
    if res.rc != 1:
        raise Violation('a malformed file (%s) is accepted: exit status %d' % (k, res.rc), file=t)
    ctx.count('malformed_' + k)
    ctx.sig('malformed', t)


def case(ctx):
    r = ctx.rng
    if r.random() < .06:
        return malformed(ctx, r)
    types = r.choice([['standard'], ['standard', 'inconditional'], ['standard', 'postblank']])
    d, rels, letters = anagen.good_dix(r, types)
    p = ctx.write('d.dix', dix.dix_xml(d))
    ctx.run('lt-comp', ['lr', p, ctx.path('d.bin')])
    surf = textgen.surfaces(rels)
    inner = sorted({c for s in surf for c in s if len(c) == 1 and c != ' '})
    if not inner:
        raise Skip()
    cs, dc = r.random() < .15, r.random() < .2
    flags = (['-c'] if cs else []) + (['-w'] if dc else [])
    use_i, use_r = r.choice([(1, 0), (0, 1), (0, 1), (1, 1), (0, 0)])
    ignored = {'\u00ad'}
    if r.random() < .3 or not (use_i or use_r):
        flags.append('-I')
        ignored = set()
    if use_r:
        ignored = set()
    if use_i:
        for k in range(r.choice([1, 1, 1, 2, 3])):
            cs2 = r.sample(['\u00ad', '\u0301', '\u200d', '-', '\'', '*', '.', 'x', 'Q', '\U0001F600', '\U00010400', 'ж', '\uffff'] + inner[:2],
                           r.choice([0, 1, 2, 3, 5]))
            cs2 = [c for c in cs2 if c not in stream.RESERVED and c != '\uffff']
            flags += ['-i', ctx.write('i%d.icx' % k, icx(r, cs2))]
            ignored |= set(cs2)
    rmap = {}
    if use_r:
        for k in range(r.choice([1, 1, 1, 2])):
            m = []
            for _ in range(r.randint(0, 4)):
                c = r.choice(inner + list('eExyzQ') + ['ж', '\U00010428'])
                if r.random() < .3:
                    c = stream.upper(c)
                alts = [r.choice(inner + [stream.upper(x) for x in inner] + ['q']) for _ in range(r.choice([0, 1, 1, 2, 3]))]
                m.append((c, alts))
                if alts:
                    rmap.setdefault(c, set()).update(alts)
            flags += ['-r', ctx.write('r%d.rcx' % k, rcx(r, m))]
    back = {}
    for c, alts in rmap.items():
        for a in alts:
            back.setdefault(a, []).append(c)
            if isupper(a):
                continue
            if lower(c) == c and stream.upper(c) != c:
                back[a].append(stream.upper(c))
    letters2 = letters + list('xyzQe') + sorted(ignored)
    for k in range(4):
        an = Restoring(rels, d.alphabet, cs, dc)
        an.rcx = rmap
        its = textgen.text(r, surf, letters2, blanks=r.random() < .3, maxrep=r.choice([4, 12, 40]), newline=r.random() < .7)
        src, text = '', []
        ign = 0
        many = sorted(ignored)
        for t, x in its:
            if many and r.random() < .12:
                src += r.choice(many)
                ign += 1
                if r.random() < .1:
                    src += r.choice(many) * r.choice([1, 3, 50])
            if t == 'c' and x in back and r.random() < .6:
                x = r.choice(back[x])
            if r.random() < .05:
                t, x = 'c', '\u00ad'
            e = t == 'c' and (x in stream.RESERVED or r.random() < .04)
            src += '\\' + x if e else x
            if t == 'c' and x in ignored and not e:
                ign += 1
                continue
            text.append(' ' if t == 'b' else x)
        if many and r.random() < .1:
            src += r.choice(many)
            ign += 1
        ctx.write('in%d.txt' % k, src)
        exp = an.run(text)
        if an.ambiguous:
            ctx.count('skipped_lowercase_fallback')
            continue
        out = ctx.run('lt-proc', flags + [ctx.path('d.bin')], src).text
        got = stream.parse_or_violate(out, 'the output', input=src)
        e = [x for x in exp if not (x[0] == 'c' and stream.isspace(x[1]))]
        g = [x for x in got if x[0] != 'b' and not (x[0] == 'c' and stream.isspace(x[1]))]
        restored = 0
        info = dict(input=src, output=out, flags=flags, restore=rmap, ignored=sorted(ignored))
        for i in range(max(len(e), len(g))):
            if i >= len(e) or i >= len(g):
                raise Violation('the output has %d units, expected %d' % (len(g), len(e)), **info)
            x, y = e[i], g[i]
            if x[0] != y[0] or (x[0] == 'c' and x[1] != y[1]):
                raise Violation('unit %d is %r, expected %r' % (i, y, x), **info)
            if x[0] == 'c':
                continue
            sf = stream.unesc(y[1][0])
            if sf != x[1]:
                raise Violation('surface form %r, expected %r' % (sf, x[1]), **info)
            a = y[1][1:]
            if x[2] is None:
                if a != ['*' + stream.esc(sf)]:
                    raise Violation('unknown word %r comes out as %r' % (sf, y[1]), **info)
                ctx.count('unknown')
                continue
            if len(set(a)) != len(a) or set(a) != set(x[2]):
                raise Violation('%r analysed as %r, expected %r' % (sf, sorted(a), sorted(x[2])), **info)
            if any(x[2][b] < x[2][c] - 1e-6 for c, b in zip(a, a[1:])):
                raise Violation('the analyses of %r are not ordered by weight: %r' % (sf, a), weights=x[2], **info)
            if any(c in rmap for c in sf):
                restored += 1
            ctx.count('known_' + x[3])
        ctx.count('ignored', ign)
        ctx.count('restored', restored)
        if ign or restored:
            ctx.sig([(x[1], sorted(x[2].items())) if x[0] == 'lu' and x[2] else x[1] for x in e],
                    [f.replace(ctx.dir, '') for f in flags])
            if ctx.sample is None:
                ctx.sample = {'case': ctx.idx, 'flags': [f.replace(ctx.dir, '') for f in flags], 'input': src[:120], 'output': out[:160]}
