"""C02: lt-expand lists exactly the pairs the dictionary denotes, with their directions."""
from fw import Violation, Skip
import dix

SPEC = dict(
    id='C02', level='exploration',
    technique='reference-model monitor over sanitized lt-expand runs: the listed pairs, split by their '
              'direction marks, compared as sets with the denotation of the XML in each direction',
    rule='one evaluation = one random dictionary expanded with one selection '
         'of alt/variants; non-trivial when at least one pair is denoted, distinct by the pairs',
    quick=12000, thorough=60000, min_distinct=300)

SPECIALS = list('^$/<>{}\\*@#+~:')


def parse_line(l):
    """Splits at the unescaped colon outside <tag>, returns (left, mark, right)."""
    i, n, intag = 0, len(l), False
    while i < n:
        c = l[i]
        if c == '\\':
            i += 2
            continue
        if c == '<':
            j = l.find('>', i)
            if j < 0:
                raise Violation('unterminated tag in a line of lt-expand', line=l)
            i = j + 1
            continue
        if c == ':':
            if l[i:i + 3] == ':>:' or l[i:i + 3] == ':<:':
                return l[:i], l[i + 1], l[i + 3:]
            return l[:i], '', l[i + 1:]
        i += 1
    raise Violation('line without a separator', line=l)


def strs(rel, inv):
    return {(''.join(b), ''.join(a)) if inv else (''.join(a), ''.join(b)) for a, b in rel}


def case(ctx):
    r = ctx.rng
    letters = r.sample(dix.LETTERS, r.randint(2, 6))
    if r.random() < .4:
        letters += r.sample(SPECIALS, r.randint(1, 4))
    g = dix.Gen(r, letters=letters, regex=r.random() < .25)
    d = g.dix()
    xml = dix.dix_xml(d)
    p = ctx.write('d.dix', xml)
    alt = r.choice(['', 'x', 'y'])
    v = r.choice(['p', 'q', ''])
    vl = r.choice(['', 's', 't'])
    vr = r.choice(['', 's', 't'])
    m = r.random() < .3
    args = (['-m'] if m else []) + (['-a', alt] if alt else []) + (['-v', v] if v else []) + \
        (['-l', vl] if vl else []) + (['-r', vr] if vr else [])
    lr = dix.Sel('lr', alt, '', vl, vr, m, esc=True)
    # without -v no entry with v= is selected, unlike in compilation
    rl = dix.Sel('rl', alt, v or '\0', vl, vr, m, esc=True)
    try:
        elr = set().union(*[strs(x, False) for x in dix.denote(d, lr).values()])
        erl = set().union(*[strs(x, True) for x in dix.denote(d, rl).values()])
    except dix.TooBig:
        raise Skip()
    if r.random() < .5:
        out = ctx.run('lt-expand', args + [p]).text
    else:
        ctx.run('lt-expand', args + [p, ctx.path('o.txt')])
        with open(ctx.path('o.txt'), encoding='utf-8') as f:
            out = f.read()
    glr, grl = set(), set()
    if out and not out.endswith('\n'):
        raise Violation('output does not end in a newline', output=out[-200:])
    for l in out.split('\n')[:-1]:
        a, mark, b = parse_line(l)
        ctx.count('lines' + ('_lr' if mark == '>' else '_rl' if mark == '<' else ''))
        if mark != '<':
            glr.add((a, b))
        if mark != '>':
            grl.add((a, b))
    for name, e, got in (('left-to-right', elr, glr), ('right-to-left', erl, grl)):
        for x in sorted(e - got):
            raise Violation('%s pair %s:%s is denoted but not listed' % (name, x[0], x[1]), args=args)
        for x in sorted(got - e):
            raise Violation('%s pair %s:%s is listed but not denoted' % (name, x[0], x[1]), args=args)
    if elr or erl:
        ctx.sig(sorted(elr), sorted(erl))
        if ctx.sample is None:
            ctx.sample = {'case': ctx.idx, 'args': args, 'first_lines': out[:200]}
    else:
        ctx.count('empty')
