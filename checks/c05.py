"""C05: ATT text and binary transducers describe the same weighted relation, both ways."""
from fw import Violation, Skip
import fst, fstgen

SPEC = dict(
    id='C05', level='exploration',
    technique='reference-model monitor over sanitized lt-comp and lt-print runs: relation of the ATT text compared with the '
              'binary read by an independent reader, and again after printing and recompiling',
    rule='one evaluation = one random weighted transducer compiled from ATT text with one set of options; non-trivial when it '
         'accepts something; distinct by its relation and options',
    quick=5000, thorough=60000, min_distinct=500)

PUNCT = set(fstgen.PUNCT)


def rel(f, cyc, N=4):
    try:
        return fst.rel_bounded(f, N, N) if cyc else fst.relation(f.paths(60000))
    except OverflowError:
        raise Skip()


def undecided_final(f):
    """some path over arcs without letter or punctuation on the input side reaches a final state"""
    seen, st = {f.init}, [f.init]
    while st:
        s = st.pop()
        if s in f.finals:
            return True
        for i, o, t, w in f.arcs.get(s, ()):
            if (len(i) != 1 or i.isspace()) and t not in seen:
                seen.add(t)
                st.append(t)
    return False


def eps_loop(f):
    color = {}

    def go(s):
        color[s] = 1
        for i, o, t, w in f.arcs.get(s, ()):
            if len(i) != 1 or i.isspace():
                c = color.get(t, 0)
                if c == 1 or c == 0 and go(t):
                    return True
        color[s] = 2
        return False
    return go(f.init)


def case(ctx):
    r = ctx.rng
    cyc = r.random() < .15
    split = r.random() < .6
    hfst = r.random() < .4
    letters = r.sample(fstgen.LETTERS, r.randint(2, 4))
    if hfst and r.random() < .3:
        letters.append('ε')
    if r.random() < .3:
        letters.append(' ')
    if hfst and r.random() < .2:
        letters.append('\t')
    punct = r.sample(fstgen.PUNCT, 2) if r.random() < .5 else ()
    k = r.choice([1, 1, 1, 2, 3])
    plain = [x for x in letters if not x.isspace()] + list(punct)
    fs = [fstgen.rand(r, letters=letters, punct=punct, cyclic=cyc, first=plain if r.random() < .8 else None)
          for _ in range(k)]
    # state numbers: any, the initial state is the source of the first line
    ren = None
    if r.random() < .3:
        ids = r.sample(range(20), 8)
        ren = ids.__getitem__
    for f in fs:
        if not f.arcs.get(0):
            raise Skip()
    if r.random() < .25:
        for f in fs:
            fstgen.multi(r, f, [x for x in letters if not x.isspace() and x != 'ε'] or ['a'])
    dirn = r.choice(['lr', 'rl'])
    txt = fstgen.att(fs, eps=r.choice(['@0@', '@_EPSILON_SYMBOL_@'] if hfst else ['ε', 'ε', '@0@']),
                     space=r.choice(['@_SPACE_@', ' ']), tab='@_TAB_@', rename=ren, r=r)
    ctx.write('d.att', txt)
    fs = [fstgen.expand(f) for f in fs]
    whole = fst.combined(fs) if k > 1 else fs[0]
    if dirn == 'rl':
        whole = whole.inverted()
    exp = rel(whole, cyc)
    flags = (['-H'] if hfst else []) + ([] if split else ['-S'])
    res = ctx.run('lt-comp', flags + [dirn, ctx.path('d.att'), ctx.path('d.bin')], allow_fail=True)
    if res.rc:
        if split and res.rc == 1 and (undecided_final(whole) or eps_loop(whole)):
            ctx.count('refused_as_documented')
            return
        raise Violation('lt-comp exits %d' % res.rc, stderr=res.err.decode('utf-8', 'replace'), flags=flags, att=txt)
    def load(name):
        try:
            return fst.read_bin(ctx.path(name))
        except fst.BinErr as e:
            raise Violation('the compiled file cannot be read back: %s' % e, att=txt)
    b = load('d.bin')
    got = rel(fst.combined(list(b.sections.values())), cyc)
    diff = fst.same_relation(exp, got)
    if diff:
        raise Violation('compiled ATT: ' + diff, flags=flags, dir=dirn, att=txt)
    names = {'main@standard', 'final@inconditional'} if split else {'main@standard'}
    if set(b.sections) - names:
        raise Violation('unexpected sections %r' % sorted(b.sections))
    if split:
        secs = {n: rel(b.sections[n], cyc) if n in b.sections else {} for n in names}
        fuzzy = cyc or any(len(a[1 if dirn == 'rl' else 0]) != 1 or a[1 if dirn == 'rl' else 0].isspace()
                           for f in fs for a in f.arcs[0])
        for key in exp:
            if not key[0] or fuzzy:
                continue      # the first arc does not decide the section, or loops back to the start may share it
            n = 'final@inconditional' if key[0][0] in PUNCT else 'main@standard'
            if key not in secs[n]:
                raise Violation('%s:%s is not in section %s' % (''.join(key[0]), ''.join(key[1]), n), att=txt, flags=flags)
            ctx.count('pairs_' + n.split('@')[0])
    used = {s for f in fs for l in f.arcs.values() for a in l for s in a[:2] if len(s) == 1}
    want = {c for s in used if s not in PUNCT and not s.isspace() for c in (s, s.upper(), s.lower()) if len(c) == 1}
    if set(b.letters) != want:
        raise Violation('alphabetic characters %r, expected %r' % (sorted(b.letters), sorted(want)), att=txt)
    # printing and compiling again
    ph = hfst or r.random() < .3
    if '\t' in letters:
        ph = True
    pr = ctx.run('lt-print', (['-H'] if ph else []) + [ctx.path('d.bin')]).text
    back = fst.parse_att(pr, eps=('@0@',) if ph else ('ε',))
    full = {n: f for n, f in b.sections.items() if f.finals}
    if not full:
        if pr.strip():
            raise Violation('nothing to print, but %r printed' % pr[:100])
        ctx.count('empty')
        return
    if len(back) != len(full):
        raise Violation('%d transducers printed for %d sections' % (len(back), len(b.sections)), printed=pr)
    for (n, f), g in zip(sorted(full.items()), back):
        for s, l in g.arcs.items():
            g.arcs[s] = [tuple({'@_SPACE_@': ' ', '@_TAB_@': '\t'}.get(x, x) for x in a[:2]) + a[2:] for a in l]
        if not (hfst and not ph and 'ε' in letters):
            d2 = fst.same_relation(rel(f, cyc), rel(g, cyc))
            if d2:
                raise Violation('lt-print of section %s: %s' % (n, d2), printed=pr, att=txt)
    ctx.write('e.att', pr)
    sp = split and not undecided_final(fst.combined(back))
    res = ctx.run('lt-comp', (['-H'] if ph else []) + ([] if sp else ['-S']) + ['lr', ctx.path('e.att'), ctx.path('e.bin')],
                  allow_fail=True)
    if res.rc and not (sp and eps_loop(fst.combined(back))):
        raise Violation('lt-comp exits %d on what lt-print wrote' % res.rc, stderr=res.err.decode('utf-8', 'replace'),
                        printed=pr)
    if not res.rc and not (hfst and not ph and 'ε' in letters):
        again = rel(fst.combined(list(load('e.bin').sections.values())), cyc)
        diff = fst.same_relation(exp, again)
        if diff:
            raise Violation('printed and compiled again: ' + diff, printed=pr, att=txt)
        ctx.count('round_trips')
    if cyc:
        ctx.count('cyclic')
    if exp:
        ctx.sig(sorted(exp.items()), flags, dirn)
        if ctx.sample is None:
            ctx.sample = {'case': ctx.idx, 'flags': flags, 'dir': dirn, 'pairs': len(exp), 'att': txt[:160]}
