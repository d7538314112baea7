"""C12: lt-trim keeps exactly the analyses that the bilingual dictionary can translate."""
from fw import Violation, Skip
import dix, fst

SPEC = dict(
    id='C12', level='exploration',
    technique='reference-model monitor over sanitized lt-trim runs: the trimmed binary, read by an independent reader, '
              'compared pair by pair with the analyses of the untrimmed one that the bilingual binary covers',
    rule='one evaluation = one (analyser, bilingual dictionary, option) triple; non-trivial when some analyses are kept '
         'and some dropped; distinct by the two relations',
    quick=2500, thorough=40000, min_distinct=300)

TAGS = ['<n>', '<v>', '<sg>', '<pl>', '<x>']
CMP = ['<compound-only-L>', '<compound-R>']


def istag(s):
    return len(s) > 1


def lemma(r, L, lo=1):
    s = [r.choice(L) for _ in range(r.randint(lo, 3))]
    if len(s) > 1 and r.random() < .12:
        s.insert(1, ('b',))
    return s


class Gen:
    def __init__(self, r):
        self.r = r
        self.L = r.sample(['a', 'b', 'c', 'é', '\U00010428', '中'], r.randint(2, 3))
        self.lemmas = [lemma(r, self.L) for _ in range(r.randint(2, 6))]
        self.lemqs = [[('b',)] + lemma(r, self.L) for _ in range(2)]
        self.T = r.sample(TAGS, r.randint(2, 4))
        self.joins = r.random() < .6
        self.groups = r.random() < .6
        self.weights = r.random() < .4
        self.cmp = r.random() < .3
        self.joinlem = r.random() < .2
        self.gloss = r.random() < .3

    def tags(self, lo, hi):
        return [self.r.choice(self.T) for _ in range(self.r.randint(lo, hi))]

    def lem(self):
        r = self.r
        x = list(r.choice(self.lemmas) if r.random() < .85 else lemma(r, self.L))
        if self.joinlem and r.random() < .15:
            x += [('j',)] + list(r.choice(self.lemmas))
        return x

    def w(self):
        return {'w': str(self.r.choice([0.5, 1, 2, 3.25, 7, 5000]))} if self.weights and self.r.random() < .5 else {}

    def mono(self):
        r = self.r
        es = []
        for _ in range(r.randint(2, 14)):
            parts = 1
            if self.joins:
                parts = r.choice([1, 1, 1, 2, 2, 3])
            out = []
            for k in range(parts):
                if k:
                    out.append(('j',))
                out += self.lem() + self.tags(0 if r.random() < .1 else 1, 3)
            if self.cmp and r.random() < .4:
                k = len(out)
                while k and isinstance(out[k - 1], str) and istag(out[k - 1]) and r.random() < .6:
                    k -= 1
                out.insert(k, r.choice(CMP))
            if self.groups and r.random() < .35:
                out.append(('g', list(r.choice(self.lemqs))))
            sf = lemma(r, self.L)
            if r.random() < .2:      # analysis and surface form built apart, to shift the epsilons
                es.append(dix.Entry([('p', sf, []), ('p', [], out)], **self.w()))
            else:
                es.append(dix.Entry([('p', sf, out)], **self.w()))
        return es

    def bi(self):
        r = self.r
        es = []
        for _ in range(r.randint(2, 14)):
            l = self.lem()
            if self.groups and r.random() < .4:
                l.append(('g', list(r.choice(self.lemqs))))
                l += self.tags(1, 2)
            else:
                l += self.tags(0 if r.random() < .15 else 1, 2)
            rr = lemma(r, self.L) + (lemma(r, self.L) + lemma(r, self.L) if r.random() < .4 else []) + self.tags(0, 2)
            if r.random() < .3:
                k = r.randint(1, len(l) - 1) if len(l) > 1 else 1
                es.append(dix.Entry([('p', l[:k], []), ('p', l[k:], rr)], **self.w()))
            elif r.random() < .2:
                es.append(dix.Entry([('p', l, rr[:1]), ('p', [], rr[1:])], **self.w()))
            else:
                es.append(dix.Entry([('p', l, rr)], **self.w()))
        return es


def moved(s):
    """Bilingual input with the invariable part moved behind the tags: (head, tail)."""
    if '#' not in s:
        return s, None
    k = s.index('#')
    rest = s[k + 1:]
    t = next((i for i, x in enumerate(rest) if istag(x)), len(rest))
    return s[:k] + rest[t:], ('#',) + rest[:t]


class Trimmer:
    def __init__(self, inputs):
        self.m = [moved(s) for s in inputs]

    def accepts(self, part):
        """part (with any # at its end) is covered: some entry followed by tags"""
        h, t = (part, None) if '#' not in part else (part[:part.index('#')], part[part.index('#'):])
        for a, b in self.m:
            if b == t and h[:len(a)] == a and all(istag(x) for x in h[len(a):]):
                return True
        return False

    def live(self, part):
        if self.accepts(part):
            return True
        for a, b in self.m:
            if a[:len(part)] == part:
                return True
            if b is not None and part[:len(a)] == a and all(istag(x) for x in part[len(a):]):
                return True
        return False

    def judge(self, out):
        """-> (may be kept, must be kept)"""
        out = tuple(x for x in out if x not in CMP)
        q = ()
        if '#' in out:
            k = out.index('#')
            out, q = out[:k], out[k:]
        cuts = [i for i, x in enumerate(out) if x == '+']
        may = must = False
        for m in range(1 << len(cuts)):
            parts, last = [], 0
            for b, i in enumerate(cuts):
                if m >> b & 1:
                    parts.append(out[last:i])
                    last = i + 1
            parts.append(out[last:])
            parts[0] = parts[0] + q
            if all(map(self.accepts, parts)):
                return True, True
            if q and len(parts) > 1:
                may = may or self.accepts(parts[0]) and all(map(self.live, parts[1:]))
            else:
                may = may or self.accepts(parts[-1]) and all(map(self.live, parts[:-1]))
        return may, must


def reweigh(r, f):
    """several final states, with weights of their own"""
    n = max(f.states()) + 1
    fin = sorted(f.finals)
    for s, l in sorted(f.arcs.items()):
        for k, (i, o, t, w) in enumerate(l):
            if t in fin and not f.arcs.get(t) and r.random() < .4:
                l[k] = (i, o, n, w)
                f.finals[n] = r.choice([0, .25, 1, 30, 4000])
                n += 1
    for s in fin:
        f.finals[s] = r.choice([0, 0, .5, 2, 1500])


def case(ctx):
    r = ctx.rng
    g = Gen(r)

    def compile_(name, n, mk):
        d = dix.Dix()
        d.alphabet = ''.join(g.L)
        d.sdefs = g.T + CMP
        d.sections = [('s%d' % k, r.choice(['standard', 'standard', 'inconditional']), mk()) for k in range(n)]
        p = ctx.write(name + '.dix', dix.dix_xml(d))
        ctx.run('lt-comp', ['lr', p, ctx.path(name + '.bin')])
        b = fst.read_bin(ctx.path(name + '.bin'))
        if name == 'mono' and r.random() < .2:      # weights of final states, as from an ATT file
            for f in b.sections.values():
                reweigh(r, f)
            ctx.write(name + '.bin', fst.bin_bytes(b.letters, b.sections, b.tags, r))
            ctx.count('final_weights')
        return b
    nsec = r.choice([1, 1, 2])
    mono = compile_('mono', nsec, g.mono)
    bi = compile_('bi', r.choice([1, 1, 2, 3]), g.bi)
    mrel = {k: fst.relation(f.paths()) for k, f in mono.sections.items()}
    brel = {k: {i for i, o in fst.relation(f.paths())} for k, f in bi.sections.items()}
    match = [k for k in sorted(set(mrel) | set(brel)) if r.random() < .4] if r.random() < .3 else []
    args = [x for k in match for x in ('-s', k)]
    res = ctx.run('lt-trim', args + [ctx.path('mono.bin'), ctx.path('bi.bin'), ctx.path('out.bin')], allow_fail=True)
    rest = set()
    for k in brel:
        if k not in match:
            rest |= brel[k]
    must, may = {}, {}
    for k, rel in mrel.items():
        t = Trimmer(brel[k] if k in match and k in brel else rest)
        for (i, o), w in rel.items():
            a, b = t.judge(o)
            if a:
                may.setdefault(k, {})[(i, o)] = w
            if b:
                must.setdefault(k, {})[(i, o)] = w
    if res.rc:
        if must:
            raise Violation('lt-trim fails (rc %d) although %d analyses are covered' % (
                res.rc, sum(map(len, must.values()))), stderr=res.err.decode('utf-8', 'replace'), args=args)
        if res.rc != 1 or b'empty' not in res.err:
            raise Violation('lt-trim exits %d' % res.rc, stderr=res.err.decode('utf-8', 'replace'), args=args)
        ctx.count('empty')
        return
    try:
        out = fst.read_bin(ctx.path('out.bin'))
    except fst.BinErr as e:
        raise Violation('the trimmed file cannot be read back: %s' % e)
    kept = dropped = 0
    for k in set(out.sections) - set(mrel):
        raise Violation('section %s is not in the analyser' % k, args=args)
    for k, rel in mrel.items():
        try:
            got = fst.relation(out.sections[k].paths(100000)) if k in out.sections else {}
        except OverflowError:
            raise Violation('section %s: too many or endless paths after trimming' % k, args=args)
        for key in got:
            if key not in rel:
                raise Violation('section %s: %s:%s is not in the analyser' % (k, ''.join(key[0]), ''.join(key[1])), args=args)
            if key not in may.get(k, {}):
                raise Violation('section %s: %s:%s is kept but not covered' % (k, ''.join(key[0]), ''.join(key[1])), args=args)
            if not fst.wclose(got[key], rel[key]):
                raise Violation('section %s: %s:%s has weight %r, had %r' % (
                    k, ''.join(key[0]), ''.join(key[1]), got[key], rel[key]), args=args)
        for key in must.get(k, {}):
            if key not in got:
                raise Violation('section %s: %s:%s is covered but was dropped' % (k, ''.join(key[0]), ''.join(key[1])),
                                args=args)
            if '#' in key[1]:
                ctx.count('kept_with_group')
            if '+' in key[1]:
                ctx.count('kept_with_join')
        kept += len(got)
        dropped += len(rel) - len(got)
        ctx.count('between_may_and_must', len(may.get(k, {})) - len(must.get(k, {})))
    if set(out.letters) != set(mono.letters):
        raise Violation('the alphabetic characters changed: %r, were %r' % (out.letters, mono.letters))
    ctx.count('kept', kept)
    ctx.count('dropped', dropped)
    if match:
        ctx.count('with_match_section')
    if kept and dropped:
        ctx.sig(sorted(map(repr, mrel.items())), sorted(map(repr, brel.items())), args)
        if ctx.sample is None:
            ctx.sample = {'case': ctx.idx, 'args': args, 'kept': kept, 'dropped': dropped}
