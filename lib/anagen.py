"""Dictionaries for the analysis-like checks: finite, never rejected by lt-comp."""
import dix
from fw import Skip


def good_dix(r, types=None, letters=None, weights=None, tags=None, filters=False, specials=None, tries=6,
             multiword=True, dir='lr', maxpar=None, side_tags=True):
    """A random dictionary and its relations in the given direction, with input sides made of
    letters and blanks only (when dir is lr)."""
    for _ in range(tries):
        letters2 = letters or r.sample(
            list('abcdeABCáÁñÑßжЖ') + ['中', '\U00010428', '\U0001F600', '-', '\'', '.', '1'], r.randint(3, 7))
        if not letters and r.random() < .3:
            letters2 += r.sample(list('/^$[]{}\\@<>*#+~&"=%:'), r.choice([1, 1, 2]))
        g = AGen(r, letters=letters2, tags=tags, weights=weights, regex=False, filters=filters,
                 specials=specials, cyclic=False, maxpar=maxpar)
        g.multiword = multiword
        g.tilde = dir == 'rl' and r.random() < .4
        d = g.dix()
        if types:
            d.sections = [(i, r.choice(types), es) for i, t, es in d.sections]
        sel = dix.Sel(dir)
        try:
            rels = dix.denote(d, sel)
        except dix.TooBig:
            continue
        if any('' in v or ' ' in v for v in dix.firsts(d, sel).values()):
            continue
        n = sum(map(len, rels.values()))
        if not 0 < n <= 3000:
            continue
        return d, rels, letters2
    raise Skip()


class AGen(dix.Gen):
    """Left sides: letters and inner blanks, no tags; right sides as usual."""
    multiword = True
    tilde = False

    def lside(self, lo, hi):
        r = self.r
        s = self.word(lo, hi)
        if self.multiword and len(s) > 1 and r.random() < .25:
            s.insert(r.randint(1, len(s) - 1), ('b',))
        if self.tilde and s and r.random() < .15:
            s.insert(0, ('a',))
        return s

    def elem(self, pars, first, paradigm):
        r = self.r
        k = r.random()
        if pars and k < .35:
            return ('par', r.choice(pars))
        lo = 1 if first and not paradigm else 0
        if k < .6:
            return ('i', self.lside(1, 3))
        return ('p', self.lside(lo, 3), self.side(lo, 3))
