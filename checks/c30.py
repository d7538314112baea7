"""C30: a copied or assigned library object answers like the original and is independent of it; reading replaces what was there."""
from fw import Violation

SPEC = dict(
    id='C30', level='exploration', harness=('values',),
    technique='trace monitor: random histories of creating, copying, assigning, changing, reading and destroying library objects '
              'run sanitized; every observation must equal that of an object that got the same operations and was never copied',
    rule='one evaluation = one history over objects of one kind; non-trivial when an object that was copied or assigned is '
         'observed; distinct by the history',
    quick=3000, thorough=50000, min_distinct=2000)

ANEW = {'read', 'deser', 'make', 'init', 'compile', 'clear', 'par', 'single', 're'}
TAGS = ['<n>', '<v>', '<é>', '<x.y>', '<中>', '<longer-tag-name>', '<\U00010400>']
SYM = [0, 97, 98, 99, 65, 66, 100, 101, -1, -2, -3]
W = ['0', '0', '1', '0.5', '-1.25', '3.0625']


def arcs(r):
    n = r.randint(1, 6)
    out = []
    for _ in range(r.randint(1, 12)):
        out.append('%d,%d,%d,%d,%s' % (r.randint(0, n), r.randint(0, n), r.choice([97, 98, 99, 97, 98]), r.choice(SYM[1:]), r.choice(W)))
    if r.random() < .3:          # empty arcs only forwards, so that the lookups end
        a = r.randint(0, n - 1)
        out.append('%d,%d,0,%d,%s' % (a, r.randint(a + 1, n), r.choice(SYM), r.choice(W)))
    out += ['%d,%s' % (k, r.choice(W)) for k in r.sample(range(n + 1), r.randint(1, min(3, n + 1)))]
    return ' '.join(out)


def pats(r):
    return ' '.join('%d %s %s' % (r.randint(1, 9), r.choice(['a', 'ab', 'a*', '*b', '*', '-', 'abc', 'c']),
                                  r.choice(['*', 'n.*', '*.n', 'n', '*'])) for _ in range(r.randint(1, 5)))


def regexp(r):
    return r.choice(['ab', 'a|b', '(ab)+', 'a*b', '[abc]', '[a-c]+', 'a?b?c', '(a|bc)*d', 'abcde', '((a|b)c)?'])


def op(kind, r):
    c = r.choice
    if kind == 'alphabet':
        return c(['sym ' + c(TAGS), 'sym ' + c(TAGS), 'pair %d %d' % (c(SYM[:8]), c(SYM[:8])), 'pair %d %d' % (c(SYM[:8]), c(SYM[:8])),
                  'pair 97 97', 'num ' + c(TAGS), 'set %d %s' % (r.randint(0, 5), c(['<changed>', '<other>'])),
                  c(['read', 'deser']) + ' ' + ' '.join(r.sample(TAGS, r.randint(1, 4)))])
    if kind == 'transducer':
        return c(['new %d %d %s' % (r.randint(0, 40), r.randint(0, 30), c(W))] * 4
                 + ['ins %d %d %s' % (r.randint(0, 40), r.randint(0, 30), c(W))] * 3
                 + ['link %d %d %d %s' % (r.randint(0, 30), r.randint(0, 30), r.randint(0, 40), c(W))] * 3
                 + ['fin %d %s' % (r.randint(0, 30), c(W))] * 4 + ['unfin %d' % r.randint(0, 30)]
                 + ['min', 'det', 'rev', 'opt', 'one', 'zero', 'join', 'inv', 'clear', 'read ' + arcs(r), 'deser ' + arcs(r)])
    if kind == 'transexe':
        return c(['read ' + arcs(r), 'unify'])
    if kind == 'state':
        a = c([97, 98, 99, 65, 66])
        return c(['init', 'step %d' % a, 'step %d' % a, 'step 97', 'step 98', 'step2 %d %d' % (a, c([97, 98])), 'step3 %d 97 98' % a,
                  'steps %d 97 98' % a, 'case %d %d' % (a, r.randint(0, 1)), 'careful %d %d' % (c([65, 66]), c([97, 98])),
                  'over %d %d %d' % (a, c([97, 98]), c([100, 101])), 'optional %d' % a, 'forbid %d' % c([-1, -2, -3]),
                  'has %d' % c([-1, -2, 97]), 'restart %d' % c([-1, -2]), 'prune %d %d' % (c([-1, -2]), 2),
                  'merge %d' % a])
    if kind == 'patterns':
        return c(['add ' + pats(r), 'add ' + pats(r), 'seq', 'list', 'build', 'read ' + pats(r), 'deser ' + pats(r)])
    if kind == 'matchexe':
        return 'make ' + pats(r)
    if kind == 'matchstate':
        return c(['init', 'step %d' % c([97, 98, 99]), 'any %d' % c([97, 98, 99, 95]), 'any 97', 'any 98', 'tag', 'tag', 'clear'])
    if kind == 'regexp':
        return c(['compile ' + regexp(r), 'one'])
    if kind == 'token':
        return c(['par ' + c(['p__n', 'é', 'x']), 'single %s %s %s' % (c(['a', 'abc']), c(['b', 'cba']), c(W)), 're ' + regexp(r)])
    return c(['add %d %d' % (r.choice([1, 3, 20, 3000 if r.random() < .1 else 5]), r.randint(0, 999)), 'next', 'next', 'next',
              'back %d' % r.randint(1, 3)])


KINDS = ['alphabet', 'transducer', 'transducer', 'transexe', 'transexe', 'state', 'state', 'patterns', 'matchexe', 'matchstate',
         'regexp', 'token', 'buffer']


def case(ctx):
    r = ctx.rng
    kind = r.choice(KINDS)
    log, script, asked, copied = {}, [], [], set()
    held = {}           # how many elements of a buffer are ahead and behind

    def put(i, o):
        script.append('o %d %s' % (i, o))
        if o.split()[0] in ANEW:
            log[i] = []
            if o == 'clear':
                return
        log[i].append(o)

    def fresh(i):
        script.append('n %d' % i)
        log[i], held[i] = [], [0, 0]
        if kind in ('state', 'matchstate'):
            put(i, 'init')
        elif kind == 'regexp':
            put(i, 'compile ' + regexp(r))
        elif kind == 'token':
            put(i, op(kind, r))
        elif kind == 'patterns':
            put(i, 'add 1 a n')

    def ask(i):
        script.append('q %d' % i)
        asked.append((list(log[i]), i in copied))
    nvars = r.randint(2, 4)
    for _ in range(r.randint(6, 40 if r.random() < .8 else 120)):
        i, j = r.randrange(nvars), r.randrange(nvars)
        what = r.choice(['o'] * 5 + ['q'] * 2 + ['k', 'a', 'a', 'd'])
        if i not in log:
            if log and r.random() < .6:
                what, j = 'k', r.choice(sorted(log))
            else:
                fresh(i)
                copied.discard(i)
                continue
        if what in 'ka' and j not in log:
            continue
        if what == 'o':
            o = op(kind, r)
            if kind == 'buffer':
                n, (ahead, behind) = o.split(), held[i]
                if n[0] == 'add':
                    held[i] = [0, min(1500, behind + ahead + int(n[1]))]
                elif n[0] == 'back':
                    if behind < int(n[1]):
                        continue
                    held[i] = [ahead + int(n[1]), behind - int(n[1])]
                elif ahead:
                    held[i] = [ahead - 1, behind + 1]
            if kind == 'patterns' and log[i] and log[i][0].split()[0] in ANEW and o.split()[0] not in ANEW:
                continue          # the patterns themselves are not in a file
            if o == 'seq':
                put(i, 'begin')
                for _ in range(r.randint(1, 3)):
                    put(i, 'add %d %s %s' % (r.choice([1, 2, 2]), r.choice(['a', 'b*', 'ab']), r.choice(['n', 'v.*'])))
                    if r.random() < .2:
                        break
                put(i, 'end')
                continue
            if kind == 'transducer' and o in ('min', 'det', 'rev', 'one', 'zero', 'opt', 'join') and (
                    sum(x in ('min', 'det', 'rev', 'one', 'zero') for x in log[i]) > 3 or not any(x.startswith(('fin', 'read', 'deser')) for x in log[i])):
                continue
            if kind == 'state' and o.startswith('restart') and sum(x.startswith('restart') for x in log[i]) > 1:
                continue
            put(i, o)
        elif what == 'q':
            ask(i)
        elif what == 'd':
            script.append('d %d' % i)
            log.pop(i)
            copied.discard(i)
        else:
            if what == 'k' and i == j:
                continue
            if what == 'a' and kind == 'state' and i != j and r.random() < .4:
                what = 'c'
            script.append('%s %d %d' % (what, i, j))
            log[i], held[i] = list(log[j]), list(held[j])
            copied |= {i, j}
    for i in sorted(log):
        ask(i)
    if not asked:
        return
    text = '\n'.join(script) + '\n'
    ctx.write('history', kind + '\n' + text)
    got = ctx.run('values', [kind], text).text.split('\n')
    # the same operations on objects that are never copied
    alone = []
    for k, (l, c) in enumerate(asked):
        alone += ['n 0'] + ['o 0 ' + o for o in l] + ['q 0']
    exp = ctx.run('values', [kind], '\n'.join(alone) + '\n').text.split('\n')
    if len(got) != len(asked) + 1 or len(exp) != len(got):
        raise Violation('%s: %d answers to %d questions' % (kind, len(got) - 1, len(asked)), history=text)
    n = 0
    for k, (l, c) in enumerate(asked):
        ctx.count('observations')
        n += c
        if got[k] != exp[k]:
            raise Violation('%s: observation %d differs from that of an object with the same operations that was never copied' % (kind, k + 1),
                            history=text, operations=l, got=got[k][:600], expected=exp[k][:600])
    ctx.count(kind)
    if n:
        ctx.count('observations_of_copies', n)
        ctx.sig(kind, script)
        if ctx.sample is None:
            ctx.sample = {'case': ctx.idx, 'kind': kind, 'steps': len(script), 'observations': len(asked), 'of_copies': n}
