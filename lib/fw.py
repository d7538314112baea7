"""Check framework: case scheduling, monitored tool runs, evidence, verdicts."""
import struct
import hashlib, json, os, random, resource, shutil, signal, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
import build as B

VERIF = B.VERIF
SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:'
                    'detect_stack_use_after_return=0:handle_segv=1',
    'UBSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1:print_stacktrace=1',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:report_signal_unsafe=0',
    'LC_ALL': 'C.UTF-8', 'LANG': 'C.UTF-8', 'HOME': '/nonexistent',
    'PATH': '/usr/local/bin:/usr/bin:/bin',
}
TIMEOUT = float(os.environ.get('VERIF_RUN_TIMEOUT', '20'))


MEMORY = 3 << 30


def limit_memory(on):
    """of the monitors: what a broken program wrote must not take all of the machine's"""
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY if on else hard, hard))


class Violation(Exception):
    def __init__(self, what, **info):
        super().__init__(what)
        self.what = what
        self.info = info


class Inconclusive(Exception):
    pass


class Skip(Exception):
    """The generated case does not exercise the property (counted, not evaluated)."""


class Res:
    __slots__ = ('rc', 'out', 'err', 'cmd')

    def __init__(self, rc, out, err, cmd):
        self.rc, self.out, self.err, self.cmd = rc, out, err, cmd

    @property
    def text(self):
        try:
            return self.out.decode('utf-8')
        except UnicodeDecodeError:
            raise Violation('output is not valid UTF-8', cmd=self.cmd, output=repr(self.out[:300]))


SAN_MARKS = (b'ERROR: AddressSanitizer', b'runtime error:', b'WARNING: ThreadSanitizer',
             b'Assertion \'', b'AddressSanitizer:DEADLYSIGNAL', b'Conditional jump or move depends',
             b'Use of uninitialised value', b'Invalid read of size', b'Invalid write of size',
             b'uninitialised byte(s)', b'terminate called', b'terminating due to')


def limit_fsize(n):
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))


def san_summary(err):
    t = err.decode('utf-8', 'replace')
    for l in t.split('\n'):
        if 'runtime error:' in l or 'ERROR: AddressSanitizer' in l or 'ThreadSanitizer:' in l \
                or 'Assertion' in l or 'terminate' in l:
            frames = [x.strip() for x in t.split('\n')
                      if '/lttoolbox/' in x and x.strip().startswith('#')][:2]
            fr = ' | '.join(f.split(' in ', 1)[-1] for f in frames)
            return (l.strip()[:160] + ' ' + fr[:300]).strip()
    return t[-300:]


class Ctx:
    """One case: a scratch directory, a PRNG, and monitored runs of the real tools."""

    def __init__(self, bindir, rng, tier, variants):
        self.bin = bindir
        self.rng = rng
        self.tier = tier
        self.variants = variants
        self.dir = tempfile.mkdtemp(prefix='ltv-', dir=SCRATCH)
        self.stats = {}
        self.sigs = []
        self.runs = 0
        self.valgrind = False
        self.sample = None
        self.log = []

    def path(self, n):
        return os.path.join(self.dir, n)

    def write(self, n, data):
        p = self.path(n)
        with open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode('utf-8'))
        return p

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def sig(self, *parts):
        """Marks one distinct, non-trivial evaluation of the property."""
        self.count('evaluations')
        self.sigs.append(hashlib.sha1(repr(parts).encode()).hexdigest()[:16])

    def run(self, tool, args, stdin=b'', ok=(0,), variant=None, env=None, allow_fail=False,
            timeout=None, reject=(), stdin_file=None, stdout_file=None, fsize=None):
        """Runs a tool under the sanitizers; any sanitizer report, signal or abort is a
        violation, and so is an exit status not in ok (unless allow_fail).
        stdin_file, stdout_file: files to use for standard input and output; fsize: no file can
        grow beyond this size (writing fails)."""
        b = self.bin if variant is None else self.variants[variant]
        cmd = [os.path.join(b, tool)] + list(args)
        if self.valgrind:
            cmd = ['valgrind', '-q', '--error-exitcode=99', os.path.join(self.variants['plain'], tool)] + list(args)
            timeout = 10 * (timeout or TIMEOUT)
        if isinstance(stdin, str):
            stdin = stdin.encode('utf-8')
        e = dict(SAN_ENV)
        if env:
            e.update(env)
        shown = [tool] + [a.replace(self.dir + '/', '') for a in args]
        self.log.append(' '.join(shown))
        for attempt in (1, 2):
            t = (timeout or TIMEOUT) * (1 if attempt == 1 else 3)
            try:
                fin = open(stdin_file, 'rb') if stdin_file else subprocess.PIPE
                fout = open(stdout_file, 'wb') if stdout_file else subprocess.PIPE
                limit_memory(False)     # not that of the programs
                p = subprocess.Popen(cmd, stdin=fin, stdout=fout,
                                     stderr=subprocess.PIPE, env=e, cwd=self.dir,
                                     preexec_fn=None if fsize is None else lambda: limit_fsize(fsize),
                                     start_new_session=True)
                limit_memory(True)
                try:
                    out, err = p.communicate(None if stdin_file else stdin, timeout=t)
                    break
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.communicate()
            except BrokenPipeError:
                pass
            finally:
                for f in (fin, fout):
                    if f is not subprocess.PIPE:
                        f.close()
        else:
            raise Violation('does not terminate (killed twice, after %gs and %gs)' % (
                timeout or TIMEOUT, 3 * (timeout or TIMEOUT)), cmd=shown,
                stdin=repr(stdin[:2000]), hang=True)
        self.runs += 1
        out = out or b''
        if reject and p.returncode == -signal.SIGABRT and any(
                b"terminate called after throwing an instance of '" + x in err for x in reject):
            return Res(1, out, err, shown)
        if p.returncode < 0 or any(m in err for m in SAN_MARKS):
            raise Violation('sanitizer/abort in %s (rc %d): %s' % (tool, p.returncode, san_summary(err)),
                            cmd=shown, stdin=repr(stdin[:2000]), stderr=err.decode('utf-8', 'replace')[:6000],
                            crash=True)
        r = Res(p.returncode, out, err, shown)
        if not allow_fail and p.returncode not in ok:
            raise Violation('%s exits %d' % (tool, p.returncode), cmd=shown, stdin=repr(stdin[:2000]),
                            stderr=err.decode('utf-8', 'replace')[:2000])
        return r

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


SCRATCH = None
_CHK = None
_BIN = None
_VAR = None
_TIER = None


def _init(scratch, modname, bindir, variants, tier):
    global SCRATCH, _CHK, _BIN, _VAR, _TIER
    SCRATCH = scratch
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    _CHK = __import__(modname)
    _BIN, _VAR, _TIER = bindir, variants, tier
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _one(job):
    prop, seed, idx, replay_root = job
    limit_memory(True)
    rng = random.Random('%s/%s/%s' % (prop, seed, idx))
    c = Ctx(_BIN, rng, _TIER, _VAR)
    c.idx = idx
    r = {'idx': idx}
    try:
        try:
            _CHK.case(c)
        except MemoryError:
            raise Violation('the result needs more memory than %d MB to be examined' % (MEMORY >> 20))
        except (ValueError, IndexError, KeyError, OverflowError, struct.error) as e:
            # what a tool wrote does not have the form that the monitor reads
            raise Violation('the result cannot be interpreted: %s: %s' % (type(e).__name__, e),
                            trace=traceback.format_exc())
    except Skip:
        c.count('skipped')
    except Inconclusive as e:
        c.count('inconclusive')
        r['inconclusive'] = str(e)
    except Violation as v:
        known = None
        if hasattr(_CHK, 'known'):
            known = _CHK.known(c, v)
        if known:
            r['known'] = known
        else:
            d = os.path.join(replay_root, 'case-%s-%s' % (seed, idx))
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(c.dir, d, symlinks=True, ignore=lambda x, ns: [
                n for n in ns if not os.path.islink(os.path.join(x, n)) and not os.path.isfile(os.path.join(x, n))
                and not os.path.isdir(os.path.join(x, n))])
            with open(os.path.join(d, 'VIOLATION.txt'), 'w') as f:
                f.write('property: %s\nseed: %s case: %s\n%s\n' % (prop, seed, idx, v.what))
                for k, x in v.info.items():
                    f.write('--- %s\n%s\n' % (k, x))
                f.write('--- commands (cwd: this directory)\n%s\n' % '\n'.join(c.log))
                f.write('--- replay\npython3 %s/check.py %s --seed %s --case %s\n' % (VERIF, prop, seed, idx))
            r['violation'] = (v.what, d)
    except Exception:
        r['error'] = traceback.format_exc()
    finally:
        r['stats'] = c.stats
        r['sigs'] = c.sigs
        r['runs'] = c.runs
        r['sample'] = c.sample
        c.close()
    return r


def load_known():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'):
                out.append(json.loads(l))
    return out


def main(prop, mod, tier, seed, only=None, ncases=None):
    global SCRATCH
    t0 = time.time()
    spec = mod.SPEC
    assert spec['id'] == prop
    n = ncases or spec[tier]
    variants = {}
    try:
        bindir = B.build(spec.get('variant', 'asan'), spec.get('harness', ()))
        for v in spec.get('variants', ()):
            variants[v] = B.binding() if v == 'binding' else B.build(v, spec.get('harness', ()))
    except B.BuildError as e:
        print('build error (no verdict):\n%s' % e, file=sys.stderr)
        return 2
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix='ltverif-')
    replay_root = os.path.join(B.BUILD, 'replay', prop)
    os.makedirs(replay_root, exist_ok=True)
    SCRATCH = scratch
    stats, sigs, samples, viols, errors, known, inconc = {}, set(), [], [], [], {}, []
    runs = 0
    done = 0
    try:
        jobs = [(prop, seed, i, replay_root) for i in ([only] if only is not None else range(n))]
        nproc = 1 if only is not None else (os.cpu_count() or 4)
        cutoff = t0 + spec.get('max_s', {}).get(tier, 780 if tier == 'quick' else 3600 * 3)
        with ProcessPoolExecutor(nproc, initializer=_init, mp_context=mp.get_context('fork'),
                                 initargs=(scratch, mod.__name__, bindir, variants, tier)) as ex:
            step = max(nproc * 8, 64)
            for k in range(0, len(jobs), step):
                for r in ex.map(_one, jobs[k:k + step], chunksize=2):
                    done += 1
                    for a, b in r['stats'].items():
                        stats[a] = stats.get(a, 0) + b
                    sigs.update(r['sigs'])
                    runs += r['runs']
                    if r.get('sample') and len(samples) < 12:
                        samples.append(r['sample'])
                    if 'violation' in r:
                        viols.append((r['idx'],) + r['violation'])
                    if 'known' in r:
                        known[r['known']] = known.get(r['known'], 0) + 1
                    if 'error' in r:
                        errors.append((r['idx'], r['error']))
                    if 'inconclusive' in r:
                        inconc.append((r['idx'], r['inconclusive']))
                if len(viols) >= 3 or len(errors) >= 3:
                    break
                if time.time() > cutoff:
                    stats['stopped_by_time_after_cases'] = done
                    break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ev = stats.get('evaluations', 0)
    held = [k for k in load_known() if k['property'] == prop]
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': spec['level'],
        'technique': spec['technique'],
        'coverage': {
            'evaluations': ev,
            'distinct_nontrivial': len(sigs),
            'rule': spec['rule'],
            'samples': samples[:12] or ['(none)'],
            'cases': done,
            'monitored_process_runs': runs,
            'events': {k: v for k, v in sorted(stats.items()) if k != 'evaluations'},
        },
        'violations': len(viols), 'known_findings_hit': known, 'inconclusive': len(inconc),
        'build_s': round(tb, 1), 'wall_s': round(time.time() - t0, 2),
    }
    if only is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)
            f.write('\n')
        os.replace(p + '.tmp', p)
    print('%s %s seed=%s: %d cases, %d evaluations, %d distinct, %d monitored runs, %.1fs' % (
        prop, tier, seed, done, ev, len(sigs), runs, time.time() - t0))
    print('  events: ' + ', '.join('%s=%s' % kv for kv in sorted(stats.items())))
    for k in held:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for i, why in inconc[:5]:
        print('  inconclusive case %s: %s' % (i, why))
    if viols:
        for idx, what, d in viols:
            print('  case %s: %s' % (idx, what))
            print('VIOLATION property=%s replay=%s' % (prop, d))
        return 1
    if errors:
        for i, e in errors[:3]:
            print('harness error in case %s:\n%s' % (i, e), file=sys.stderr)
        return 2
    if only is None and len(sigs) < spec.get('min_distinct', 1):
        print('error: the monitors observed too little (%d distinct evaluations)' % len(sigs), file=sys.stderr)
        return 2
    return 0
