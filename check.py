#!/usr/bin/env python3
"""Runs one property's check: builds from the repository's working tree, runs
a seeded batch of simulations, confirms and minimises any violation, and writes
the evidence file.

  check.py PROPERTY            run the check (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE       run one recorded plan again
"""
import ctypes, fcntl, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
EVID = os.path.join(HERE, 'evidence')
SIM = os.path.join(HERE, 'sim')
KNOWN = os.path.join(HERE, 'known-findings.txt')
WORKERS = min(8, os.cpu_count() or 1)

sys.path.insert(0, SIM)
from config import CHECKS, COMPONENTS  # noqa: E402


class CheckError(Exception):
    pass


def sha_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()


def tree(base, exts):
    out = []
    for d, dirs, files in os.walk(base):
        dirs[:] = [x for x in dirs if x not in ('.git', '__pycache__', 'tests', '_build')]
        out += [os.path.join(d, f) for f in files if f.endswith(exts)]
    return out


def build():
    """Builds simulator + library (+ shared library for the Python checks) into a
    directory named after the contents of everything that goes in."""
    src = tree(os.path.join(REPO, 'src'), ('.c', '.h')) + tree(os.path.join(REPO, 'python'), ('.py',))
    mine = [os.path.join(SIM, f) for f in os.listdir(SIM) if f.endswith(('.c', '.h', '.cpp', '.sh', '.py'))]
    key = sha_files(src + mine)[:20]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'b-' + key)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, 'ok')):
            shutil.rmtree(out, ignore_errors=True)
            old = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith('b-')), key=os.path.getmtime)
            for d in old[:-4]:
                shutil.rmtree(d, ignore_errors=True)
            r = subprocess.run(['bash', os.path.join(SIM, 'build.sh'), REPO, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise CheckError('build failed:\n' + r.stdout.decode(errors='replace')[-4000:])
            open(os.path.join(out, 'ok'), 'w').close()
        else:
            os.utime(out)
    return out


def env(extra=None):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0:exitcode=98'
    e['VERIF_REPO'] = REPO
    e.pop('LD_PRELOAD', None)
    e.update(extra or {})
    return e


class Engine:
    """One of the two simulators; both understand the same commands."""

    def __init__(self, out, kind):
        self.env = {}
        # same addresses in every process (kept by children)
        ctypes.CDLL(None).personality(0x0040000)
        if kind == 'c':
            self.cmd = [os.path.join(out, 'sim')]
        else:
            py = '/opt/vp/venv/bin/python'
            self.cmd = [py if os.path.exists(py) else sys.executable, os.path.join(SIM, 'pysim.py'), out]
            self.env = {'LD_PRELOAD': open(os.path.join(out, 'asan.path')).read().strip(), 'PYTHONMALLOC': 'malloc', 'PYTHONDONTWRITEBYTECODE': '1'}

    def full(self, *more):
        e = env(self.env)
        for m in more:
            e.update(m or {})
        return e

    def batch(self, check, seed, first, count, workers, secs, tier, d, extra=None):
        r = subprocess.run(self.cmd + ['batch', check, str(seed), str(first), str(count), str(workers), str(secs), tier, d],
                           env=self.full(extra, {'VERIF_KNOWN_TAGS': ','.join(t for p, t, _, _ in known_findings() if p == check)}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise CheckError('batch failed (%d): %s' % (r.returncode, r.stdout.decode(errors='replace')[-3000:]))

    def plan(self, check, seed, index, tier):
        r = subprocess.run(self.cmd + ['plan', check, str(seed), str(index), tier], env=self.full(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise CheckError('plan failed: ' + r.stderr.decode(errors='replace')[-2000:])
        return r.stdout.decode()

    def run(self, plans, limit=60, extra=None):
        """Executes plans, each in its own process; returns parsed results."""
        with tempfile.TemporaryDirectory(dir=BUILD, prefix='r-') as d:
            names = []
            for i, p in enumerate(plans):
                n = os.path.join(d, 'p%d' % i)
                with open(n, 'w') as f:
                    f.write(p)
                names.append(n)
            with open(os.path.join(d, 'list'), 'w') as f:
                f.write('\n'.join(names) + '\n')
            r = subprocess.run(self.cmd + ['run', str(limit), os.path.join(d, 'err'), os.path.join(d, 'list')],
                               env=self.full(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode:
                raise CheckError('run failed: ' + r.stderr.decode(errors='replace')[-2000:])
            return parse_results(r.stdout.decode(errors='replace'))


def parse_results(txt):
    res, cur = [], None
    for l in txt.split('\n'):
        if l.startswith('plan '):
            cur = {'hash': None, 'viol': []}
        elif l == 'end':
            res.append(cur)
        elif l.startswith('hash '):
            cur['hash'] = l[5:]
        elif l.startswith('viol '):
            tag, _, det = l[5:].partition(' ')
            cur['viol'].append((tag, det))
    return res


def tags(r):
    return [t for t, _ in r['viol']]


# ---------------------------------------------------------------- minimising

def split_plan(p):
    head, faults, sched = [], [], []
    for l in p.split('\n'):
        if not l or l.startswith('#'):
            continue
        (faults if l.startswith('fault ') else sched if l.startswith('sched ') else head).append(l)
    return head, faults, sched


def join_plan(head, faults, sched):
    return '\n'.join(head + faults + sched) + '\n'


def in_domain(plan):
    """whether the parameters are ones the generator could have drawn"""
    q = {}
    check = ''
    for l in plan.split('\n'):
        w = l.split()
        if w and w[0] == 'check':
            check = w[1]
        elif w and w[0] == 'param':
            q[w[1]] = int(w[2])
    for x in ('', '0', '1', '2'):
        n, t = q.get('n' + x, q.get('n')), q.get('t' + x, q.get('t'))
        if n is None or t is None:
            continue
        if check[0] == 'K' or check == 'M03':
            ok = n >= 3 and 2 <= t < n
        elif check == 'T05':
            ok = n >= 1 and 1 <= t and 2 * t - 1 <= n
        else:
            ok = n >= 2 and (1 if check in ('T01', 'T02') else 2) <= t <= n and not (check == 'T04' and t + q.get('extra', 0) > n)
        if not ok:
            return False
    if check[0] == 'M' and 'servers' in q:
        return all(v <= q['servers'] for k, v in q.items() if k.startswith('need'))
    return True


def minimise(eng, plan, tag, budget):
    """Drops faults, flattens the schedule and lowers parameters while the same
    violation is still reported."""
    t_end = time.time() + budget
    tried = [0]

    def bad(cands):
        """first candidate that still fails the same way"""
        if time.time() > t_end or not cands:
            return None
        for k in range(0, len(cands), 8):
            tried[0] += len(cands[k:k + 8])
            for c, r in zip(cands[k:k + 8], eng.run(cands[k:k + 8])):
                if tag in tags(r):
                    return c
            if time.time() > t_end:
                return None
        return None

    cur = plan
    changed = True
    while changed and time.time() < t_end:
        changed = False
        h, f, s = split_plan(cur)
        # schedule: none at all, then per line none, then truncated, then single entries zeroed
        c = []
        if s:
            c.append(join_plan(h, f, []))
            c += [join_plan(h, f, s[:i] + s[i + 1:]) for i in range(len(s))]
            for i, l in enumerate(s):
                w = l.split()
                if len(w) > 3:
                    c.append(join_plan(h, f, s[:i] + [' '.join(w[:2 + (len(w) - 2) // 2])] + s[i + 1:]))
                    c.append(join_plan(h, f, s[:i] + [' '.join(w[:-1])] + s[i + 1:]))
        # faults: large chunks first
        n = len(f)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                c.append(join_plan(h, f[:i] + f[i + size:], s))
            size //= 2
        # parameters
        for i, l in enumerate(h):
            w = l.split()
            if w[0] == 'param' and w[1] not in ('libseed', 'libseed2', 'fill', 'fill2', 'seed'):
                if w[1] in ('log', 'frag', 'fraggap', 'raw', 'samelt', 'ticks', 'cmax', 'epoch'):
                    c.append(join_plan(h[:i] + h[i + 1:], f, s))
                v = int(w[2])
                if w[1] in ('n', 't', 'sessions', 'n0', 'n1', 'n2', 't0', 't1', 't2', 'ops', 'rounds', 'servers', 'len') and v > 1:
                    if v > 15:
                        c.append(join_plan(h[:i] + ['param %s %d' % (w[1], v // 2)] + h[i + 1:], f, s))
                    c.append(join_plan(h[:i] + ['param %s %d' % (w[1], v - 1)] + h[i + 1:], f, s))
                if w[1].startswith('start') and v:
                    c.append(join_plan(h[:i] + ['param %s 0' % w[1]] + h[i + 1:], f, s))
        c = [x for x in c if x != cur and (in_domain(x) or not in_domain(cur))]
        n = bad(c)
        if n:
            cur, changed = n, True
            continue
        # single schedule entries
        c = []
        for i, l in enumerate(s):
            w = l.split()
            for j in range(2, len(w)):
                if w[j] != '0':
                    c.append(join_plan(h, f, s[:i] + [' '.join(w[:j] + ['0'] + w[j + 1:])] + s[i + 1:]))
        n = bad(c[:200])
        if n:
            cur, changed = n, True
    return cur, tried[0]


# ------------------------------------------------------------ known findings

def known_findings():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l.startswith('known:'):
                continue
            m = re.match(r'known: property=(\S+) tag=(\S+) match=/(.*?)/ (.*)$', l)
            if not m:
                raise CheckError('bad line in known findings: ' + l)
            out.append(m.groups())
    return out


def find_known(prop, tag, det):
    for p, t, rx, what in known_findings():
        if p == prop and t == tag and re.search(rx, det):
            return what
    return None


# --------------------------------------------------------------------- batch

def read_batch(d):
    st = {'runs': 0, 'nontrivial': 0, 'sim_ms': 0, 'events': 0}
    fired, probe, viol = {}, {}, []
    hist, inter, inter_nt, states = {}, set(), set(), set()
    for fn in sorted(os.listdir(d)):
        p = os.path.join(d, fn)
        if fn.endswith('.stat'):
            for l in open(p):
                w = l.split()
                if w[0] in ('fired', 'probe'):
                    t = fired if w[0] == 'fired' else probe
                    t[w[1]] = t.get(w[1], 0) + int(w[2])
                else:
                    st[w[0]] += int(w[1])
        elif fn.endswith('.viol'):
            for l in open(p):
                i, tag, det = l.rstrip('\n').split(' ', 2)
                viol.append((int(i), tag, det))
        elif fn.endswith('.hashes'):
            b = open(p, 'rb').read()
            h = None
            for k, v in struct.iter_unpack('<QQ', b[:len(b) // 16 * 16]):
                if k == 1:
                    h = v
                elif k == 4:
                    hist[v] = h
                elif k in (2, 5):
                    inter.add(v)
                    if k == 2:
                        inter_nt.add(v)
                elif k == 3:
                    states.add(v)
    return st, fired, probe, sorted(viol), hist, inter, inter_nt, states


def main(prop):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    cfg = CHECKS[prop]
    t0 = time.time()
    out = build()
    t_build = time.time() - t0
    eng = Engine(out, cfg['engine'])
    count, secs = cfg[tier]
    violations, known = [], []
    mism = reruns = tried = 0
    with tempfile.TemporaryDirectory(dir=BUILD, prefix='run-') as d:
        ts = time.time()
        eng.batch(prop, seed, 0, count, WORKERS, secs, tier, d)
        t_batch = time.time() - ts
        st, fired, probe, viol, hist, inter, inter_nt, states = read_batch(d)
        if st['runs'] == 0:
            raise CheckError('no runs were made')
        # the same seeds again, other worker count, other interpreter hash seed
        d2 = os.path.join(d, 'again')
        os.mkdir(d2)
        k = min(cfg.get('rerun', 24), st['runs'])
        eng.batch(prop, seed, 0, k, 3, secs, tier, d2, {'PYTHONHASHSEED': '4242'})
        hist2 = read_batch(d2)[4]
        for i, h in hist2.items():
            if i in hist:
                reruns += 1
                mism += h != hist[i]
    # confirm, minimise and report, one per kind of violation
    done, flaky = {}, []
    for i, tag, det in viol:
        what = find_known(prop, tag, det)
        if what:
            if what not in known:
                known.append(what)
            continue
        if tag in done or len(done) >= 3:
            continue
        plan = eng.plan(prop, seed, i, tier)
        r1 = eng.run([plan])[0]
        r2 = eng.run([plan], extra={'PYTHONHASHSEED': '99'})[0]
        if tag not in tags(r1) or r1 != r2 or int(r1['hash'], 16) != hist.get(i, -1):
            flaky.append('violation %s of run %d does not reproduce: %r %r' % (tag, i, r1, r2))
            if len(flaky) > 4:
                break
            continue
        budget = 40 if not done else 15
        mp, tr = minimise(eng, plan, tag, budget)
        tried += tr
        m1, m2 = eng.run([mp])[0], eng.run([mp])[0]
        if m1 != m2 or tag not in tags(m1):
            mp, m1 = plan, r1
        mdet = [x for t, x in m1['viol'] if t == tag][0]
        if find_known(prop, tag, mdet):
            mp, m1, mdet = plan, r1, det
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        path = os.path.join(EVID, 'replay', '%s-%s-%d.plan' % (prop, re.sub(r'[^A-Za-z0-9]+', '_', tag), seed))
        with open(path, 'w') as f:
            f.write('# property %s\n# violation %s %s\n# found with VERIF_SEED=%d tier=%s run=%d\n# history %s\n# replay: python3 check.py --replay %s\n'
                    % (prop, tag, mdet, seed, tier, i, m1['hash'], os.path.relpath(path, HERE)))
            f.write(mp)
        done[tag] = path
        violations.append({'tag': tag, 'detail': mdet, 'seed': seed, 'run': i, 'replay': path,
                           'plan_lines': len(plan.split('\n')), 'minimised_lines': len(mp.split('\n'))})
    # what does not repeat exactly is never reported; it is an error of the check
    # unless another violation stood up to the repetition
    if mism:
        flaky.append('%d of %d repeated runs gave another history' % (mism, reruns))
    if flaky and not violations:
        raise CheckError(flaky[0])
    sample_ix = sorted(hist)[:2]
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'exploration'), 'wall_s': round(wall, 2),
        'coverage': {
            'evaluations': st['runs'],
            'distinct_nontrivial': len(inter_nt),
            'rule': cfg['rule'],
            'samples': [{'run': i, 'history': '%016x' % hist[i], 'plan': eng.plan(prop, seed, i, tier)[:3000]} for i in sample_ix],
            'planned_runs': count,
            'nontrivial_runs': st['nontrivial'],
            'runs_per_hour': int(st['runs'] * 3600 / max(t_batch, 1e-3)),
            'simulated_seconds': st['sim_ms'] / 1000.0,
            'participant_actions': st['events'],
            'distinct_interleavings': len(inter),
            'distinct_global_states': len(states),
            'faults_injected': fired,
            'situations_reached': probe,
            'repeated_runs_compared': reruns,
            'repeated_runs_differing': mism,
            'minimiser_executions': tried,
            'workers': WORKERS,
            'build_seconds': round(t_build, 2),
            'components': COMPONENTS[cfg['engine']],
        },
        'assumptions': cfg.get('assumptions', []),
        'violations': violations,
        'known_findings': known,
    }
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVID, prop + '.json'))
    for w in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    for v in violations:
        print('%s: %s' % (v['tag'], v['detail']))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
    if not violations:
        print('%s held: %d runs, %d distinct non-trivial interleavings, %.1f s' % (prop, st['runs'], len(inter_nt), wall))
    return 1 if violations else 0


def replay(path):
    txt = open(path).read()
    prop = re.search(r'^check (\S+)', txt, re.M).group(1)
    eng = Engine(build(), CHECKS[prop]['engine'])
    r = eng.run([txt])[0]
    want = re.search(r'^# history (\S+)', txt, re.M)
    print('history %s' % r['hash'] + (' (recorded %s)' % want.group(1) if want else ''))
    for t, d in r['viol']:
        print('%s: %s' % (t, d))
    if r['viol']:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('no violation')
    return 0


if __name__ == '__main__':
    try:
        if len(sys.argv) == 3 and sys.argv[1] == '--replay':
            sys.exit(replay(sys.argv[2]))
        if len(sys.argv) == 2 and sys.argv[1] == '--build':
            print(build())
            sys.exit(0)
        if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
            print(__doc__)
            sys.exit(3)
        sys.exit(main(sys.argv[1]))
    except CheckError as e:
        print('CHECK ERROR: %s' % e)
        sys.exit(3)
