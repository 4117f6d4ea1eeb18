#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]   decides one property by seeded simulation
   check.py --setup                        builds the simulator
   check.py --replay FILE [--trace]        replays a replay file: exit 1 if it still violates

Exit 0: held on everything explored. Exit 1: `VIOLATION property=<id> replay=<path>`. Exit 2: no answer."""
import hashlib, json, mmap, os, re, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
SIM = os.path.join(HERE, 'sim')
TARGET = os.path.join(SIM, 'target')
OUT = os.path.join(HERE, 'out')
CPUS = os.cpu_count() or 4
PROPS = ['B01', 'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11',
         'L01', 'L02', 'L03', 'L04', 'L05', 'L06', 'L07', 'N04', 'R01']
# runs in all, and the wall-clock cap of the search in seconds
BUDGET = {'quick': (700000, 40), 'thorough': (100000000, 420)}
HANG = 60
# how the processors are shared between builds
SHARE = {'dbg': 5, 'rel': 3, 'pre': 5, 'simd': 4}
FEATURES = ('bmi1', 'bmi2', 'popcnt', 'avx2')


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ build
def env_for(variant):
    e = dict(os.environ)
    e['HOME'] = '/root'
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    e['RUSTUP_TOOLCHAIN'] = 'nightly-x86_64-unknown-linux-gnu'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['RUSTC_WRAPPER'] = ''
    e['CARGO_INCREMENTAL'] = '0'
    e.pop('CARGO_TARGET_DIR', None)
    flags = '-Awarnings'
    if variant == 'pre':
        c = ' -Cllvm-args=-sanitizer-coverage-'
        flags += ' -Cpasses=sancov-module' + c + 'level=3' + c + 'trace-pc' + c + 'trace-loads' + c + 'trace-stores'
    if variant == 'simd':
        flags += ' -Ctarget-feature=' + ','.join('+' + f for f in FEATURES) + ',+lzcnt'
    e['RUSTFLAGS'] = flags
    e.pop('CARGO_ENCODED_RUSTFLAGS', None)
    return e


def have_simd():
    try:
        flags = set(re.search(r'^flags\s*:(.*)$', open('/proc/cpuinfo').read(), re.M).group(1).split())
    except Exception:
        return False
    return all(f in flags for f in FEATURES) and ('abm' in flags or 'lzcnt' in flags)


def repo_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, 'Cargo.toml')]
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()


def build(variant):
    """dbg: library contracts (debug assertions, overflow checks) on.
       pre: as dbg, and simulated threads may lose the processor at every edge, load and store.
       rel: as shipped: no debug assertions, no overflow checks.
       simd: as rel, more optimized, for a CPU with bit-manipulation instructions."""
    profile = {'simd': ['--release'], 'rel': ['--profile', 'rel']}.get(variant, [])
    tdir = os.path.join(TARGET, variant)
    os.makedirs(tdir, exist_ok=True)
    want, mark = repo_hash(), os.path.join(tdir, 'repo.hash')
    env = env_for(variant)
    have = open(mark).read() if os.path.exists(mark) else ''
    base = ['cargo', 'build', '--offline', '--locked', '--target-dir', tdir] + profile
    if have and have != want:
        os.remove(mark)
        c = ['cargo', 'clean', '--offline', '-p', 'hibit_tree', '--target-dir', tdir] + profile
        subprocess.run(c, cwd=SIM, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(base, cwd=SIM, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    exe = os.path.join(tdir, {'simd': 'release', 'rel': 'rel'}.get(variant, 'debug'), 'hibit_sim')
    if p.returncode != 0 or not os.path.exists(exe):
        log('\n'.join(p.stdout.splitlines()[-60:]))
        log(f'HARNESS: the simulator ({variant}) does not build')
        sys.exit(2)
    open(mark, 'w').write(want)
    return exe


# ------------------------------------------------------------------ replays
class Verdict:
    """What a replay came to. kind: ok, violation, other (of a class that is not about the property),
    crash, hang, harness."""
    def __init__(self, kind, cls='', msg='', log=''):
        self.kind, self.cls, self.msg, self.log = kind, cls, msg, log

    def bad(self):
        return self.kind in ('violation', 'crash', 'hang')

    def same(self, o):
        return self.kind == o.kind and self.cls == o.cls


def run_file(exe, path, timeout, trace=False):
    cmd = [exe, 'replay', path] + (['--trace', 'x'] if trace else [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, cwd='/')
    except subprocess.TimeoutExpired:
        return Verdict('hang', 'hang', f'no end after {timeout} s')
    if trace:
        print(p.stdout, end='')
    m = re.search(r'^violation class=(\w+) accepted=(\d) step=(\d+) (.*)$', p.stdout, re.M | re.S)
    lg = re.search(r'^log (\w+)', p.stdout, re.M)
    lg = lg.group(1) if lg else ''
    if p.returncode == 0:
        return Verdict('ok', log=lg)
    if p.returncode in (1, 3) and m:
        return Verdict('violation' if p.returncode == 1 else 'other', m.group(1), m.group(4).strip(), lg)
    if p.returncode < 0 or p.returncode in (4, 134, 139):
        last = [l for l in p.stderr.strip().splitlines() if l.strip()][-1:] or ['']
        name = f'signal {-p.returncode}' if p.returncode < 0 else ('memory without bound' if p.returncode == 4 else f'exit {p.returncode}')
        return Verdict('crash', name, f'the process died: {name} {last[0][:300]}')
    return Verdict('harness', str(p.returncode), p.stderr[-2000:])


class Shrinker:
    def __init__(self, exe, prop, text, verdict, limit):
        self.exe, self.prop, self.v = exe, prop, verdict
        i = text.index('steps\n') + 6
        self.head, self.steps = text[:i], [l for l in text[i:].splitlines() if l.strip()]
        self.end = time.time() + limit
        self.n = 0
        self.dir = os.path.join(OUT, f'shrink-{prop}-{os.getpid()}')
        os.makedirs(self.dir, exist_ok=True)
        self.pool = ThreadPoolExecutor(CPUS)

    def text(self, head, steps):
        return head + '\n'.join(steps) + '\n'

    def fails(self, head, steps):
        if time.time() > self.end:
            return False
        self.n += 1
        f = os.path.join(self.dir, f'{self.n}.plan')
        open(f, 'w').write(self.text(head, steps))
        t = 8 if self.v.kind == 'hang' else 30
        ok = run_file(self.exe, f, t).same(self.v)
        os.remove(f)
        return ok

    def first(self, cands):
        """The first candidate that still fails (several are tried at once)."""
        for i in range(0, len(cands), CPUS):
            if time.time() > self.end:
                return None
            part = cands[i:i + CPUS]
            for c, ok in zip(part, self.pool.map(lambda c: self.fails(*c), part)):
                if ok:
                    return c
        return None

    def steps_pass(self):
        n = 2
        while len(self.steps) >= 1 and time.time() < self.end:
            size = max(1, -(-len(self.steps) // n))
            cands = [(self.head, self.steps[:i] + self.steps[i + size:]) for i in range(0, len(self.steps), size)]
            c = self.first(cands)
            if c:
                self.steps = c[1]
                n = max(n - 1, 2)
            elif size == 1:
                return
            else:
                n = min(n * 2, len(self.steps))

    def line_pass(self):
        changed = True
        while changed and time.time() < self.end:
            changed = False
            for i, l in enumerate(self.steps):
                w = l.split()
                opts = []
                for k, x in enumerate(w):
                    if k >= 2 and (x[0] in '!^@'):
                        opts.append(w[:k] + w[k + 1:])
                if w[0] != 'c0':
                    opts.append(['c0'] + w[1:])
                for k in range(2, len(w)):
                    if w[k].isdigit() and int(w[k]) > 0:
                        x = int(w[k])
                        for y in [0, 1, x // 2, x - 1]:
                            if y < x:
                                opts.append(w[:k] + [str(y)] + w[k + 1:])
                        opts.append(w[:k] + w[k + 1:])
                    m = re.match(r'^!(\w+),(\d+)$', w[k])
                    if m and int(m.group(2)) > 1:
                        opts.append(w[:k] + [f'!{m.group(1)},1'] + w[k + 1:])
                c = self.first([(self.head, self.steps[:i] + [' '.join(o)] + self.steps[i + 1:]) for o in opts])
                if c:
                    self.steps = c[1]
                    changed = True

    def head_pass(self):
        h = re.sub(r'^alloc2.*\n', '', self.head, flags=re.M)
        plain = re.sub(r'^alloc .*$', 'alloc fill=2 realloc=0 reuse=0 poison=1 guard=0 gap=0 seed=1', h, flags=re.M)
        for c in (plain, h):
            if c != self.head and self.fails(c, self.steps):
                self.head = c
                return

    def run(self):
        self.head_pass()
        self.steps_pass()
        self.line_pass()
        self.steps_pass()
        self.pool.shutdown()
        try:
            os.rmdir(self.dir)
        except OSError:
            pass
        return self.text(self.head, self.steps)


def known_findings(prop):
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'^finding: property=(\S+) class=(\S+) match=(\S+) (.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


# ------------------------------------------------------------------ search
class Worker:
    def __init__(self, exe, variant, prop, base, frm, stride, count, ms, no):
        self.exe, self.variant, self.prop, self.base = exe, variant, prop, base
        self.frm, self.stride, self.count, self.no = frm, stride, count, no
        self.status = os.path.join(OUT, f'st-{prop}-{os.getpid()}-{variant}-{no}-{frm}')
        open(self.status, 'wb').write(b'\0' * 4096)
        self.out = self.status + '.out'
        self.err = self.status + '.err'
        self.p = subprocess.Popen([exe, 'run', '--prop', prop, '--base', str(base), '--from', str(frm), '--stride', str(stride),
                                   '--count', str(count), '--ms', str(ms), '--status', self.status],
                                  stdout=open(self.out, 'w'), stderr=open(self.err, 'w'), cwd='/')
        self.last, self.since = None, time.time()
        self.hung = False

    def at(self):
        b = open(self.status, 'rb').read(16)
        return struct.unpack('<QQ', b)

    def poll(self):
        if self.p.poll() is not None:
            return True
        at = self.at()
        if at != self.last:
            self.last, self.since = at, time.time()
        elif time.time() - self.since > HANG:
            self.hung = True
            self.p.kill()
            self.p.wait()
            return True
        return False

    def result(self):
        try:
            return json.loads(open(self.out).read().strip().splitlines()[-1])
        except Exception:
            return None

    def sets(self):
        out = []
        try:
            b = open(self.status + '.sets', 'rb').read()
            o = 0
            for _ in range(3):
                n = struct.unpack_from('<Q', b, o)[0]
                out.append(struct.unpack_from(f'<{n}Q', b, o + 8))
                o += 8 + 8 * n
        except Exception:
            out = [(), (), ()]
        return out

    def clean(self):
        for f in (self.status, self.out, self.err, self.status + '.sets'):
            try:
                os.remove(f)
            except OSError:
                pass


def add(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            add(a.setdefault(k, {}), v)
        elif k.startswith('max_'):
            a[k] = max(a.get(k, 0), v)
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v


def report(prop, exe, variant, base, w, index, verdict_hint):
    """Confirms, minimises and writes the replay file. Returns its path and the verdict, or None."""
    text = subprocess.run([exe, 'plan', '--prop', prop, '--base', str(base), '--index', str(index)], stdout=subprocess.PIPE, text=True, cwd='/').stdout
    os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
    path = os.path.join(OUT, 'replays', f'{prop}-{base}-{index}-{variant}.replay')
    full = path + '.full'
    open(full, 'w').write(text)
    v = run_file(exe, full, HANG)
    if v.bad():
        again = run_file(exe, full, HANG)
        s = Shrinker(exe, prop, text, v, 60)
        small = s.run()
        note = f'# {v.kind} {v.cls}: {v.msg}\n# base {base} index {index} variant {variant}; minimised with {s.n} replays; repeatable: {again.same(v)}\n'
        note = ''.join('# ' + l.lstrip('# ') + '\n' for l in note.splitlines())
        open(path, 'w').write(note + f'#variant {variant}\n' + small)
        fin = run_file(exe, path, HANG)
        if not fin.same(v):
            open(path, 'w').write(note + f'#variant {variant}\n' + text)
            fin = v
        os.remove(full)
        return path, fin
    os.remove(full)
    if v.kind == 'harness':
        log('HARNESS:', v.msg)
        return None
    if v.kind == 'other':
        return 'other', v
    # depends on the runs before it: the whole batch is the replay
    cmd = {'prop': prop, 'base': base, 'from': w.frm, 'stride': w.stride, 'count': (index - w.frm) // w.stride + 1}
    open(path, 'w').write(f'#batch {json.dumps(cmd)}\n#variant {variant}\n# {verdict_hint}\n' + text)
    return path, Verdict('violation', 'batch', verdict_hint)


def search(prop, base, plan, findings):
    """plan: list of (exe, variant, runs, seconds)."""
    tot, logs, inters, states = {}, set(), set(), set()
    per_variant = {}
    found = None
    knowns = []
    jobs = []
    hidden = None
    for exe, variant, runs, secs in plan:
        n = max(1, CPUS * SHARE[variant] // sum(SHARE[p[1]] for p in plan))
        end = time.time() + secs
        ws = []
        for i in range(n):
            # the other variants look at other runs
            off = {'dbg': 0, 'simd': 1 << 32, 'pre': 1 << 33, 'rel': 3 << 32}[variant]
            ws.append(Worker(exe, variant, prop, base, off + i, n, runs * SHARE[variant] // n // sum(SHARE[p[1]] for p in plan) + 1, int(secs * 1000), i))
        jobs.append((ws, end))
    pending = [(w, end) for ws, end in jobs for w in ws]
    while pending and not found:
        time.sleep(0.02)
        for item in list(pending):
            w, end = item
            if not w.poll():
                continue
            pending.remove(item)
            r = w.result()
            hit = None
            if r is not None:
                add(tot, r)
                add(per_variant.setdefault(w.variant, {}), {'runs': r['runs'], 'steps': r['steps'], 'ms': r['ms']})
                a, b, c = w.sets()
                logs.update(a); inters.update(b); states.update(c)
                if 'violation' in r:
                    hit = (r['violation']['index'], '%s: %s' % (r['violation']['class'], r['violation']['msg']), r['violation']['class'])
            else:
                at, seed = w.at()
                rc = w.p.returncode
                if at == 0 or rc == 2:
                    log(f'HARNESS: a worker ended with {rc}', open(w.err).read()[-2000:])
                    sys.exit(2)
                hit = (at - 1, ('no progress' if w.hung else f'the process died: {rc}') + ' ' + open(w.err).read()[-300:], 'hang' if w.hung else 'crash')
            nxt = None
            if hit:
                k = next((f for f in findings if f[0] == hit[2] and f[1].search(hit[1])), None)
                if k:
                    knowns.append(k[2])
                    nxt = hit[0] + w.stride
                else:
                    rep = report(prop, w.exe, w.variant, base, w, hit[0], hit[1])
                    if rep is None:
                        sys.exit(2)
                    if rep[0] == 'other':
                        hidden = rep[1]
                        nxt = hit[0] + w.stride
                    else:
                        found = rep
            w.clean()
            left = end - time.time()
            if nxt is not None and left > 1:
                done = (nxt - w.frm) // w.stride
                if w.count > done:
                    pending.append((Worker(w.exe, w.variant, prop, base, nxt, w.stride, w.count - done, int(left * 1000), w.no), end))
            if found:
                break
    for w, _ in pending:
        w.p.kill()
        w.p.wait()
        r = w.result()
        w.clean()
    return tot, per_variant, logs, inters, states, found, knowns


def repeat_check(exe, prop, base):
    """The same runs in another process, split otherwise: the event logs must be the same."""
    n = 24
    def one(frm, stride, count):
        p = subprocess.run([exe, 'run', '--prop', prop, '--base', str(base), '--from', str(frm), '--stride', str(stride), '--count', str(count), '--ms', '8000'],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd='/')
        try:
            r = json.loads(p.stdout.strip().splitlines()[-1])
            return r['runs'], int(r['loghash'], 16)
        except Exception:
            return 0, 0
    with ThreadPoolExecutor(CPUS) as ex:
        whole = ex.submit(one, 0, 1, n)
        parts = [ex.submit(one, i, 3, n // 3) for i in range(3)]
        a = whole.result()
        b = [p.result() for p in parts]
    return {'runs_repeated': a[0], 'processes': 4, 'same': a[0] == sum(x[0] for x in b) and a[1] == sum(x[1] for x in b) % (1 << 64)}


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    variants = (['pre'] if prop == 'N04' else ['dbg', 'pre' if prop == 'R01' else 'rel']) + (['simd'] if tier == 'thorough' and prop != 'N04' and have_simd() else [])
    with ThreadPoolExecutor(3) as ex:
        exes = dict(zip(variants, ex.map(build, variants)))
    t1 = time.time()
    runs, secs = BUDGET[tier]
    secs = float(os.environ.get('VERIF_SECONDS', secs))
    tot, per_variant, logs, inters, states, found, knowns = search(prop, seed, [(exes[v], v, runs, secs) for v in variants], known_findings(prop))
    t2 = time.time()
    rep = {v: repeat_check(exes[v], prop, seed) for v in variants} if not found else None
    sample = subprocess.run([exes[variants[0]], 'plan', '--prop', prop, '--base', str(seed), '--index', '2'], stdout=subprocess.PIPE, text=True, cwd='/').stdout
    n = tot.get('runs', 0)
    hours = max(t2 - t1, 0.001) / 3600
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 2),
        'violations': 1 if found else 0,
        'coverage': {
            'evaluations': n,
            'distinct_nontrivial': len(logs),
            'rule': 'One evaluation is one simulated run: a seed decides the tree family, the allocator policy, the clients, every step, every '
                    'injected fault and every switch. Non-trivial: more than 8 steps were executed. Distinct: by the hash of the log of everything '
                    'the library returned in the run (sets are capped at 2^20 per worker).',
            'samples': [sample[:6000]],
            'runs_per_hour': int(n / hours), 'seeds_per_hour': int(n / hours),
            'simulated_steps': tot.get('steps', 0),
            'simulated_time': 'the code has no clock: simulated time is counted in steps of clients'
                              + (', and in units of work (edges, loads and stores executed inside of the library)' if prop == 'N04' else ''),
            'work': tot.get('work', {}),
            'steps_skipped_as_not_applicable': tot.get('skipped', 0),
            'faults_armed': tot.get('armed', {}), 'faults_fired': tot.get('fired', {}), 'allocations_refused': tot.get('refused', 0),
            'calls_from_library_into_user_code': tot.get('events', {}),
            'allocator': tot.get('alloc', {}),
            'distinct_interleavings': len(inters), 'interleaving_measure': 'hash of the sequence (client, operation), nested actions and thread switches',
            'distinct_container_states': len(states), 'state_measure': 'hash of shape and key set at full checks (capped at 2^18 per worker)',
            'reach_probes': tot.get('probes', {}),
            'observations_that_concern_other_properties': tot.get('ignored', {}),
            'determinism': rep, 'per_build': per_variant,
            'real_code': 'all of hibit_tree (containers, levels, bit blocks, iteration, cursors, operations, materialization) as built from /repo',
            'simulated': 'global allocator (for allocations of the library), value type, callbacks, source iterators, thread schedule',
            'search_s': round(t2 - t1, 2), 'build_s': round(t1 - t0, 2), 'workers': CPUS,
        },
        'assumptions': ['sampling: a clean batch is evidence, not proof'],
    }
    tmp = os.path.join(HERE, 'evidence', f'.{prop}.{os.getpid()}')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', f'{prop}.json'))
    for k in sorted(set(knowns)):
        print(f'KNOWN-FINDING: property={prop} {k}')
    if found:
        path, v = found
        print(f'{v.kind} {v.cls}: {v.msg}')
        print(f'VIOLATION property={prop} replay={os.path.relpath(path, HERE)}', flush=True)
        return 1
    if n == 0:
        log('HARNESS: nothing was run')
        return 2
    print(f'{prop}: held on {n} runs, {tot.get("steps", 0)} steps, {len(logs)} distinct ({t1 - t0:.0f} s build, {t2 - t1:.0f} s search)')
    return 0


def replay(path, trace):
    text = open(path).read()
    m = re.search(r'^#variant (\w+)', text, re.M)
    exe = build(m.group(1) if m else 'dbg')
    b = re.search(r'^#batch (.*)$', text, re.M)
    if b:
        c = json.loads(b.group(1))
        cmd = [exe, 'run']
        for k, v in c.items():
            cmd += ['--' + k, str(v)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, timeout=600, cwd='/')
        bad = p.returncode != 0
        print(p.stdout[-1500:])
        prop = c['prop']
    else:
        v = run_file(exe, path, HANG, trace)
        bad = v.bad()
        prop = re.search(r'^prop (\w+)', text, re.M).group(1)
        print(v.kind, v.cls, v.msg)
        if v.kind == 'harness':
            return 2
    if bad:
        print(f'VIOLATION property={prop} replay={path}')
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if a[:1] == ['--setup']:
        for v in ('dbg', 'pre', 'rel'):
            build(v)
        return 0
    if a[:1] == ['--replay']:
        return replay(os.path.abspath(a[1]), '--trace' in a)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if not a or a[0] not in PROPS or tier not in BUDGET:
        log(__doc__)
        return 2
    return check(a[0], tier)


if __name__ == '__main__':
    sys.exit(main())
