#!/usr/bin/env python3
"""Seeded search for violations of one property.

usage: check.py <property> [--replay FILE]

Builds the simulator against the current tree of fsdyn, runs a fixed number of
seeded simulated executions, minimises and stores the first violations found,
and writes evidence/<property>.json.
"""
import bisect, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import simbuild

VERIF = simbuild.VERIF
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS')
with open(os.path.join(VERIF, 'budget.json')) as f:
    BUDGET = json.load(f)


def say(*a):
    print(*a)
    sys.stdout.flush()


# ------------------------------------------------------------------ plans --
class Plan:
    def __init__(self, text):
        self.head, self.cfg, self.ops = [], {}, []
        for line in text.splitlines():
            w = line.split()
            if not w or w[0].startswith('#') or w[0] in ('end', 'fsdyn-sim-plan'):
                continue
            if w[0] == 'cfg':
                self.cfg[w[1]] = int(w[2])
            elif w[0] == 'op':
                i = 5
                n = int(w[i])
                a = w[i + 1:i + 1 + n]
                i += 1 + n
                blob = w[i + 1]
                i += 2
                n = int(w[i + 1])
                f = [tuple(w[i + 2 + 3 * k:i + 5 + 3 * k]) for k in range(n)]
                i += 2 + 3 * n
                n = int(w[i + 1])
                p = [tuple(w[i + 2 + 2 * k:i + 4 + 2 * k]) for k in range(n)]
                self.ops.append(dict(id=w[1], task=w[2], code=w[3], a=a,
                                     blob=blob, f=f, p=p))
            else:
                self.head.append(line)

    def text(self):
        out = ['fsdyn-sim-plan 1'] + self.head
        out += ['cfg %s %d' % kv for kv in sorted(self.cfg.items())]
        for o in self.ops:
            out.append('op %s %s %s a %s b %s f %s p %s' % (
                o['id'], o['task'], o['code'],
                ' '.join([str(len(o['a']))] + o['a']), o['blob'],
                ' '.join([str(len(o['f']))] + [' '.join(x) for x in o['f']]),
                ' '.join([str(len(o['p']))] + [' '.join(x) for x in o['p']])))
        return '\n'.join(out + ['end', ''])

    def clone(self):
        q = Plan('')
        q.head = list(self.head)
        q.cfg = dict(self.cfg)
        q.ops = [dict(o, a=list(o['a']), f=list(o['f']), p=list(o['p']))
                 for o in self.ops]
        return q

    def describe(self):
        return dict(ops=len(self.ops),
                    faults=sum(len(o['f']) for o in self.ops),
                    preemptions=sum(len(o['p']) for o in self.ops))


class Sim:
    def __init__(self, exe, tmp):
        self.exe, self.tmp, self.n = exe, tmp, 0

    def gen(self, prop, base, idx, fl=''):
        return subprocess.run([self.exe + fl, 'gen', '--prop', prop, '--base',
                               str(base), '--from', str(idx)], check=True,
                              stdout=subprocess.PIPE, text=True).stdout

    def execute(self, text):
        self.n += 1
        path = os.path.join(self.tmp, 'x%d.plan' % self.n)
        with open(path, 'w') as f:
            f.write(text)
        try:
            exe = self.exe
            if re.search(r'^cfg redzones 1$', text, re.M):
                exe += '-rz'
            elif re.search(r'^cfg literal 1$', text, re.M):
                exe += '-o0'
            out = subprocess.run([exe, 'exec', path], timeout=150,
                                 stdout=subprocess.PIPE, text=True).stdout
            return json.loads(out)
        except (subprocess.TimeoutExpired, ValueError):
            return {'outcome': 'error'}
        finally:
            os.remove(path)


def same(r, cls):
    return r.get('outcome') == 'violation' and (r['kind'], r['site']) == cls


def minimise(sim, plan, cls, deadline):
    """Greedy delta debugging of the schedule, faults and inputs."""
    tried = [0]

    def ok(q):
        if time.time() > deadline or tried[0] > 1500:
            return False
        tried[0] += 1
        return same(sim.execute(q.text()), cls)

    best = plan
    n = 2
    while len(best.ops) > 1 and n <= len(best.ops) and time.time() < deadline:
        size = max(1, len(best.ops) // n)
        for i in range(0, len(best.ops), size):
            q = best.clone()
            del q.ops[i:i + size]
            if q.ops and ok(q):
                best = q
                n = max(2, n - 1)
                break
        else:
            if size == 1:
                break
            n = min(len(best.ops), n * 2)
    for key in ('p', 'f'):
        q = best.clone()
        for o in q.ops:
            o[key] = []
        if ok(q):
            best = q
            continue
        for i in range(len(best.ops)):
            if best.ops[i][key]:
                q = best.clone()
                q.ops[i][key] = []
                if ok(q):
                    best = q
                    continue
                k = 0
                while k < len(best.ops[i][key]):
                    q = best.clone()
                    del q.ops[i][key][k]
                    if ok(q):
                        best = q
                    else:
                        k += 1
    for i in range(len(best.ops)):  # payloads
        step = 0
        b = best.ops[i]['blob']
        step = (len(b) // 2 + 1) // 2 if b != '-' else 0
        while step >= 1 and time.time() < deadline:
            b = best.ops[i]['blob']
            nb = len(b) // 2 if b != '-' else 0
            pos = 0
            while pos < nb:
                q = best.clone()
                c = b[:2 * pos] + b[2 * (pos + step):]
                q.ops[i]['blob'] = c or '-'
                if ok(q):
                    best = q
                    b = c
                    nb = len(b) // 2
                else:
                    pos += step
            step //= 2
    for k, v in (('hot', 0), ('slack', 0), ('reuse', 0), ('zero_null', 0),
                 ('fill', 0), ('move', 1)):
        if best.cfg.get(k, v) != v:
            q = best.clone()
            q.cfg[k] = v
            if ok(q):
                best = q
    return best, tried[0]


# ---------------------------------------------------------------- findings --
def known_findings(prop):
    """finding: property=<id> kind=<k> site=<s> [match=<regex>] -- text"""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r'finding: property=(\S+) kind=(\S+) site=(\S+)'
                         r'(?: match=(\S+))? -- (.*)', line)
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def is_known(f, known):
    for kind, site, rx, text in known:
        if f['kind'] == kind and f['site'] == site and (
                not rx or re.search(rx, f['msg'])):
            return text
    return None


# --------------------------------------------------------------------- main --
def replay(exe, prop, path):
    with tempfile.TemporaryDirectory(prefix='fsdyn-sim-') as tmp:
        sim = Sim(exe, tmp)
        r = sim.execute(open(path).read())
        say(json.dumps(r))
        if r.get('outcome') == 'violation':
            say('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        return 0 if r.get('outcome') in ('ok', 'other') else 2


def main():
    t0 = time.time()
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        exe = simbuild.build()
    except simbuild.BuildError as e:
        say('build failed: %s' % e)
        return 2
    built = time.time() - t0
    if '--replay' in sys.argv:
        return replay(exe, prop, sys.argv[sys.argv.index('--replay') + 1])
    b = BUDGET[prop]
    runs = int(os.environ.get('FSDYN_SIM_RUNS', 0)) or b[tier]
    wall = b.get('wall_' + tier, 100 if tier == 'quick' else 700)
    tmp = tempfile.mkdtemp(prefix='fsdyn-sim-')
    try:
        return search(exe, prop, tier, seed, runs, wall, tmp, t0, built)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def search(exe, prop, tier, seed, runs, wall, tmp, t0, built):
    sim = Sim(exe, tmp)
    cpus = sorted(os.sched_getaffinity(0))[:8]
    nw = len(cpus)
    chunks = 4 * nw
    edges = [runs * i // chunks for i in range(chunks + 1)]
    ts = time.time()

    def build_of(c):  # which build of the library runs this chunk
        return ('', '-rz', '', '-o0')[c // nw % 4]

    def flavour(idx):
        return build_of(bisect.bisect_right(edges, idx) - 1)

    def work(w):
        res = []
        for c in range(w, chunks, nw):
            left = wall - (time.time() - ts)
            if left < 1 and res:
                break
            cmd = [exe + build_of(c), 'batch', '--prop', prop, '--base', str(seed), '--from',
                   str(edges[c]), '--count', str(edges[c + 1] - edges[c]),
                   '--hashes', os.path.join(tmp, 'h%d' % c), '--cov',
                   os.path.join(tmp, 'c%d' % c), '--cpu', str(cpus[w]),
                   '--wall', '%.1f' % max(left, 1), '--maxfail', '3']
            p = subprocess.run(cmd, stdout=subprocess.PIPE, text=True)
            if p.returncode:
                raise RuntimeError('simulator failed: %d' % p.returncode)
            res.append((c, json.loads(p.stdout)))
            if res[-1][1]['failures']:
                break
        return res

    with ThreadPoolExecutor(nw) as ex:
        results = [x for r in ex.map(work, range(nw)) for x in r]
    took = time.time() - ts

    # ------------------------------------------------------------ totals ---
    tot, faults, probes, fails = {}, {}, {}, []
    covs = None
    by_build = {'': 0, '-rz': 0, '-o0': 0}
    hashes, nontriv = {}, set()
    first_nt = []
    for c, r in results:
        for k, v in r.items():
            if isinstance(v, (int, float)) and k not in ('maxsize', 'blocks_covered'):
                tot[k] = tot.get(k, 0) + v
        tot['maxsize'] = max(tot.get('maxsize', 0), r['maxsize'])
        for k, v in r['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r['probes'].items():
            probes[k] = probes.get(k, 0) + v
        fails += r['failures']
        if build_of(c) == '':
            with open(os.path.join(tmp, 'c%d' % c), 'rb') as f:
                x = int.from_bytes(f.read(), 'little')
            covs = x if covs is None else covs | x
        by_build[build_of(c)] += r['runs']
        with open(os.path.join(tmp, 'h%d' % c), 'rb') as f:
            raw = f.read()
        mv = memoryview(raw).cast('Q')
        for i in range(0, len(mv), 2):
            if mv[i]:
                idx = edges[c] + i // 2
                hashes[idx] = mv[i]
                if mv[i + 1]:
                    nontriv.add(mv[i])
                    if len(first_nt) < 3:
                        first_nt.append(idx)
    covered = bin(covs or 0).count('1')

    # ------------------------------------------- determinism self-check ----
    sample = sorted(hashes)[::max(1, len(hashes) // 5)][:5]
    det_bad = []
    for idx in sample:
        text = sim.gen(prop, seed, idx, flavour(idx))
        r1, r2 = sim.execute(text), sim.execute(text)
        if r1 != r2 or (r1.get('outcome') == 'ok' and
                        int(r1['trace'], 16) | 1 != hashes[idx]):
            det_bad.append(idx)
    samples = []
    for idx in first_nt[:2]:
        text = sim.gen(prop, seed, idx, flavour(idx))
        lines = text.splitlines()
        samples.append({'index': idx, 'plan': lines[:40] +
                        (['... %d more lines' % (len(lines) - 40)]
                         if len(lines) > 40 else []),
                        'outcome': sim.execute(text)})

    # ---------------------------------------------------------- failures ---
    known = known_findings(prop)
    reported, seen_known, unstable = [], {}, 0
    classes = {}
    for f in sorted(fails, key=lambda f: f['idx']):
        t = is_known(f, known)
        if t:
            seen_known[t] = seen_known.get(t, 0) + 1
            continue
        classes.setdefault((f['kind'], f['site']), []).append(f)
    budget_end = time.time() + (60 if tier == 'quick' else 180)
    for cls, fl in sorted(classes.items(), key=lambda x: x[1][0]['idx']):
        if len(reported) >= 3:
            break
        for f in fl[:4]:
            plan = Plan(sim.gen(prop, seed, f['idx'], flavour(f['idx'])))
            a, bb = sim.execute(plan.text()), sim.execute(plan.text())
            if not (same(a, cls) and a == bb):
                unstable += 1
                continue
            best, tried = minimise(sim, plan, cls,
                                   min(budget_end, time.time() + 30))
            a, bb = sim.execute(best.text()), sim.execute(best.text())
            if not (same(a, cls) and a == bb):
                best, a = plan, sim.execute(plan.text())
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            path = os.path.join(VERIF, 'replays', '%s-seed%d-run%d.plan' %
                                (prop, seed, f['idx']))
            d0, d1 = plan.describe(), best.describe()
            with open(path, 'w') as o:
                o.write('# property %s, base seed %d, run %d\n'
                        '# %s/%s at operation %s: %s\n'
                        '# minimised from %s to %s in %d replays\n'
                        '# replay: python3 check.py %s --replay %s\n' %
                        (prop, seed, f['idx'], a['kind'], a['site'], a['op'],
                         a['msg'], d0, d1, tried, prop, path))
                o.write(best.text())
            reported.append({'class': cls, 'run': f['idx'], 'result': a,
                             'replay': path, 'minimised': d1, 'from': d0})
            say('%s/%s: %s (operation %s; %d operations, %d preemptions, '
                '%d faults after minimisation)' %
                (a['kind'], a['site'], a['msg'], a['op'], d1['ops'],
                 d1['preemptions'], d1['faults']))
            say('VIOLATION property=%s replay=%s' % (prop, path))
            break
    for t in known:
        say('KNOWN-FINDING: property=%s %s' % (prop, t[3]))

    # ---------------------------------------------------------- evidence ---
    with open(exe + '.json') as f:
        info = json.load(f)
    nruns = len(hashes) + len(fails)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': nruns,
            'distinct_nontrivial': len(nontriv),
            'rule': 'one evaluation is one simulated execution of a plan '
                    'generated from (base seed, property, run index); it is '
                    'non-trivial when at least one injected preemption, signal, '
                    'damage or other scheduled fault took effect in it, and '
                    'distinct when its trace hash (operation starts, hook-point '
                    'counts, context switches, allocation requests) was not seen '
                    'before',
            'samples': samples,
            'runs_per_hour': round(3600 * nruns / max(took, 1e-6)),
            'seeds': 'run indices 0..%d of base seed %d' % (runs - 1, seed),
            'runs_planned': runs,
            'runs_with_redzones': by_build['-rz'],
            'runs_unoptimised': by_build['-o0'],
            'distinct_interleavings': len(set(hashes.values())),
            'interleaving_measure': 'distinct trace hashes',
            'simulated_steps': tot.get('steps', 0),
            'simulated_operations': tot.get('ops', 0),
            'context_switches_inside_operations': tot.get('switches', 0),
            'simulated_time': 'the library has no clock: simulated time is the '
                              'count of hook points (instrumented memory '
                              'accesses and basic blocks) above',
            'faults_injected': faults,
            'fail_stop_ends': tot.get('failstop', 0),
            'preemptions_planned': tot.get('preempt_planned', 0),
            'preemptions_not_reached': tot.get('preempt_unreached', 0),
            'allocations': tot.get('allocs', 0),
            'reallocations': tot.get('reallocs', 0),
            'releases': tot.get('frees', 0),
            'callbacks_into_client_code': tot.get('callbacks', 0),
            'largest_structure': tot.get('maxsize', 0),
            'situations_reached': probes,
            'library_blocks_covered': covered,
            'library_blocks_total': info['blocks'],
            'determinism_selfcheck': {'runs_rechecked': len(sample),
                                      'mismatches': det_bad},
            'runs_outside_this_property': tot.get('others', 0),
            'simulator_errors': tot.get('errors', 0),
            'unreproducible_failures': unstable,
            'known_findings_seen': seen_known,
            'real_code': 'every object of libfsdyn.a, built from the working '
                         'tree (instrumented recompilation of the same sources '
                         'and generated tables)',
            'stubbed': 'libc allocation, memory and string functions, printf '
                       'formatting failure, abort/assert, gmtime family, '
                       'pthread locks; client threads run under the '
                       'deterministic scheduler; streams and transports are '
                       'simulated',
            'violations_reported': reported,
        },
        'assumptions': [
            'sequentially consistent memory; preemption at instrumented memory '
            'accesses, basic blocks and inside copies',
            'clients respect the documented preconditions (one client at a time '
            'inside a given modifiable object)',
        ],
        'wall_s': round(time.time() - t0, 2),
        'build_s': round(built, 2),
        'violations': len(reported),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    say('%s %s: %d runs, %d distinct non-trivial, %d steps, %.1f s search, '
        '%.1f s in all%s' % (prop, tier, nruns, len(nontriv),
                             tot.get('steps', 0), took, time.time() - t0,
                             '' if not det_bad else
                             '; WARNING not deterministic: %s' % det_bad))
    if reported:
        return 1
    if unstable:
        say('a failure was seen that does not reproduce: no verdict')
        return 2
    if not nruns:
        say('nothing was run')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
