#!/usr/bin/env python3
"""Seeded search for violations of C19: table generation under I/O faults.

usage: gencheck.py C19 [--replay FILE]

Each run executes one of the build's table generators on simulated devices
(gen/gensim.c, gen/pygen.py): its input arrives in pieces, late parts of it
fail, lines of it are lost or repeated, its output goes short or fails, memory
runs out. A generator may fail; it may not report success with another table
than the one it makes of the same data undisturbed.
"""
import json, os, random, re, resource, shutil, subprocess, sys, tempfile, time
import threading
from concurrent.futures import ThreadPoolExecutor
import simbuild
from check import known_findings, say

VERIF, REPO = simbuild.VERIF, simbuild.REPO
GEN = os.path.join(VERIF, 'gen')
PY = {
    'unicode_categories': ('categorize', 'UnicodeData'),
    'unicode_lower_case': ('lower_case', 'UnicodeData'),
    'unicode_upper_case': ('upper_case', 'UnicodeData'),
    'unicode_canonical_combining_classes':
        ('canonical_combining_classes', 'UnicodeData'),
    'unicode_allowed_in_normal_form':
        ('allowed_in_normal_form', 'DerivedNormalizationProps'),
    'unicode_decomposition': ('decomposition', 'UnicodeData'),
    'unicode_recomposition':
        ('recomposition', 'UnicodeData', 'CompositionExclusions'),
}
FAST = [x for x in sorted(PY) if x != 'unicode_allowed_in_normal_form']
OUTPUT = {                      # size of the output, roughly
    'unicode_categories': 340000, 'unicode_lower_case': 43000,
    'unicode_upper_case': 44000, 'unicode_canonical_combining_classes': 1000000,
    'unicode_allowed_in_normal_form': 1300000, 'unicode_decomposition': 200000,
    'unicode_recomposition': 50000,
}
ERR = {'EIO': 5, 'EINTR': 4, 'ENOSPC': 28, 'EFBIG': 27,
       'EDQUOT': 122, 'ENOENT': 2, 'EMFILE': 24, 'EACCES': 13, 'ENOMEM': 12}
RENAMES = ['fopen', 'fopen64', 'open', 'open64', 'read', 'write', 'close', 'exit', '_exit', 'abort',
           'malloc', 'calloc', 'realloc', 'fdopen', 'fclose', 'atexit', 'error']
SYNTHETIC = 12                  # made-up data files per base seed


# ------------------------------------------------------------------- build --
def build(work):
    """Build the C generator of the current tree in its simulated environment."""
    tree = os.path.join(work, 'tree')
    shutil.copytree(REPO, tree, symlinks=True,
                    ignore=lambda d, n: [x for x in n if d == REPO and
                                         x in ('.git', 'stage', '.sconsign.dblite')])
    env = dict(os.environ, FSARCHS='linux64', FSCC='gcc',
               FSCCFLAGS='-Wno-error', LANG='C.UTF-8')
    for v in ('FSLINKFLAGS', 'FSAR', 'FSRANLIB', 'BUILD_NUMBER'):
        env.pop(v, None)
    out = 'stage/linux64/build/src'
    simbuild.run(['scons', '-j8', out + '/gen_idna_table'], cwd=tree, env=env)
    objs = []
    for o in sorted(os.listdir(os.path.join(tree, out))):
        if not o.endswith('.o'):
            continue
        q = os.path.join(work, o)
        ren = ['--redefine-sym', '__assert_fail=gs_assert_fail',
               '--redefine-sym', 'err=gs_err', '--redefine-sym', 'errx=gs_errx']
        for s in RENAMES:
            ren += ['--redefine-sym', '%s=gs_%s' % (s, s)]
        simbuild.run(['objcopy'] + ren + ['--redefine-sym', 'main=gen_main',
                                          os.path.join(tree, out, o), q])
        objs.append(q)
    exe = os.path.join(work, 'gensim')
    simbuild.run(['gcc', '-O2', '-Wall', '-o', exe,
                  os.path.join(GEN, 'gensim.c')] + objs)
    real = os.path.join(tree, out, 'gen_idna_table')
    return exe, real, tree


# ------------------------------------------------------------------- input --
def synthetic(seed):
    """A data file in the format of IdnaMappingTable.txt that covers every
    codepoint once."""
    r = random.Random('data-%s' % seed)
    out = ['# made-up data %s\n' % seed, '\n']
    cp, status = 0, ['valid', 'mapped', 'ignored', 'disallowed', 'deviation',
                     'disallowed_STD3_valid', 'disallowed_STD3_mapped']
    forced = ['valid', 'mapped', 'valid', 'mapped']
    n = 0
    while cp < 0x110000:
        last = min(0x10ffff, cp + int(2 ** r.uniform(0, r.choice([1, 4, 9, 16]))))
        if n < 24:
            last = min(last, cp + 99)
        if n > 200:
            last = 0x10ffff
        s = forced[n - 20] if 20 <= n < 24 else r.choice(status)
        if ('mapped' in s or s == 'deviation') and last > cp + 99:
            s = 'disallowed'
        line = '%04X' % cp + ('..%04X' % last if last > cp else '')
        line = '%-14s; %s' % (line, s)
        if 'mapped' in s or s == 'deviation':
            line += ' ; ' + ' '.join('%04X' % r.choice(
                [r.randrange(0x20, 0x7f), r.randrange(0xa0, 0xd800),
                 r.randrange(0x10000, 0x110000)])
                for _ in range(r.randrange(1, 6)))
        elif s == 'valid' and r.random() < .2:
            line += ' ; ; NV8'
        out.append(line + ' # ' + 'x' * r.randrange(30) + '\n')
        if r.random() < .05:
            out.append(r.choice(['\n', '# remark\n']))
        cp = last + 1
        n += 1
    if r.random() < .5:
        out += ['\n', '# EOF\n']
    return out


def is_data(line):
    return ';' in line.split('#')[0]


class Plan:
    """text: one item to a line; the generator's environment reads reads,
    writes, inbuf, outbuf and fault, the rest is carried out here"""

    def __init__(self, text):
        self.lines = [x for x in text.splitlines() if x and x[0] != '#']
        d = dict(x.split(' ', 1) for x in self.lines if ' ' in x)
        self.gen, self.input = d['gen'], d['input']

    def text(self):
        return '\n'.join(self.lines + [''])

    def items(self):
        return [i for i, x in enumerate(self.lines)
                if x.split()[0] not in ('fsdyn-gen-plan', 'gen', 'input')]

    def faults(self):
        return [x for x in self.lines if x.split()[0] in ('fault', 'line')]

    def without(self, drop):
        return Plan('\n'.join(x for i, x in enumerate(self.lines)
                              if i not in drop))


class World:
    def __init__(self, work):
        self.work = work
        self.exe, self.real, self.tree = build(work)
        self.data, self.refs, self.n = {}, {}, 0
        self.lock = threading.Lock()

    def lines(self, gen, spec):
        """The data file(s) as lists of lines."""
        key = (gen, spec)
        if key not in self.data:
            w = spec.split()
            if w[0] == 'made':
                self.data[key] = [synthetic(w[1])]
            else:
                names = (['idna/IdnaMappingTable.txt'] if gen == 'idna_table' else
                         ['unicode/%s.txt' % x for x in PY[gen][1:]])
                fs = [open(os.path.join(self.tree, x)).readlines() for x in names]
                if w[0] == 'slice':
                    a, b = int(w[1]), int(w[2])
                    k = len(fs[0])
                    fs[0] = fs[0][k * a // 1000:k * b // 1000]
                self.data[key] = fs
        return self.data[key]

    def damaged(self, plan):
        fs = [list(x) for x in self.lines(plan.gen, plan.input)]
        f = fs[0]
        for x in plan.lines:
            w = x.split()
            if w[0] != 'line' or not f:
                continue
            i = int(w[2]) % len(f)
            if w[1] == 'drop':
                del f[i:i + int(w[3])]
            elif w[1] == 'repeat':
                f[i:i] = f[i:i + int(w[3])]
            elif w[1] == 'lose':   # the file ends here
                del f[i:]
            elif w[1] == 'cut':    # within a line that is not the last one
                last = max([k for k, y in enumerate(f) if is_data(y)] or [0])
                if last:
                    i %= last
                    f[i] = f[i][:int(w[3]) % (len(f[i]) + 1)]
                    del f[i + 1:]
        return fs

    def execute(self, plan):
        with self.lock:
            self.n += 1
            base = os.path.join(self.work, 'x%d' % self.n)
        names = []
        try:
            with open(base + '.plan', 'w') as f:
                f.write(plan.text())
            names.append(base + '.plan')
            for k, x in enumerate(self.damaged(plan)):
                names.append('%s.%d' % (base, k))
                with open(names[-1], 'w') as f:
                    f.writelines(x)
            if plan.gen == 'idna_table':
                cmd = [self.exe, names[0], names[1]]
            else:
                cmd = [sys.executable, os.path.join(GEN, 'pygen.py'), names[0],
                       os.path.join(self.tree, 'src', PY[plan.gen][0] + '.py')
                       ] + names[1:]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, timeout=150,
                               stderr=subprocess.DEVNULL, text=True, cwd=self.work)
            if p.returncode < 0:
                return {'outcome': 'crash', 'rc': -p.returncode, 'size': 0,
                        'hash': '', 'trace': 'signal'}
            return json.loads(p.stdout)
        except (subprocess.TimeoutExpired, ValueError):
            return {'outcome': 'error'}
        finally:
            for x in names:
                os.remove(x)

    def reference(self, gen, spec):
        with self.lock:
            key = (gen, spec)
            ev = self.refs.setdefault(key, [threading.Lock(), None])
        with ev[0]:
            if ev[1] is None:
                ev[1] = self.execute(Plan('gen %s\ninput %s' % key))
            return ev[1]

    def judge(self, plan):
        """(class, message, outcome); class None: the property held"""
        ref = self.reference(plan.gen, plan.input)
        if ref['outcome'] == 'error' or ref.get('rc') != 0 or \
                ref['outcome'] != 'exit':
            return ('no-reference', '', ref)
        r = self.execute(plan)
        if r['outcome'] == 'error':
            return ('error', '', r)
        if r['outcome'] == 'hang':
            return (('hang', 'no-progress'),
                    '%s goes on for ever' % plan.gen, r)
        if r['outcome'] == 'exit' and r['rc'] == 0:
            if (r['size'], r['hash']) != (ref['size'], ref['hash']):
                return (('model', 'wrong-table'),
                        '%s reported success with %d bytes of output that differ '
                        'from the %d bytes of the complete table' %
                        (plan.gen, r['size'], ref['size']), r)
            return (None, '', r)
        struck = sum(r.get(k, 0) for k in ('f_open', 'f_read', 'f_write', 'f_alloc'))
        if r['outcome'] != 'crash' and not struck and not any(
                x.startswith('line') for x in plan.lines):
            return (('model', 'refused'),
                    '%s failed (%s %d) though nothing but the size of transfers '
                    'was varied' % (plan.gen, r['outcome'], r['rc']), r)
        return (None, '', r)


# -------------------------------------------------------------- generation --
def generate(base, idx):
    r = random.Random('%s-%s' % (base, idx))
    out = ['fsdyn-gen-plan 1']
    x = r.random()
    gens = sorted(PY)
    if x < .5:
        gen = 'idna_table'
    elif x < .97:
        gen = r.choice(FAST)
    else:
        gen = r.choice([g for g in gens if g not in FAST])
    out.append('gen ' + gen)
    if gen == 'idna_table':
        nin = r.choice([12000, 12000, 800000])
        out.append('input ' + ('made %s.%d' % (base, r.randrange(SYNTHETIC))
                               if r.random() < .6 else 'real'))
        nout = 350000
    else:
        a = r.randrange(0, 900, 100)
        out.append('input ' + ('real' if r.random() < .3 or gen not in FAST else
                               'slice %d %d' % (a, a + 100)))
        nin, nout = 2000000, OUTPUT[gen]
        if 'slice' in out[-1]:
            nin, nout = nin // 10, nout // 10

    def sizes():
        k = r.choice([1, 7, 100, 511, 4096, 60000])
        return ' '.join(str(r.randrange(1, k + 1)) for _ in range(r.randrange(1, 9)))

    # a small transfer size throughout makes a run long
    if r.random() < .5:
        out.append('reads ' + sizes())
    if r.random() < .5:
        out.append('writes ' + sizes())
    if r.random() < .4:
        out.append('inbuf %d' % r.choice([16, 61, 512, 1000, 65536]))
    if r.random() < .4:
        out.append('outbuf %d' % r.choice([16, 61, 512, 1000, 65536]))
    n = r.choice([0, 1, 1, 1, 2, 3])
    for _ in range(n):
        k = r.random()
        times = r.choice([1, 1, 2, -1])
        if gen == 'idna_table' and k < .3:
            kind = r.choice(['drop', 'repeat', 'lose', 'cut', 'cut'])
            at = r.randrange(10000) if r.random() < .6 else -r.randrange(1, 30)
            out.append('line %s %d %d' % (kind, at, r.randrange(100) if kind == 'cut'
                       else r.randrange(1, 4)))
        elif k < .55:
            at = r.choice([r.randrange(nin), r.randrange(nin), r.randrange(8192),
                           -r.randrange(1, 400)])
            if gen == 'unicode_recomposition' and r.random() < .5:
                at = r.randrange(8192)      # in the file of exclusions
            e = r.choice(['EIO', 'EIO', 'EINTR', 'EINTR'])
            # an interrupted read may be repeated: it does not go on for ever
            out.append('fault r %d %d %d' % (at, ERR[e], times if e == 'EIO' else
                                             abs(times)))
        elif k < .62:
            out.append('fault o 0 %d %d' % (ERR[r.choice(
                ['ENOENT', 'EMFILE', 'EACCES'])], times))
        elif k < .9 or gen != 'idna_table':
            at = r.choice([0, r.randrange(nout), r.randrange(nout), -r.randrange(1, 5000)])
            out.append('fault w %d %d %d' % (at, ERR[r.choice(
                ['ENOSPC', 'ENOSPC', 'EIO', 'EFBIG', 'EDQUOT'])], times))
        else:
            out.append('fault a %d 12 %d' % (int(2 ** r.uniform(0, 20)), times))
    return '\n'.join(out + [''])


def resolve(world, plan):
    """Offsets from the end become plain ones."""
    out = []
    for x in plan.lines:
        w = x.split()
        if w[0] == 'fault' and int(w[2]) < 0:
            if w[1] == 'r':
                total = sum(len(y.encode()) for y in
                            world.lines(plan.gen, plan.input)[0])
            else:
                total = world.reference(plan.gen, plan.input).get('size', 0)
            w[2] = str(max(0, total + int(w[2])))
        out.append(' '.join(w))
    return Plan('\n'.join(out))


def minimise(world, plan, cls, deadline):
    tried = 0
    again = True
    while again:
        again = False
        for i in plan.items():
            q = plan.without({i})
            if time.time() > deadline:
                return plan, tried
            tried += 1
            if world.judge(q)[0] == cls:
                plan, again = q, True
                break
    return plan, tried


# --------------------------------------------------------------------- main --
def main():
    t0 = time.time()
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough') or '--thorough' in sys.argv:
        tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    with open(os.path.join(VERIF, 'budget.json')) as f:
        b = json.load(f)[prop]
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    work = tempfile.mkdtemp(prefix='fsdyn-gen-')
    try:
        try:
            world = World(work)
        except simbuild.BuildError as e:
            say('build failed: %s' % e)
            return 2
        if '--replay' in sys.argv:
            path = sys.argv[sys.argv.index('--replay') + 1]
            cls, msg, r = world.judge(Plan(open(path).read()))
            say(json.dumps(r))
            if isinstance(cls, tuple):
                say('%s/%s: %s' % (cls + (msg,)))
                say('VIOLATION property=%s replay=%s' % (prop, path))
                return 1
            return 2 if cls else 0
        runs = int(os.environ.get('FSDYN_SIM_RUNS', 0)) or b[tier]
        return search(world, prop, tier, seed, runs,
                      100 if tier == 'quick' else 700, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def search(world, prop, tier, seed, runs, wall, t0):
    ts = time.time()
    results, stop = {}, threading.Event()

    def one(idx):
        if stop.is_set() or time.time() - ts > wall:
            return
        plan = resolve(world, Plan(generate(seed, idx)))
        results[idx] = (plan,) + world.judge(plan)
        if sum(1 for x in list(results.values()) if isinstance(x[1], tuple)) >= 3:
            stop.set()

    # every reference on real data first: those of the slow generators take long
    slow = [g for g in PY if g not in FAST]
    with ThreadPoolExecutor(8) as ex:
        for g in slow + ['idna_table'] + FAST:
            ex.submit(world.reference, g, 'real')
        list(ex.map(one, range(runs)))
    took = time.time() - ts
    native = subprocess.run([world.real, os.path.join(
        world.tree, 'idna/IdnaMappingTable.txt')], stdout=subprocess.PIPE)
    h = 0xcbf29ce484222325
    for c in native.stdout:
        h = (h ^ c) * 0x100000001b3 & 0xffffffffffffffff
    faithful = native.returncode == 0 and \
        '%016x' % h == world.reference('idna_table', 'real').get('hash')

    # determinism
    mism = []
    good = sorted(i for i, x in results.items() if x[1] is None)
    for i in good[::max(1, len(good) // 5)][:5]:
        if world.judge(results[i][0])[2] != results[i][3]:
            mism.append(i)

    faults, traces, nontrivial, kinds, by_gen = {}, set(), set(), {}, {}
    fields = dict(f_open='refused opens', f_read='read errors',
                  f_write='write errors', f_alloc='refused allocations',
                  short_reads='short reads', short_writes='short writes')
    outcomes = {'complete table': 0, 'failed': 0, 'aborted': 0, 'crashed': 0}
    calls = 0
    for plan, cls, msg, r in results.values():
        if cls in ('no-reference', 'error'):
            kinds[cls] = kinds.get(cls, 0) + 1
            continue
        by_gen[plan.gen] = by_gen.get(plan.gen, 0) + 1
        calls += r.get('calls', 0)
        hit = 0
        for k, v in fields.items():
            faults[v] = faults.get(v, 0) + r.get(k, 0)
            hit += r.get(k, 0)
        for x in plan.lines:
            if x.startswith('line'):
                k = 'lines: ' + x.split()[1]
                faults[k] = faults.get(k, 0) + 1
                hit += 1
        t = (plan.gen, plan.input, r['trace'], r['outcome'], r['rc'])
        traces.add(t)
        if hit:
            nontrivial.add(t)
        o = {'abort': 'aborted', 'crash': 'crashed'}.get(
            r['outcome'], 'complete table' if r['rc'] == 0 else 'failed')
        outcomes[o] += 1
    known, reported, unstable, seen_known = known_findings(prop), [], 0, {}
    done = set()
    for i in sorted(results):
        plan, cls, msg, r = results[i]
        if not isinstance(cls, tuple) or (cls, plan.gen) in done:
            continue
        hit = [k for k in known if k[0] == cls[0] and k[1] == cls[1] and
               (not k[2] or re.search(k[2], msg))]
        if hit:
            seen_known[hit[0][3]] = seen_known.get(hit[0][3], 0) + 1
            continue
        if world.judge(plan)[:3] != (cls, msg, r):
            unstable += 1
            continue
        done.add((cls, plan.gen))
        best, tried = minimise(world, plan, cls, time.time() + 40)
        a = world.judge(best)
        if a[0] != cls or world.judge(best) != a:
            best, a = plan, (cls, msg, r)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-seed%d-run%d.plan' % (prop, seed, i))
        with open(path, 'w') as o:
            o.write('# property %s, base seed %d, run %d\n# %s/%s: %s\n'
                    '# minimised from %d to %d items in %d replays\n'
                    '# replay: python3 gencheck.py %s --replay %s\n' %
                    (prop, seed, i, cls[0], cls[1], a[1], len(plan.items()),
                     len(best.items()), tried, prop, path))
            o.write(best.text())
        reported.append({'class': cls, 'run': i, 'message': a[1],
                         'replay': path, 'items': best.items()})
        say('%s/%s: %s (%d plan items after minimisation)' %
            (cls + (a[1], len(best.items()))))
        say('VIOLATION property=%s replay=%s' % (prop, path))
    for t in known:
        say('KNOWN-FINDING: property=%s %s' % (prop, t[3]))
    nruns = len(results) - sum(kinds.values())
    samples = [{'index': i, 'plan': results[i][0].lines, 'outcome': results[i][3]}
               for i in sorted(results) if results[i][0].faults()][:3]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': nruns,
            'distinct_nontrivial': len(nontrivial),
            'rule': 'one evaluation is one execution of a generator on simulated '
                    'devices under a plan generated from (base seed, run index); '
                    'non-trivial when a fault struck, a transfer was cut short or '
                    'lines were damaged; distinct by generator, data, sequence of '
                    'device requests and outcome',
            'samples': samples,
            'runs_per_hour': round(3600 * nruns / max(took, 1e-6)),
            'seeds': 'run indices 0..%d of base seed %d' % (runs - 1, seed),
            'runs_planned': runs,
            'runs_by_generator': by_gen,
            'distinct_interleavings': len(traces),
            'interleaving_measure': 'distinct sequences of device requests',
            'simulated_time': 'no clock: %d device requests' % calls,
            'faults_injected': faults,
            'outcomes': outcomes,
            'runs_without_verdict': kinds,
            'determinism_selfcheck': {'runs_rechecked': min(5, len(good)),
                                      'mismatches': mism},
            'simulated_output_equals_native_output': faithful,
            'unreproducible_failures': unstable,
            'known_findings_seen': seen_known,
            'real_code': 'the generators (gen_idna_table built by the '
                         "repository's own build, the scripts as they are), the "
                         'stdio of libc and the io layers of Python',
            'stubbed': 'the devices below them: opening, reading, writing, '
                       'allocation of the C generator, exit and abort',
            'violations_reported': reported,
        },
        'assumptions': ['a data file whose lines are lost or repeated does so in '
                        'whole lines, or ends early before its last data line'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(reported),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    say('%s %s: %d runs, %d distinct non-trivial, %d device requests, %.1f s '
        'search, %.1f s in all; %s' % (prop, tier, nruns, len(nontrivial), calls,
                                       took, time.time() - t0, outcomes))
    if reported:
        return 1
    if unstable or not nruns or kinds.get('error', 0) > nruns // 10:
        say('no verdict: %d failures that do not reproduce, %s' % (unstable, kinds))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
