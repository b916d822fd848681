"""Build the simulator against the current working tree of fsdyn.

The library's own build (SCons) runs in a scratch copy and produces the
generated sources; every member of libfsdyn.a is then compiled a second time
with memory-access and basic-block hooks, its calls to libc redirected to the
simulator, its static data gathered in sections of its own, and linked with the
simulator into one static executable.
"""
import hashlib, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('FSDYN_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SIM = os.path.join(VERIF, 'sim')

LIBFLAGS = ('-g -fno-pic -fno-common -fno-builtin -U_FORTIFY_SOURCE '
            '-fexceptions -fstack-protector-all '
            '-fsanitize=bounds -fsanitize-undefined-trap-on-error '
            '-fsanitize-coverage=trace-pc -w').split()
# Three builds of the library: one whose every access, static data and atomics
# included, is a point where a task can be preempted; the same unoptimised, so
# that the accesses are those of the source code (no static variable is kept in
# a register, nothing undefined is used to simplify); and one with red zones
# around local variables and static objects, and dirty local variables.
FLAVOURS = {
    '': '-O1 -fsanitize=thread --param tsan-instrument-func-entry-exit=0'.split(),
    '-o0': '-O0 -fsanitize=thread --param tsan-instrument-func-entry-exit=0'.split(),
    '-rz': ('-O1 -fsanitize=kernel-address --param asan-stack=1 '
            '--param asan-globals=1 --param asan-instrument-allocas=1 '
            '--param asan-instrumentation-with-call-threshold=0 '
            '-fsanitize-address-use-after-scope '
            '-fasan-shadow-offset=0x200000000000 '
            '-ftrivial-auto-var-init=pattern').split(),
}
CXXFLAGS = '-O2 -g -std=c++17 -fno-pic -Wall -Wno-format-truncation -pthread'.split()
SHIMS = '''strlen strnlen memcpy mempcpy memmove memset memcmp memchr strcmp
strncmp strcasecmp strchr strchrnul strrchr strstr strpbrk strspn strcspn strcpy
stpcpy strncpy strcat strtok vsnprintf snprintf vsprintf sprintf malloc calloc
realloc reallocarray free strdup strndup asprintf vasprintf abort exit _exit
gmtime localtime gmtime_r localtime_r timegm mktime strncasecmp strncat stpncpy
memrchr rawmemchr memccpy bcmp bcopy bzero explicit_bzero strtok_r strsep
posix_memalign aligned_alloc printf fprintf vfprintf puts fputs fputc fwrite
strftime asctime ctime tzset getenv strerror rand random qsort'''.split()
RENAMES = {s: 'simlib_' + s for s in SHIMS}
RENAMES.update({'__assert_fail': 'simlib_assert_fail',
                '__stack_chk_fail': 'simlib_stack_chk_fail',
                'pthread_mutex_lock': 'simlib_mutex_lock',
                'pthread_mutex_trylock': 'simlib_mutex_trylock',
                'pthread_mutex_unlock': 'simlib_mutex_unlock',
                'pthread_once': 'simlib_once'})


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def tree_files(root, skip):
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs
                         if os.path.relpath(os.path.join(d, x), root) not in skip)
        for f in sorted(files):
            if f.startswith('.sconsign'):
                continue
            yield os.path.join(d, f)


def digest(paths, root, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(os.path.relpath(p, root).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def build():
    """Return the path of the simulator executable for the current tree.

    Those of the other builds lie beside it, with -rz or -o0 appended."""
    os.makedirs(BUILD, exist_ok=True)
    with open(__file__) as f:
        me = f.read()
    skip = {'.git', 'stage', 'test'}
    key = digest(tree_files(REPO, skip), REPO, me)
    simkey = digest(tree_files(SIM, set()), SIM, me)
    hdrkey = digest(tree_files(os.path.join(REPO, 'include'), set()), REPO)
    exe = os.path.join(BUILD, 'sim-%s-%s' % (key[:12], simkey[:12]))
    if os.path.exists(exe):
        return exe
    for f in os.listdir(BUILD):  # only the latest tree is kept
        p = os.path.join(BUILD, f)
        if f.startswith(('sim-', 'lib-', 'tree-')):
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    work = os.path.join(BUILD, 'tree-%d' % os.getpid())
    shutil.copytree(REPO, work, symlinks=True,
                    ignore=lambda d, n: [x for x in n if d == REPO and
                                         x in ('.git', 'stage', '.sconsign.dblite')])
    try:
        objs = os.path.join(BUILD, 'lib-%d' % os.getpid())
        os.makedirs(objs)
        hobjs = os.path.join(BUILD, 'harness-%s-%s' % (simkey[:12], hdrkey[:12]))
        os.makedirs(hobjs, exist_ok=True)

        def harness(src):
            out = os.path.join(hobjs, os.path.basename(src) + '.o')
            if not os.path.exists(out):
                run(['g++'] + CXXFLAGS + ['-I' + os.path.join(REPO, 'include'),
                                          '-c', src, '-o', out + '.tmp'])
                os.rename(out + '.tmp', out)
            return out

        ex = ThreadPoolExecutor(10)
        hfut = [ex.submit(harness, p) for p in tree_files(SIM, set())
                if p.endswith('.cpp')]
        env = dict(os.environ, FSARCHS='linux64', FSCC='gcc',
                   FSCCFLAGS='-Wno-error', LANG='C.UTF-8')
        for v in ('FSLINKFLAGS', 'FSAR', 'FSRANLIB', 'BUILD_NUMBER'):
            env.pop(v, None)
        lib = 'stage/linux64/build/src/libfsdyn.a'
        run(['scons', '-j8', lib], cwd=work, env=env)
        members = run(['ar', 't', lib], cwd=work).split()
        syms = os.path.join(objs, 'syms')
        with open(syms, 'w') as f:
            for k, v in RENAMES.items():
                f.write('%s %s\n' % (k, v))

        def member(mf):
            m, fl = mf
            base = m[:-2]
            for d in ('stage/linux64/build/src', 'src'):
                src = os.path.join(work, d, base + '.c')
                if os.path.exists(src):
                    break
            else:
                raise BuildError('no source for ' + m)
            out = os.path.join(objs, m + fl)
            run(['gcc'] + LIBFLAGS + FLAVOURS[fl] + ['-I' + os.path.join(work, 'include'),
                                      '-I' + os.path.join(work, 'src'),
                                      '-c', src, '-o', out])
            run(['objcopy', '--set-section-flags', '.bss=alloc,load,contents,data',
                 '--rename-section', '.bss=simbss',
                 '--rename-section', '.data=simdata',
                 '--redefine-syms', syms, out])
            return out

        lfut = {fl: [ex.submit(member, (m, fl)) for m in members]
                for fl in FLAVOURS}
        lobjs = {fl: [f.result() for f in fs] for fl, fs in lfut.items()}
        ho = [f.result() for f in hfut]
        for fl in FLAVOURS:
            flag = os.path.join(objs, 'flavour%s.c' % fl)
            with open(flag, 'w') as f:
                f.write('const int sim_redzones = %d, sim_literal = %d;\n' %
                        (fl == '-rz', fl == '-o0'))
            run(['gcc', '-c', flag, '-o', flag + '.o'])
            run(['g++', '-static', '-no-pie', '-pthread', '-o',
                 exe + fl + '.tmp'] + ho + [flag + '.o'] + lobjs[fl])
        blocks = {}
        for o in lobjs['']:
            n = run(['readelf', '-rW', o]).count('__sanitizer_cov_trace_pc')
            blocks[os.path.basename(o)] = n
        with open(exe + '.json', 'w') as f:
            json.dump({'blocks': sum(blocks.values()), 'by_object': blocks}, f)
        for fl in ('-rz', '-o0'):
            os.rename(exe + fl + '.tmp', exe + fl)
        os.rename(exe + '.tmp', exe)
        for f in os.listdir(BUILD):
            if f.startswith('harness-') and f != os.path.basename(hobjs):
                shutil.rmtree(os.path.join(BUILD, f))
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(os.path.join(BUILD, 'lib-%d' % os.getpid()),
                      ignore_errors=True)
    return exe


if __name__ == '__main__':
    try:
        print(build())
    except BuildError as e:
        sys.stderr.write('build failed: %s\n' % e)
        sys.exit(2)
