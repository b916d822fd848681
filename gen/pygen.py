"""Simulated environment for a table generator written in Python.

usage: pygen.py PLAN SCRIPT INPUT...  -- prints the outcome, one line of JSON

The script runs in this process. The files it opens and its standard output are
Python's own buffered text streams over simulated devices under the plan.
"""
import builtins, hashlib, io, json, os, sys

sizes = {'reads': [], 'writes': []}
bufs = {'inbuf': 0, 'outbuf': 0}
faults = []
n = dict(calls=0, reads=0, writes=0, f_open=0, f_read=0, f_write=0, f_alloc=0,
         short_reads=0, short_writes=0, allocs=0)
FNV = 0x100000001b3
state = {'trace': 0xcbf29ce484222325}
sink = []
CALL_CAP = 5000000


class Hang(BaseException):
    pass


class ShellExit(BaseException):
    pass


def call(kind, size):
    state['trace'] = ((state['trace'] ^ (ord(kind) << 56 | size)) * FNV) % 2 ** 64
    n['calls'] += 1
    if n['calls'] > CALL_CAP:
        raise Hang()


def strikes(kind, pos, size):
    """The size that may be transferred at pos; raises if a fault strikes."""
    for f in faults:
        if f[0] != kind or not f[3]:
            continue
        if f[1] <= pos:
            if f[3] > 0:
                f[3] -= 1
            n[{'o': 'f_open', 'r': 'f_read', 'w': 'f_write'}[kind]] += 1
            raise OSError(f[2], os.strerror(f[2]))
        size = min(size, f[1] - pos)
    return size


class Input(io.RawIOBase):
    def __init__(self, data):
        self.data, self.pos = data, 0

    fd = -1

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def readable(self):
        return True

    def readinto(self, b):
        call('r', len(b))
        k = strikes('r', self.pos, len(b))
        k = min(k, len(self.data) - self.pos)
        if sizes['reads'] and k and k == len(b):
            s = sizes['reads'][n['reads'] % len(sizes['reads'])]
            if s < k:
                k = s
                n['short_reads'] += 1
        n['reads'] += 1
        b[:k] = self.data[self.pos:self.pos + k]
        self.pos += k
        return k


class Output(io.RawIOBase):
    size = 0

    def fileno(self):
        return 1

    def isatty(self):
        return False

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        call('w', len(b))
        k = strikes('w', self.size, len(b))
        if sizes['writes'] and k:
            s = sizes['writes'][n['writes'] % len(sizes['writes'])]
            if s < k:
                k = s
                n['short_writes'] += 1
        n['writes'] += 1
        sink.append(b[:k])
        self.size += k
        return k


def main():
    plan, script, inputs = sys.argv[1], sys.argv[2], sys.argv[3:]
    for line in open(plan):
        w = line.split()
        if w and w[0] in sizes:
            sizes[w[0]] = [int(x) for x in w[1:]]
        elif w and w[0] in bufs:
            bufs[w[0]] = int(w[1])
        elif w and w[0] == 'fault':
            faults.append([w[1]] + [int(x) for x in w[2:]])
    data = {}
    for p in inputs:
        with open(p, 'rb') as f:
            data[p] = f.read()
    with open(script) as f:
        code = compile(f.read(), script, 'exec')
    real_open, real_exit = io.open, os._exit

    real_os_open, real_read, real_write = os.open, os.read, os.write
    fds, out = {}, Output()

    def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
                 newline=None, *a, **k):
        if file == 1:
            b = io.BufferedWriter(out, bufs['outbuf'] or 8192)
            return (out if buffering == 0 else b if 'b' in mode else
                    io.TextIOWrapper(b, encoding or 'utf-8', errors, newline))
        if isinstance(file, os.PathLike):
            file = os.fspath(file)
        if file not in data or set(mode) - set('rtb'):
            return real_open(file, mode, buffering, encoding, errors, newline,
                             *a, **k)
        raw = fds.get(file)
        if not raw:
            call('o', 0)
            strikes('o', 0, 0)
            raw = Input(data[file])
            raw.fd = 1000 + len(fds)
            fds[raw.fd] = raw
            data[raw.fd] = data[file]
        if buffering == 0:
            return raw
        b = io.BufferedReader(raw, bufs['inbuf'] or 8192)
        if 'b' in mode:
            return b
        return io.TextIOWrapper(b, encoding or 'utf-8', errors, newline)

    def sim_os_open(path, flags, *a, **k):
        if path not in data:
            return real_os_open(path, flags, *a, **k)
        call('o', 0)
        strikes('o', 0, 0)
        fd = 1000 + len(fds)
        fds[fd] = Input(data[path])
        fds[fd].fd = fd
        data[fd] = data[path]
        return fd

    def sim_read(fd, k):
        return fds[fd].read(k) if fd in fds else real_read(fd, k)

    def sim_write(fd, b):
        return out.write(b) if fd == 1 else real_write(fd, b)

    os.open, os.read, os.write = sim_os_open, sim_read, sim_write
    builtins.open = io.open = sim_open
    sys.stdout = sys.__stdout__ = io.TextIOWrapper(
        io.BufferedWriter(out, bufs['outbuf'] or 8192), 'utf-8')

    def shell_exit(rc):
        raise ShellExit(rc)
    os._exit = shell_exit
    sys.argv = [script] + inputs
    outcome, rc = 'exit', 0
    try:
        try:
            exec(code, {'__name__': '__main__', '__file__': script})
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except Exception as e:
            rc = 1
        try:
            sys.stdout.flush()
        except Exception:
            rc = rc or 120
    except ShellExit as e:
        rc = e.args[0]
    except Hang:
        outcome = 'hang'
    blob = b''.join(sink)
    n.update(outcome=outcome, rc=rc & 0xff, size=len(blob),
             hash=hashlib.sha256(blob).hexdigest()[:16],
             trace='%016x' % state['trace'])
    real_write(1, (json.dumps(n) + '\n').encode())
    real_exit(0)


main()
