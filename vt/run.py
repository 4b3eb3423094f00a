"""Runs probe executables over case files, isolating crashes and hangs."""
import concurrent.futures as cf
import os
import signal
import subprocess
import tempfile

SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:handle_abort=0:allocator_may_return_null=1:'
                    'detect_stack_use_after_return=1:malloc_context_size=5',
    'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=1',
    'LC_ALL': 'C',
}


class Case:
    __slots__ = ('cid', 'en', 'api', 'root', 'boom', 'toks', 'meta', 'obs')

    def __init__(self, toks, en='', api='r', root='k', boom='n', meta=None):
        self.toks, self.en, self.api, self.root, self.boom = list(toks), en or '0', api, root, boom
        self.cid, self.meta = None, meta

    def line(self):
        return ' '.join([str(self.cid), self.en, self.api + self.root + self.boom] +
                        [t.hex() or '_' for t in self.toks])

    def show(self):
        return ' '.join(repr(t)[1:] for t in self.toks) + (f' [en={self.en}]' if self.en != '0' else '') \
            + f' <{self.api}{self.root}{self.boom}>'


class Obs:
    """What the monitor saw for one case."""
    __slots__ = ('calls', 'routes', 'status', 'msg', 'extra')

    def __init__(self, calls, routes, status, msg, extra=()):
        self.calls, self.routes, self.status, self.msg, self.extra = calls, routes, status, msg, extra

    def __repr__(self):
        m = self.msg.decode('utf-8', 'replace') if self.msg else ''
        return f'{self.status} calls={self.calls} {self.routes or ""} {m}'.strip()


def open_terminal(cols):
    """A pseudo terminal of the given width, or None."""
    import fcntl
    import pty
    import struct
    import termios
    m, s = pty.openpty()
    fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack('HHHH', 50, cols, 0, 0))
    return m, s


def _run_batch(exe, cases, tmo, cols=None):
    with tempfile.TemporaryDirectory(prefix='vt_') as d:
        inp, out = os.path.join(d, 'in'), os.path.join(d, 'out')
        with open(inp, 'w') as f:
            for c in cases:
                f.write(c.line() + '\n')
        with open(os.path.join(d, 'err'), 'wb') as err:
            term = open_terminal(cols) if cols is not None else None
            try:
                p = subprocess.run(([exe] if isinstance(exe, str) else list(exe)) + [inp, out], stdout=subprocess.DEVNULL, stderr=err,
                                   stdin=term[1] if term else subprocess.DEVNULL,
                                   timeout=tmo, env={**os.environ, **SAN_ENV}, cwd=d)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            finally:
                for fd in term or ():
                    os.close(fd)
        res = {}
        if os.path.exists(out):
            for line in open(out, errors='replace'):
                if not line.endswith('\n'):
                    break
                f = line.rstrip('\n').split('\t')
                if len(f) < 5:
                    break
                res[int(f[0])] = Obs(int(f[1]), '' if f[2] == '-' else f[2], f[3],
                                     bytes.fromhex(f[4]), tuple(f[5:]))
        err = open(os.path.join(d, 'err'), errors='replace').read()
    return res, rc, err


def _sig(rc):
    if rc == 'timeout':
        return 'TIMEOUT'
    try:
        return 'CRASH'
    except Exception:
        return 'CRASH'


def _summary(err):
    keep = [x for x in err.splitlines() if 'ERROR:' in x or 'runtime error' in x or 'Assertion' in x
            or 'SUMMARY' in x or 'what()' in x]
    fr = [x.strip() for x in err.splitlines() if x.strip().startswith('#') and 'arg_router' in x]
    return (' | '.join(keep[:3]) + (' @ ' + fr[0][:200] if fr else ''))[:600] or err[-300:]


def run_cases(exe, cases, tmo=30, batch=None, jobs=8, max_crashes=25, cols=None):
    """Returns list of Obs parallel to cases.  A case on which the process dies is CRASH, a case that
    exceeds the watchdog twice is TIMEOUT."""
    for i, c in enumerate(cases):
        c.cid = i
    batch = batch or max(1, (len(cases) + jobs - 1) // jobs)
    chunks = [cases[i:i + batch] for i in range(0, len(cases), batch)]
    obs = [None] * len(cases)

    def do(chunk):
        todo = list(chunk)
        crashes = 0
        while todo:
            res, rc, err = _run_batch(exe, todo, tmo, cols)
            for i, o in res.items():
                obs[i] = o
            left = [c for c in todo if c.cid not in res]
            if not left:
                if rc not in (0,):
                    # all answered, yet the process did not end cleanly
                    obs[todo[-1].cid] = Obs(0, '', 'CRASH', ('at exit: ' + _summary(err)).encode())
                return
            bad = left[0]
            if rc == 3:
                raise RuntimeError('probe could not read its input')
            if rc == 'timeout':
                res2, rc2, err2 = _run_batch(exe, [bad], tmo, cols)
                if bad.cid in res2:
                    obs[bad.cid] = res2[bad.cid]
                elif rc2 == 'timeout':
                    obs[bad.cid] = Obs(0, '', 'TIMEOUT', b'')
                else:
                    obs[bad.cid] = Obs(0, '', 'CRASH', _summary(err2).encode())
            else:
                # confirm alone (a crash that needs the preceding cases is kept as is)
                obs[bad.cid] = Obs(0, '', 'CRASH', (f'rc={rc} ' + _summary(err)).encode())
            crashes += 1
            if obs[bad.cid].status == 'TIMEOUT':
                crashes = max_crashes
            todo = left[1:]
            if crashes >= max_crashes:
                for c in todo:
                    obs[c.cid] = Obs(0, '', 'SKIPPED', b'')
                return

    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(do, chunks))
    return obs


def run_cases_into(exe, cases, **kw):
    """Stores each observation in its case."""
    for c, o in zip(cases, run_cases(exe, cases, **kw)):
        c.obs = o
