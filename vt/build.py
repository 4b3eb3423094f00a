"""Compiles harness translation units against /repo's working tree, in parallel, cached by content."""
import concurrent.futures as cf
import hashlib
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
CACHE = os.path.join(HERE, 'build')
JOBS = int(os.environ.get('VT_JOBS', os.cpu_count() or 4))

PLAIN = ['-O0', '-D_GLIBCXX_ASSERTIONS']
SAN = ['-O0', '-g1', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined',
       '-fno-sanitize-recover=all', '-fno-omit-frame-pointer',
       '-fsanitize-ignorelist=' + os.path.join(HERE, 'cpp', 'ubsan_ignore.txt')]
TSAN = ['-O1', '-g1', '-fsanitize=thread']

_hash = None


def tree_hash():
    """Content hash of everything under /repo/include and of our own C++ headers."""
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for base in (os.path.join(REPO, 'include'), os.path.join(HERE, 'cpp')):
            for d, ds, fs in os.walk(base):
                ds.sort()
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, base).encode())
                    with open(p, 'rb') as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
        _hash = h.hexdigest()
    return _hash


class Unit:
    """One translation unit -> one executable."""

    def __init__(self, name, src, flags=PLAIN, cxx='clang++', std='c++20', libs=(), link=True):
        self.name, self.src, self.flags = name, src, list(flags)
        self.cxx, self.std, self.libs, self.link = cxx, std, list(libs), link
        self.exe = self.err = None
        self.ok = False

    def key(self):
        h = hashlib.sha256()
        for x in (tree_hash(), self.src, repr(self.flags), self.cxx, self.std, repr(self.libs),
                  str(self.link)):
            h.update(x.encode() + b'\0')
        return h.hexdigest()[:32]


def short_errors(text, n=6):
    lines = [x for x in text.splitlines()
             if re.search(r'error|static assertion|static_assert|undefined reference', x)]
    return [x[:300] for x in lines[:n]]


def compile_one(u, timeout=600):
    os.makedirs(CACHE, exist_ok=True)
    k = u.key()
    base = os.path.join(CACHE, k)
    if os.path.exists(base + '.exe'):
        u.exe, u.ok = base + '.exe', True
        return u
    if os.path.exists(base + '.err'):
        u.err = open(base + '.err', errors='replace').read()
        return u
    src = base + '.cpp'
    with open(src, 'w') as f:
        f.write(u.src)
    tmp = base + '.tmp%d' % os.getpid()
    cmd = [u.cxx, '-std=' + u.std] + u.flags + ['-w', '-I' + os.path.join(REPO, 'include'),
           '-I' + os.path.join(HERE, 'cpp')]
    if 'clang' in u.cxx:
        cmd += ['-ferror-limit=20', '-ftemplate-backtrace-limit=4', '-fbracket-depth=1024']
    cmd += [src] + (['-o', tmp] if u.link else ['-fsyntax-only']) + u.libs
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        u.err = 'compiler timeout'
        return u
    out = r.stdout.decode('utf-8', 'replace')
    if r.returncode < 0 or 'Killed' in out[-200:] and not short_errors(out):
        u.err = 'compiler died: %d' % r.returncode
        return u
    if r.returncode != 0:
        u.err = '\n'.join(short_errors(out, 12)) or out[:2000]
        with open(base + '.err', 'w') as f:
            f.write(u.err)
        return u
    if u.link:
        os.replace(tmp, base + '.exe')
    else:
        open(base + '.exe', 'w').close()
    u.exe, u.ok = base + '.exe', True
    return u


def compile_all(units, jobs=None):
    with cf.ThreadPoolExecutor(jobs or JOBS) as ex:
        list(ex.map(compile_one, units))
    return units


class HarnessError(Exception):
    pass


def require(units):
    """A harness that does not compile is an error of the check, not a verdict."""
    bad = [u for u in units if not u.ok]
    if bad:
        msg = '\n'.join(f'harness {u.name} does not compile:\n{u.err[:1500]}' for u in bad[:3])
        raise HarnessError(msg)
