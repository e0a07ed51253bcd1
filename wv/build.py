"""Builds the compiler and the library objects from /repo's working tree into a scratch directory."""
import os, subprocess, tempfile, shutil, atexit, sys, glob, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('WV_REPO', '/repo')

class BuildError(Exception): pass

_scratch = []
def scratch(prefix='wv-'):
    d = tempfile.mkdtemp(prefix=prefix)
    _scratch.append(d)
    return d
@atexit.register
def _clean():
    if os.getpid() != _owner: return
    for d in _scratch: shutil.rmtree(d, ignore_errors=True)
_owner = os.getpid()

CLEAN_ENV = {k: v for k, v in os.environ.items() if k not in ('WCPL_LIBRARY_PATH', 'WCPL_INCLUDE_PATH')}
CLEAN_ENV['LC_ALL'] = 'C'

class Tool:
    """A built compiler with its library directory."""
    def __init__(self, root):
        self.root = root
        self.wcpl = os.path.join(root, 'wcpl')
        self.lib = os.path.join(root, 'lib') + '/'
        self.inc = os.path.join(root, 'include') + '/'
    def run(self, args, cwd=None, timeout=60):
        try:
            p = subprocess.run([self.wcpl] + list(args), cwd=cwd, env=CLEAN_ENV, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            return -99, b'', b'timeout'
    def link(self, files, out, opts=(), cwd=None):
        return self.run(['-q'] + list(opts) + ['-L', self.lib, '-I', self.inc, '-o', out] + list(files), cwd=cwd)
    def obj(self, src, out, opts=(), cwd=None):
        return self.run(['-q'] + list(opts) + ['-c', '-I', self.inc, '-o', out, src], cwd=cwd)

def build(repo=None, cflags=('-g', '-O1'), libs=True):
    repo = repo or REPO
    cache = os.environ.get('WV_CACHE')      # development aid only; unset in registered commands
    if cache:
        h = hashlib.sha1(repr(cflags).encode())
        for f in sorted(glob.glob(repo + '/*.[ch]') + glob.glob(repo + '/lib/src/*.c') + glob.glob(repo + '/lib/include/*')):
            if os.path.isfile(f): h.update(f.encode()); h.update(open(f, 'rb').read())
        root = os.path.join(cache, h.hexdigest())
        if os.path.exists(os.path.join(root, 'ok')): return Tool(root)
        os.makedirs(root, exist_ok=True)
    else:
        root = scratch('wvbuild-')
    t = Tool(root)
    ob = os.path.join(root, 'obj'); os.makedirs(ob, exist_ok=True)
    os.makedirs(t.lib, exist_ok=True)
    if os.path.exists(t.inc): shutil.rmtree(t.inc)
    shutil.copytree(os.path.join(repo, 'lib/include'), t.inc)
    def cc(f):
        o = os.path.join(ob, os.path.basename(f)[:-2] + '.o')
        p = subprocess.run(['gcc', *cflags, '-w', '-c', '-o', o, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: raise BuildError(p.stdout.decode(errors='replace'))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, sorted(glob.glob(repo + '/*.c'))))
    p = subprocess.run(['gcc', *cflags, '-o', t.wcpl] + objs + ['-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: raise BuildError(p.stdout.decode(errors='replace'))
    if libs:
        def lc(f):
            o = os.path.join(t.lib, os.path.basename(f)[:-2] + '.wo')
            rc, so, se = t.obj(os.path.basename(f), o, cwd=os.path.dirname(f))
            if rc: raise BuildError('library source %s: %s' % (f, (so + se).decode(errors='replace')))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lc, sorted(glob.glob(repo + '/lib/src/*.c'))))
    open(os.path.join(root, 'ok'), 'w').close()
    return t
