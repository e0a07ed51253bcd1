"""Runs TLC on a specification of /verif/spec and collects what it printed."""
import os, subprocess, json, re, tempfile, time
from . import build

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class ModelError(Exception):
    """The specification itself failed (parse error, TLC evaluation error, violated model invariant)."""

class TlcResult:
    pass

def run(module, cfg, data=None, workers=8, timeout=800, heap='8g', opts=(), env=None, allow=(0,), stack='256m'):
    """cfg: text of the configuration.  data: dict name -> JSON-able object, visible to the spec as
    files named by the environment variables WV_<NAME>."""
    d = build.scratch('wvtlc-')
    e = dict(build.CLEAN_ENV)
    for k, v in (data or {}).items():
        p = os.path.join(d, k + '.json')
        with open(p, 'w') as f: json.dump(v, f, separators=(',', ':'))
        e['WV_' + k.upper()] = p
    if env: e.update({k: str(v) for k, v in env.items()})
    cfgp = os.path.join(d, module + '.cfg')
    open(cfgp, 'w').write(cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss' + stack, '-DTLA-Library=' + SPEC, '-Djava.io.tmpdir=' + d,
           '-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'md'), '-noGenerateSpecTE',
           '-config', cfgp, *opts, os.path.join(SPEC, module + '.tla')]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise ModelError('TLC timed out on %s after %ss' % (module, timeout))
    out = p.stdout.decode(errors='replace')
    r = TlcResult(); r.rc = p.returncode; r.out = out; r.wall = time.time() - t0
    r.prints = []
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"'):
            try: s = json.loads(line)
            except ValueError: continue
            if s[:1] in '[{':
                try: r.prints.append(json.loads(s))
                except ValueError: pass
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    r.generated, r.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    m = re.findall(r'Progress: (\d+) states checked', out)
    if not r.generated and m: r.generated = r.distinct = int(m[-1])
    if p.returncode not in allow:
        i = max(out.find('Semantic errors:'), out.find('Error:'), out.find('Fatal errors'))
        raise ModelError('TLC exit %d on %s:\n%s' % (p.returncode, module, out[i if i >= 0 else -1500:][:1500]))
    return r
