"""Building the drivers from /repo, running them, and checking what they
recorded with TLC."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4

FLAGS = ['-std=c++17', '-g0', '-DVALIJSON_USE_EXCEPTIONS=1', '-DPICOJSON_USE_INT64',
         '-DBOOST_BIND_GLOBAL_PLACEHOLDERS', '-fPIC', '-w',
         '-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(REPO, 'include'),
         '-isystem', '/usr/include/jsoncpp',
         '-isystem', '/usr/include/x86_64-linux-gnu/qt6/QtCore',
         '-isystem', '/usr/include/x86_64-linux-gnu/qt6']
LINK = {'poco': ['-lPocoJSON', '-lPocoFoundation'], 'qtjson': ['-lQt6Core'],
        'qvariant': ['-lQt6Core'], 'jsoncpp': ['-ljsoncpp'], 'yaml': ['-lyaml-cpp']}
ALL_LIBS = ['rapidjson', 'jsoncpp', 'nlohmann', 'picojson', 'boost', 'poco', 'qtjson', 'qvariant']


# the checks of null pointers and types that 'undefined' adds double the time to compile
SANS = 'address,signed-integer-overflow,shift,bounds,integer-divide-by-zero,return,bool,enum,float-cast-overflow'


class CheckError(Exception):
    """The check itself could not run."""


class Work:
    """Scratch directory of one check run."""

    def __init__(self, prop):
        self.prop = prop
        self.dir = tempfile.mkdtemp(prefix='vj-%s-' % prop)
        self.n = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    def fresh(self, stem):
        self.n += 1
        return self.path('%s%d' % (stem, self.n))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(work, libs=('rapidjson',), extra=(), san=False, name='drv', opt='-O1', tsan=False, defs=()):
    """Compile the driver with the given JSON libraries; returns its path."""
    srcs = ['main_sv.cpp'] + ['lib_%s.cpp' % l for l in libs] + list(extra)
    flags = FLAGS + [opt] + ['-D' + d for d in defs]
    cxx = 'g++'
    if san:
        flags += ['-fsanitize=' + SANS, '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
    if tsan:
        flags += ['-fsanitize=thread', '-g1', '-pthread']
    if extra:
        flags.append('-DDRV_EXTRA')
    objs = []
    jobs = []
    for s in srcs:
        o = work.path('%s_%s.o' % (name, os.path.basename(s)))
        objs.append(o)
        jobs.append([cxx] + flags + ['-c', os.path.join(VERIF, 'harness', s), '-o', o])
    with ThreadPoolExecutor(NCPU) as ex:
        for r in ex.map(sh, jobs):
            if r.returncode:
                raise CheckError('driver does not compile:\n' + r.stdout[-4000:])
    link = []
    for l in list(libs) + list(extra):
        link += LINK.get(l.replace('files_', '').replace('.cpp', ''), [])
    if any('loose' in e for e in extra):
        link.append('-lyaml-cpp')
    if any('BOOST_REGEX' in d for d in defs):
        link.append('-lboost_regex')
    exe = work.path(name)
    r = sh([cxx] + objs + (['-fsanitize=' + SANS] if san else []) + (['-fsanitize=thread', '-pthread'] if tsan else []) + ['-o', exe] + link)
    if r.returncode:
        raise CheckError('driver does not link:\n' + r.stdout[-4000:])
    return exe


# cases that did not end in time: when there are many, wait less for the next ones
SLOW = 0


def _drive_part(work, exe, cases, limit, env):
    """Run one driver over its cases, starting it again after a crash."""
    global SLOW
    cin, out = work.fresh('cases'), work.fresh('obs')
    with open(cin, 'w') as f:
        for c in cases:
            f.write(json.dumps(c) + '\n')
    open(out, 'w').close()
    res = []
    fails = 0
    while len(res) < len(cases):
        err = work.fresh('err')
        with open(err, 'w') as ef:
            p = subprocess.run([exe, cin, out, str(len(res)), str(limit if SLOW < 6 else min(limit, 5))], stdout=subprocess.DEVNULL,
                               stderr=ef, env=env)
        with open(out) as f:
            lines = f.read().split('\n')
        good = [l for l in lines if l.endswith('}')][len(res):]
        res += [json.loads(l)['o'] for l in good]
        if len(res) < len(cases):
            if p.returncode == 0:
                raise CheckError('driver stopped early')
            kind = 'timeout' if p.returncode == -14 else 'crash'
            if kind == 'timeout':
                SLOW += 1
                fails += 4
            tail = open(err).read()[-1500:]
            os.remove(err)
            res.append({'crash': kind, 'rc': p.returncode, 'stderr': tail})
            # keep the output file in step with what has been recorded
            with open(out, 'w') as f:
                f.write(''.join('{"pad":1}\n' for _ in res))
            fails += 1
            if fails > 40:
                res += [{'crash': 'skipped'}] * (len(cases) - len(res))
        else:
            os.remove(err)
    os.remove(cin)
    os.remove(out)
    return res


def drive(work, exe, cases, limit=20, parts=None):
    """Observations of the driver for every case, in order."""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=99:detect_odr_violation=0',
               UBSAN_OPTIONS='print_stacktrace=1',
               TSAN_OPTIONS='exitcode=0:halt_on_error=0:die_after_fork=0:suppressions=' + os.path.join(VERIF, 'harness', 'tsan.supp'))
    parts = parts or min(NCPU, max(1, len(cases) // 8))
    chunks = [cases[i::parts] for i in range(parts)]
    with ThreadPoolExecutor(parts) as ex:
        rs = list(ex.map(lambda c: _drive_part(work, exe, c, limit, env), chunks))
    out = [None] * len(cases)
    for i, r in enumerate(rs):
        for j, o in enumerate(r):
            out[i + j * parts] = o
    return out


def tlc(work, module, cfg, env=None, workers=NCPU, extra=(), timeout=800, heap='4g'):
    """Run TLC; returns (exit code, output)."""
    meta = work.fresh('meta')
    os.makedirs(meta)
    cfgp = work.fresh('cfg') + '.cfg'
    with open(cfgp, 'w') as f:
        f.write(cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss512m', '-cp', JARS, 'tlc2.TLC',
           '-config', cfgp, '-metadir', meta, '-noGenerateSpecTE', '-deadlock',
           '-workers', str(workers)] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, **(env or {})), timeout=timeout, cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC ran out of time on ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def tlc_stats(out):
    import re
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def check_rows(work, module, rows, timeout=800, inv='Check'):
    """Check recorded rows against a trace specification; returns the rejected
    ones as (id, why) and the state counts."""
    if not rows:
        return [], (0, 0)
    if len(rows) > 15000:
        bad, gen, dist = [], 0, 0
        for k in range(0, len(rows), 15000):
            b, (g, d) = check_rows(work, module, rows[k:k + 15000], timeout, inv)
            bad += b
            gen, dist = gen + g, dist + d
        return bad, (gen, dist)
    path = work.fresh('rows') + '.ndjson'
    with open(path, 'w') as f:
        for r in rows:
            f.write(json.dumps(r) + '\n')
    rc, out = tlc(work, module, 'INIT Init\nNEXT Next\nINVARIANT %s\n' % inv,
                  env={'TRACE': path}, timeout=timeout)
    os.remove(path)
    gen, dist = tlc_stats(out)
    if rc != 0 or dist != len(rows):
        raise CheckError('TLC failed on %s (rc %d, %d of %d rows):\n%s' % (
            module, rc, dist, len(rows), out[-4000:]))
    bad = []
    for line in out.split('\n'):
        if line.startswith('<<"REJECT"'):
            p = line.strip('<>').split(', ', 2)
            bad.append((int(p[1]), p[2]))
    return bad, (gen, dist)


def behaviours(work, module, consts, inv=(), props=(), emit='Emit', timeout=800, simulate=None, depth=None, seed=1,
               workers=NCPU, spec=True):
    """Check a specification with TLC and collect the behaviours it emits.

    Returns the distinct emitted records and the state counts."""
    cfg = ('SPECIFICATION Spec\n' if spec else 'INIT Init\nNEXT Next\n')
    for k, v in consts.items():
        cfg += 'CONSTANT %s = %s\n' % (k, v)
    for i in list(inv) + ([emit] if emit else []):
        cfg += 'INVARIANT %s\n' % i
    for p in props:
        cfg += 'PROPERTY %s\n' % p
    extra = []
    if simulate:
        extra = ['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(seed)]
    rc, out = tlc(work, module, cfg, workers=workers, extra=extra, timeout=timeout, heap='8g')
    gen, dist = tlc_stats(out)
    if rc != 0:
        raise CheckError('TLC rejects %s (rc %d):\n%s' % (module, rc, out[-5000:]))
    seen = {}
    for line in out.split('\n'):
        if line.startswith('<<"BEHAVIOUR", '):
            body = line[len('<<"BEHAVIOUR", '):-2]
            seen.setdefault(body, None)
    recs = [json.loads(json.loads(b)) for b in seen]
    if simulate:
        gen = dist = gen or dist or len(recs)
    return recs, (gen, dist)


def model(work, module, consts, inv=(), props=(), timeout=800, spec=True):
    """Check a specification on its own; returns the state counts."""
    return behaviours(work, module, consts, inv, props, None, timeout)[1]
