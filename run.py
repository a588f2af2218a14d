#!/usr/bin/env python3
"""Driver of the property checks.

  run.py <property> quick|thorough     decide one property against /repo's working tree
  run.py --replay <file>               re-run one saved counterexample
  run.py --build-only <property>       compile everything a property needs
  run.py --explore <property> [...]    list every distinct failure (no known-findings filter), for triage

Every run compiles the library (per back end and digit configuration) and the
harness from the sources that are in /repo now; nothing is cached between runs
except by content hash under the work directory.
"""
import sys, os, subprocess, json, hashlib, time, re, shutil, glob, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'libs/e_float/src')
HARN = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
REPLAYS = os.path.join(VERIF, 'replays')
KNOWN = os.path.join(VERIF, 'known-findings.json')
NCPU = os.cpu_count() or 4
LIBS = {'efx': [], 'gmp': ['-lgmp'], 'mpfr': ['-lmpfr', '-lgmp']}
ORACLE_LIBS = ['-lmpfr', '-lgmp']

sys.path.insert(0, VERIF)
from props_meta import PROPS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'libs/e_float'), os.path.join(REPO, 'libs/math'), HARN):
        for d, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.cpp', '.h', '.hpp')) and '/test/' not in d + '/':
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
    return h.hexdigest()[:16]


def lib_sources(backend, tables):
    out = []
    for sub in ('e_float', 'functions', 'utility'):
        for p in sorted(glob.glob(os.path.join(SRC, sub, '**', '*.cpp'), recursive=True)):
            rel = os.path.relpath(p, SRC)
            parts = rel.split(os.sep)
            if 'test' in parts:
                continue
            if any(b in parts for b in ('efx', 'gmp', 'mpfr', 'f90', 'clr', 'pgs')) and backend not in parts:
                continue
            if parts[:2] == ['functions', 'tables'] and not tables:
                continue
            out.append(rel)
    return out


class Cfg:
    def __init__(self, backend, digits=0, san='', scale=1.0, opt='-O1', fuzz=False):
        self.backend, self.digits, self.san, self.scale, self.opt, self.fuzz = backend, digits, san, scale, opt, fuzz

    @property
    def name(self):
        return self.backend + (f'-d{self.digits}' if self.digits else '') + (f'-{self.san}' if self.san else '') + ('-fuzz' if self.fuzz else '')

    def flags(self):
        f = ['-w', f'-DE_FLOAT_TYPE_{self.backend.upper()}', '-DE_FLOAT_VERIF_HOOKS', '-I' + SRC, '-I' + os.path.join(REPO, 'libs/math/include'), '-I' + HARN, '-pthread']
        if self.digits:
            f.append(f'-DE_FLOAT_VERIF_DIGITS10={self.digits}')
        if self.san == 'asan':
            f += ['-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr', '-fno-omit-frame-pointer']
        if self.fuzz:
            f += ['-DVERIF_LIBFUZZER', '-fsanitize=fuzzer-no-link']
        return f

    def cxx(self):
        return 'clang++' if self.fuzz else 'g++'


def table_heavy(rel):
    return '/tables/' in rel


def build(prop, cfgs, pool):
    """Compile library + harness for every configuration; returns {cfg: binary}."""
    meta = (PROPS.get(prop) or ({"rule":""} if "--explore" in sys.argv else PROPS[prop]))
    root = os.path.join(BUILD, tree_hash())
    os.makedirs(root, exist_ok=True)
    for d in glob.glob(os.path.join(BUILD, '*')):          # keep only the current tree's products
        if d != root:
            shutil.rmtree(d, ignore_errors=True)
    jobs = []
    seen = set()

    def add(obj, cmd):
        if obj in seen or os.path.exists(obj):
            return
        seen.add(obj)
        jobs.append((obj, cmd))

    plans = []
    for c in cfgs:
        d = os.path.join(root, c.name)
        od = os.path.join(d, 'o')
        os.makedirs(od, exist_ok=True)
        objs = []
        for rel in lib_sources(c.backend, meta.get('tables', False)):
            o = os.path.join(od, rel.replace('/', '_') + '.o')
            opt = '-O0' if table_heavy(rel) else c.opt
            std = '-std=c++17' if c.san else '-std=c++14'
            add(o, (6 if table_heavy(rel) else 2, [c.cxx(), std, opt] + c.flags() + ['-c', os.path.join(SRC, rel), '-o']))
            objs.append(o)
        hs = []
        for h in ('gen.cpp', f'props/{prop}.cpp'):
            o = os.path.join(od, 'h_' + h.replace('/', '_') + '.o')
            add(o, (9, [c.cxx(), '-std=c++17', '-O1'] + c.flags() + ['-c', os.path.join(HARN, h), '-o']))
            hs.append(o)
        for h in ('core.cpp', 'ref.cpp'):
            tag = c.name if (c.san or c.fuzz) else 'common'
            os.makedirs(os.path.join(root, tag, 'o'), exist_ok=True)
            o = os.path.join(root, tag, 'o', 'h_' + h + '.o')
            add(o, (5, [c.cxx(), '-std=c++17', '-O1'] + [x for x in c.flags() if not x.startswith('-DE_FLOAT_TYPE')] + ['-c', os.path.join(HARN, h), '-o']))
            hs.append(o)
        plans.append((c, d, objs, hs))

    def run_job(j):
        obj, (_, cmd) = j
        tmp = obj + f'.tmp{os.getpid()}'
        p = sh(cmd + [tmp])
        if p.returncode:
            raise BuildError(' '.join(cmd) + '\n' + p.stdout[-6000:])
        os.replace(tmp, obj)
    jobs.sort(key=lambda j: -j[1][0])
    for _ in pool.map(run_job, jobs):
        pass

    def link(plan):
        c, d, objs, hs = plan
        exe = os.path.join(d, prop)
        if os.path.exists(exe):
            return c, exe
        lib = os.path.join(d, f'lib{"t" if meta.get("tables") else ""}.{prop}.a')
        if os.path.exists(lib):
            os.unlink(lib)
        p = sh(['ar', 'rcs', lib] + objs)
        if p.returncode:
            raise BuildError(p.stdout)
        cmd = [c.cxx(), '-pthread'] + [x for x in c.flags() if x.startswith('-fsanitize=') and 'fuzzer' not in x] + (['-fsanitize=fuzzer'] if c.fuzz else []) + \
            ['-o', exe + '.tmp'] + hs + [lib] + LIBS[c.backend] + ORACLE_LIBS
        p = sh(cmd)
        if p.returncode and not c.san:
            # a name used in a way that only links with inlined constants: the project itself builds with -O3
            src = [os.path.join(SRC, rel) for rel in lib_sources(c.backend, meta.get('tables', False)) if not table_heavy(rel)]
            keep = [o for rel, o in zip(lib_sources(c.backend, meta.get('tables', False)), objs) if table_heavy(rel)]
            again = []
            for f in src:
                o = os.path.join(d, prop + '.retry.' + os.path.relpath(f, SRC).replace('/', '_') + '.o')
                if sh([c.cxx(), '-std=c++17', '-O3'] + c.flags() + ['-c', f, '-o', o]).returncode:
                    break
                again.append(o)
            else:
                os.unlink(lib)
                sh(['ar', 'rcs', lib] + keep + again)
                p = sh(cmd)
        if p.returncode:
            raise BuildError(' '.join(cmd) + '\n' + p.stdout[-6000:])
        os.replace(exe + '.tmp', exe)
        return c, exe
    return dict(pool.map(link, plans))


def known_entries(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def configs(prop, tier):
    meta = (PROPS.get(prop) or ({"rule":""} if "--explore" in sys.argv else PROPS[prop]))
    out = []
    for b in meta.get('backends', ['efx', 'gmp', 'mpfr']):
        if not meta.get('no_default'):
            out.append(Cfg(b))
        for (d, sc, bs) in meta.get('digits', []):
            if b in bs:
                out.append(Cfg(b, digits=d, scale=sc))
        if tier == 'thorough':
            for (d, sc, bs) in meta.get('digits_thorough', []):
                if b in bs:
                    out.append(Cfg(b, digits=d, scale=sc))
            if meta.get('asan', True):
                out.append(Cfg(b, san='asan', scale=0.1))
    if meta.get('asan_quick'):
        for b in meta.get('backends', ['efx', 'gmp', 'mpfr']):
            if tier == 'quick':
                out.append(Cfg(b, san='asan', scale=meta['asan_quick']))
    return out


ENV = dict(os.environ, ASAN_OPTIONS='handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigbus=0:handle_sigill=0:detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=8000',
           UBSAN_OPTIONS='abort_on_error=1:print_stacktrace=0', LC_ALL='C')


def worker(exe, cfg, seed, shard, shards, tier, knownfile, extra=(), timeout=None, stop=None):
    cmd = [exe, '--seed', str(seed), '--shard', str(shard), '--shards', str(shards), '--scale', repr(cfg.scale), '--known', knownfile] + list(extra)
    if tier == 'thorough':
        cmd.append('--thorough')
    if cfg.san or cfg.digits >= 50000:
        cmd += ['--case-seconds', '300' if cfg.digits >= 200000 else '90']
    t0 = time.time()
    if stop is not None and stop.get('at') is not None:
        return dict(cfg=cfg, shard=shard, res=None, raws=[], rc=0, timeout=False, skipped=True, err='', secs=0.0)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=ENV)
    to = skipped = False
    while True:
        try:
            out, err = p.communicate(timeout=1)
            break
        except subprocess.TimeoutExpired:
            now = time.time()
            late = timeout is not None and now - t0 > timeout
            other = stop is not None and stop.get('at') is not None and now - stop['at'] > 40
            if late or other:                       # out of time, or another worker has a failure to report
                to, skipped = late, not late
                p.kill()
                out, err = p.communicate()
                break
    rc = p.returncode
    res = None
    for line in out.splitlines():
        if line.startswith('{"backend"'):
            try:
                res = json.loads(line)
            except ValueError:
                pass
    raws = []
    for line in err.splitlines():
        if line.startswith('FAILRAW '):
            try:
                raws.append(json.loads(line[8:]))
            except ValueError:
                pass
    if stop is not None and (raws or (res and res['failures'])):
        stop.setdefault('at', time.time())
    return dict(cfg=cfg, shard=shard, res=res, raws=raws, rc=rc, timeout=to, skipped=skipped, err=err, secs=time.time() - t0)


def replay_case(exe, test, tape, timeout=300, extra=()):
    with tempfile.NamedTemporaryFile('w', suffix='.tape', delete=False) as f:
        f.write(test + '\n' + ' '.join(map(str, tape)) + '\n')
    try:
        try:
            p = subprocess.run([exe, '--replay', f.name] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, env=ENV)
        except subprocess.TimeoutExpired:
            return dict(outcome=2, sig=test + ':hang', msg='replay timed out', desc='')
        for line in p.stdout.splitlines():
            if line.startswith('{"outcome"'):
                return json.loads(line)
        return dict(outcome=2, sig=test + ':died', msg='the process died: ' + p.stderr[-2000:], desc='')
    finally:
        os.unlink(f.name)


def cfg_from_name(name):
    m = re.match(r'^(efx|gmp|mpfr)(?:-d(\d+))?(?:-(asan))?(-fuzz)?$', name)
    return Cfg(m.group(1), digits=int(m.group(2) or 0), san=m.group(3) or '', fuzz=bool(m.group(4)))


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    pool = ThreadPoolExecutor(NCPU)
    if a[0] == '--replay':
        with open(a[1]) as f:
            rp = json.load(f)
        cfg = cfg_from_name(rp['config'])
        exe = build(rp['property'], [cfg], pool)[cfg]
        r = replay_case(exe, rp['test'], rp['tape'])
        print(json.dumps(r, indent=1))
        return 1 if r['outcome'] == 2 else 0
    if a[0] == '--setup':
        # nothing is kept between runs: only verify that what the checks need is there
        for cmd in (['g++', '--version'], ['clang++', '--version'], ['ar', '--version']):
            if sh(cmd).returncode:
                print('missing: ' + cmd[0])
                return 2
        build('A01', [Cfg('mpfr')], pool)
        print('setup ok')
        return 0
    if a[0] == '--build-only':
        for p in a[1:]:
            build(p, configs(p, 'quick'), pool)
        return 0
    explore = False
    if a[0] == '--explore':
        explore = True
        a = a[1:]
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = None
    scale = 1.0
    pick = None
    for x in a[2:]:
        if x.startswith('only='):
            only = x[5:]
        if x.startswith('scale='):
            scale = float(x[6:])
        if x.startswith('cfg='):
            pick = x[4:].split(',')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    meta = (PROPS.get(prop) or ({"rule":""} if "--explore" in sys.argv else PROPS[prop]))
    cfgs = configs(prop, tier)
    if pick:
        byname = {c.name: c for c in cfgs}
        cfgs = [byname.get(p) or cfg_from_name(p) for p in pick]
    for c in cfgs:
        c.scale *= scale
    try:
        exes = build(prop, cfgs, pool)
    except BuildError as e:
        print('BUILD FAILED\n' + str(e))
        return 2
    tb = time.time() - t0
    known = [] if explore else known_entries(prop)
    kn_active = [k for k in known if k.get('status', 'open') == 'open']
    wd = tempfile.mkdtemp(prefix='verif-' + prop + '-')
    try:
        return decide(prop, tier, seed, t0, tb, meta, cfgs, exes, kn_active, wd, pool, only, explore)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


PROP_TESTS_SEEN = set()


def decide(prop, tier, seed, t0, tb, meta, cfgs, exes, known, wd, pool, only, explore):
    budget = 780 if tier == 'quick' else 6 * 3600
    kfiles = {}
    for c in cfgs:
        kf = os.path.join(wd, 'known-' + c.name)
        with open(kf, 'w') as f:
            for k in known:
                if k.get('backend', '*') in ('*', c.backend):
                    f.write(k['sig'] + '\n')
        kfiles[c.name] = kf
    shards = NCPU
    extra = (['--only', only] if only else []) + (['--maxfail', '60'] if explore else [])
    tasks = [(c, i) for i in range(shards) for c in cfgs]
    stop = {}
    results = list(pool.map(lambda ti: worker(exes[ti[0]], ti[0], seed, ti[1], shards, tier, kfiles[ti[0].name], extra, max(30, budget - (time.time() - t0)), None if explore else stop), tasks))

    per_test, labels, margins, samples, khits = {}, {}, {}, [], {}
    fails, errors, inconclusive = [], [], 0
    for r in results:
        c = r['cfg']
        if r['res'] is None:
            if r['raws']:
                for f in r['raws']:
                    fails.append((c, f))
            elif r['skipped']:
                inconclusive += 1
            elif r['timeout']:
                inconclusive += 1
                errors.append(f'{c.name} shard {r["shard"]}: time budget used up')
            else:
                # the process died before it could name a case: reproduce with the simplest case of the first test
                if r['rc'] is not None and r['rc'] < 0:
                    names = sh([exes[c], '--list'], env=ENV).stdout.split()
                    tn = names[0] if names and '\n' not in names[0] and names[0][:1].isalpha() else 'startup'
                    if tn not in PROP_TESTS_SEEN:
                        PROP_TESTS_SEEN.add(tn)
                        fails.append((c, dict(test=tn, sig='process-died', msg=f'the process died with signal {-r["rc"]}: {r["err"][-1000:]}', desc='', tape=[])))
                errors.append(f'{c.name} shard {r["shard"]}: worker died rc={r["rc"]}: {r["err"][-1500:]}')
            continue
        for t in r['res']['tests']:
            d = per_test.setdefault(t['name'], dict(ran=0, nontrivial=0, distinct=0, discarded=0, known=0, seconds=0.0))
            for k in ('ran', 'nontrivial', 'distinct', 'discarded', 'known', 'seconds'):
                d[k] += t[k]
            for k, v in t['labels'].items():
                labels.setdefault(t['name'], {}).setdefault(k, 0)
                labels[t['name']][k] += v
            for k, v in t['known_hits'].items():
                khits[k] = khits.get(k, 0) + v
            for k, v in t['margins'].items():
                kk = c.backend + (f'-d{c.digits}' if c.digits else '') + ':' + k
                margins[kk] = max(margins.get(kk, -1e9), v)
            for s_ in t['samples']:
                samples.append(dict(test=t['name'], config=c.name, case=s_))
        for f in r['res']['failures']:
            fails.append((c, f))

    if explore:
        uniq = {}
        for c, f in fails:
            key = (c.name, f['sig'])
            if key not in uniq or len(f['tape']) < len(uniq[key]['tape']):
                uniq[key] = f
        for (cn, sig), f in sorted(uniq.items(), key=lambda kv: (kv[0][1], kv[0][0])):
            print(f'{cn:12s} {sig}\n      {f["desc"][:600]}\n      {f["msg"][:700]}')
        for e in errors:
            print('ERROR', e)
        thr = float(os.environ.get('MARG', '-1e9'))
        for k in sorted(margins):
            if margins[k] >= thr:
                print(f'   margin {k:60s} {margins[k]:.2f}')
        for t, d in per_test.items():
            print(f'   {t}: ran {d["ran"]} nontrivial {d["nontrivial"]} distinct {d["distinct"]} disc {d["discarded"]} cpu {d["seconds"]:.1f}s ' + ' '.join(f'{k}={v}' for k, v in sorted(labels.get(t, {}).items())))
        print(f'build {tb:.1f}s total {time.time() - t0:.1f}s')
        return 0

    # confirm: a failure counts when it reproduces three times out of three
    confirmed = None
    for c, f in fails:
        ok = all(o['outcome'] == 2 for o in pool.map(lambda _: replay_case(exes[c], f['test'], f['tape']), range(3)))
        if ok:
            confirmed = (c, f)
            break
        errors.append(f'unreproducible failure {c.name} {f["sig"]}: {f["msg"][:500]}')
    wall = time.time() - t0
    ev = sum(d['ran'] for d in per_test.values())
    if len(samples) > 24:
        step = len(samples) / 24.0
        samples = [samples[int(i * step)] for i in range(24)]
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=ev, distinct_nontrivial=sum(d['distinct'] for d in per_test.values()), rule=meta['rule'], samples=samples,
                      configurations=[c.name for c in cfgs], per_test={k: dict(v, seconds=round(v['seconds'], 2)) for k, v in per_test.items()},
                      case_distribution=labels, worst_error_log10={k: round(v, 2) for k, v in sorted(margins.items())},
                      known_finding_hits=khits),
        assumptions=meta.get('assumptions', []) + ['oracle: GNU MPFR in a separate translation unit at three times the working precision or more', 'only the generated cases were explored; absence of a violation is not a proof'],
        wall_s=round(wall, 2), violations=1 if confirmed else 0)
    if errors:
        evidence['coverage']['notes'] = errors
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    for k in known:
        n = khits.get(k['sig'], 0)
        print(f'KNOWN-FINDING: property={prop} {k["what"]} [{n} cases hit it in this run]')
    print(f'{prop} {tier} seed={seed}: {ev} cases ({evidence["coverage"]["distinct_nontrivial"]} distinct non-trivial) on {len(cfgs)} configurations, build {tb:.1f} s, total {wall:.1f} s')
    if confirmed:
        c, f = confirmed
        os.makedirs(REPLAYS, exist_ok=True)
        h = hashlib.sha256((c.name + f['test'] + str(f['tape'])).encode()).hexdigest()[:10]
        path = os.path.join(REPLAYS, f'{prop}-{c.name}-{h}.json')
        with open(path, 'w') as fh:
            json.dump(dict(property=prop, config=c.name, test=f['test'], sig=f['sig'], message=f['msg'], case=f['desc'], tape=f['tape'],
                           how='python3 run.py --replay ' + path), fh, indent=1)
        print(f'  {f["sig"]} [{c.name}]: {f["msg"]}\n  case: {f["desc"]}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errors:
        for e in errors:
            print('ERROR ' + e)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
