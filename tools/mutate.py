#!/usr/bin/env python3
"""Mutation campaign: how many small changes of the library do the checks notice?

  mutate.py prepare <backend> [digits]         compile library and harnesses into $MUT
  mutate.py run <backend[-dN]> <file-regex> <count> <seed> [scale]

A mutant is one textual change of one source line.  Every mutant is compiled, linked with the
harness of each relevant property and run (no shrinking); survivors are written to $MUT/survivors.txt.
This is a tool for looking for gaps; no registered check uses it."""
import os, sys, re, subprocess, random, glob, time, json, threading, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv0 = sys.argv
sys.path.insert(0, HERE)
import run as RUN
MUT = os.environ.get('MUT', '/tmp/mut')
SRC = RUN.SRC
CORE = 'A01 A02 A03 A05 O01 C01 C02 C03 S01 S02 A04 A06 A07 C04 S03 E01 E02 E03 X03 B01 R01 M01 U02 K01 P01 E04 G03 X01'.split()
MAP = [(r'^e_float/(efx|gmp|mpfr)/|^e_float/e_float(_base)?\.(cpp|h)|detail', CORE),
       (r'elementary_trans', 'C04 E01 E02 E03 E06 X02 P01 K01 A07'.split()),
       (r'elementary_trig', 'E04 E05 X02 P01'.split()), (r'hyper_g', 'H01 E02 E05 P01'.split()),
       (r'elementary_math', 'C03 C04 E03 N01 O01 A06 A04 X01 P01 B01'.split()),
       (r'elementary_complex|e_float_complex|functions_complex', 'X01 X02 X03 X04'.split()),
       (r'constants/', 'K01 P01 E04'.split()), (r'factorial', 'G02 G01 P01'.split()), (r'pochhammer|gamma_util', 'G01 X04 G02'.split()), (r'gamma\.cpp', 'G01 X04 P01'.split()),
       (r'bernoulli', 'G02 G01 P01'.split()), (r'prime', 'N01 Z01 P01'.split()), (r'zeta\.', 'Z01 X04 P01'.split()),
       (r'power_j_pow', 'P01 U01 Z01'.split()), (r'utility/util_dynamic', 'U02'.split()), (r'utility/', 'U01 P01 C01'.split()), (r'generic_functions', ['G03']), (r'bindings', ['B01', 'B02'])]


def relevant(rel):
    for p, l in MAP:
        if re.search(p, rel):
            return l
    return []


def cfg(name):
    return RUN.cfg_from_name(name)


def d_of(name):
    return os.path.join(MUT, name)


def compile_(c, src, obj, std, opt, extra=()):
    return RUN.sh([c.cxx(), std, opt] + list(extra) + c.flags() + ['-MMD', '-MF', obj + '.d', '-c', src, '-o', obj])


def plan(c):
    """(name, source, std, opt) of every object"""
    out = []
    for rel in RUN.lib_sources(c.backend, True):
        out.append(('l_' + rel.replace('/', '_'), os.path.join(SRC, rel), '-std=c++14', '-O0' if '/tables/' in rel else '-O1'))
    for h in ['gen.cpp', 'core.cpp', 'ref.cpp'] + ['props/' + os.path.basename(p) for p in sorted(glob.glob(RUN.HARN + '/props/*.cpp'))]:
        out.append(('h_' + h.replace('/', '_'), os.path.join(RUN.HARN, h), '-std=c++17', '-O1'))
    return out


def prepare(name):
    c = cfg(name)
    d = d_of(name)
    os.makedirs(d, exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        def one(p):
            o = os.path.join(d, p[0] + '.o')
            if not os.path.exists(o):
                r = compile_(c, p[1], o, p[2], p[3])
                if r.returncode:
                    print(r.stdout[-2000:])
        list(ex.map(one, plan(c)))


NUM = re.compile(r'(?<![\w.])(\d+)(?=(?:[uUlL]*)?(?![\w.]))')


def mutations(line):
    out = []
    code = line.split('//')[0]
    if not code.strip() or code.strip().startswith('#') or re.match(r'\s*(template|typedef|using|namespace|class|struct|extern|public:|private:|static const std::array|friend)\b', code):
        return out
    if re.match(r'\s*(virtual|explicit|inline)?\s*[\w:<>&* ]+\([^()]*\)\s*(const)?;\s*$', code) and 'return' not in code and '=' not in code and not re.match(r'\s*[\w:.]+\s*\(', code):
        return out
    S = lambda a, b, n: out.append((n, a + b))
    for m in re.finditer(r'(?<![<>=!+\-*/&|^%])(==|!=|<=|>=)(?![=<>])', code):
        S(line[:m.start()] + {'==': '!=', '!=': '==', '<=': '<', '>=': '>'}[m.group(1)], line[m.end():], m.group(1))
    for m in re.finditer(r'(?<=[\w\)\]])( ?)([<>])( )(?=[\w\(:\-])', code):
        if '_cast' in code[max(0, m.start() - 18):m.start()]:
            continue
        S(line[:m.start(2)] + m.group(2) + '=', line[m.end(2):], m.group(2))
    for m in re.finditer(r'&&|\|\|', code):
        S(line[:m.start()] + ('||' if m.group(0) == '&&' else '&&'), line[m.end():], m.group(0))
    for m in re.finditer(r'(?<=[\w\)\]]) ([+\-*/]) (?=[\w\(:\-])', code):
        op = m.group(1)
        S(line[:m.start(1)] + {'+': '-', '-': '+', '*': '/', '/': '*'}[op], line[m.end(1):], op)
    for m in re.finditer(r'(\+=|-=|\*=|/=)', code):
        S(line[:m.start()] + {'+=': '-=', '-=': '+=', '*=': '/=', '/=': '*='}[m.group(1)], line[m.end():], m.group(1))
    for m in re.finditer(r'\+\+|--', code):
        S(line[:m.start()] + ('--' if m.group(0) == '++' else '++'), line[m.end():], m.group(0))
    for m in NUM.finditer(code):
        if len(m.group(1)) > 12 or code[max(0, m.start() - 12):m.start()].endswith(('std::int', 'array<')) or '"' in code[:m.start()]:
            continue
        v = int(m.group(1))
        for w in {v + 1, max(v - 1, 0)} - {v}:
            S(line[:m.start(1)] + str(w), line[m.end(1):], f'{v}->{w}')
    for m in re.finditer(r'\b(true|false)\b', code):
        S(line[:m.start()] + ('false' if m.group(1) == 'true' else 'true'), line[m.end():], m.group(1))
    for m in re.finditer(r'\(!(?=[\w(])', code):
        S(line[:m.start()] + '(', line[m.end():], 'not')
    for m in re.finditer(r'(?<=[(?:=] )-(?=[\w(])|(?<=return )-(?=[\w(])', code):
        S(line[:m.start()], line[m.end():], 'neg')
    m = re.match(r'^(\s*)([\w:.\->\[\]()&* ]+(?:=|\+=|-=|\*=|/=|\(|\+\+|--).*;)\s*$', code)
    if m and not re.match(r'\s*(return|const|static|std::|double|int|bool|for|if|while|else|typename|e_float|ef_complex|auto|case|default|break|unsigned|long|template|char|using)\b', code) and code.count('(') == code.count(')'):
        out.append(('delete', m.group(1) + ';\n'))
    m = re.search(r'\bif\s*\((.*)\)\s*(\{|return|break)?', code)
    if m and code.count('(') == code.count(')'):
        i = code.index('if')
        j = code.index('(', i)
        dep = 0
        for k in range(j, len(code)):
            dep += code[k] == '('
            dep -= code[k] == ')'
            if dep == 0:
                break
        out.append(('if-false', line[:j] + '(false && ' + line[j:k + 1] + ')' + line[k + 1:]))
    return out


def candidates(rx):
    res = []
    files = [os.path.relpath(p, SRC) for p in glob.glob(SRC + '/**/*.cpp', recursive=True) + glob.glob(SRC + '/**/*.h', recursive=True)]
    files += [os.path.relpath(p, SRC) for p in glob.glob(SRC + '/../../math/include/boost/math/bindings/*.hpp')]
    for rel in sorted(files):
        if 'test' in rel.split('/') or not re.search(rx, rel) or 'tables/' in rel:
            continue
        lines = open(os.path.join(SRC, rel)).read().split('\n')
        incomment = False
        for i, l in enumerate(lines):
            if l.strip().startswith('/*'):
                incomment = True
            if incomment:
                if '*/' in l:
                    incomment = False
                continue
            for n, new in mutations(l + '\n'):
                res.append((rel, i, n, new.rstrip('\n')))
    return res


def run_prop(exe, scale, limit):
    p = subprocess.Popen([exe, '--seed', '1', '--scale', repr(scale), '--known', '/dev/null', '--case-seconds', '12'], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace', env=RUN.ENV, start_new_session=True)
    t = threading.Timer(limit, lambda: os.killpg(p.pid, signal.SIGKILL))
    t.start()
    msg = None
    for line in p.stderr:
        if line.startswith('FAILRAW '):
            try:
                j = json.loads(line[8:])
                if j['sig'].startswith(('to-cpp_int:off-by-one',)):
                    continue
                msg = j['sig'] + ' | ' + j['desc'][:150]
            except ValueError:
                msg = 'fail'
            break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    rc = p.wait()
    if not t.is_alive() and msg is None:
        msg = 'TIMEOUT'
    t.cancel()
    return msg


def objs_common(c, d):
    lib = [os.path.join(d, p[0] + '.o') for p in plan(c) if p[0].startswith('l_')]
    return lib


def deps_of(d, name):
    try:
        return open(os.path.join(d, name + '.o.d')).read()
    except OSError:
        return ''


def run(name, rx, count, seed, scale):
    c = cfg(name)
    d = d_of(name)
    cand = candidates(rx)
    rnd = random.Random(seed)
    rnd.shuffle(cand)
    cand = cand[:count]
    pl = plan(c)
    alldeps = {p[0]: deps_of(d, p[0]) for p in pl}
    lock = threading.Lock()
    tot = dict(killed=0, survived=0, nocompile=0, timeout=0)
    byp = {}

    def one(ix):
        rel, ln, what, new = cand[ix]
        w = os.path.join(MUT, f'm{os.getpid()}_{ix}')
        os.makedirs(w, exist_ok=True)
        try:
            src = os.path.join(SRC, rel)
            lines = open(src).read().split('\n')
            old = lines[ln]
            lines[ln] = new
            props = relevant(rel)
            over = {}
            # overlay include directory with the mutated file first
            inc = os.path.join(w, 'inc')
            if rel.endswith('.cpp'):
                todo = [p for p in pl if p[1] == src]
                ms = os.path.join(w, os.path.basename(rel))
                open(ms, 'w').write('\n'.join(lines))
                todo = [(p[0], ms, p[2], p[3], ['-I' + os.path.dirname(src)]) for p in todo]
            else:
                base = os.path.normpath(src)
                tgt = os.path.join(inc, rel) if not rel.startswith('..') else os.path.join(inc, 'boost/math/bindings/' + os.path.basename(rel))
                os.makedirs(os.path.dirname(tgt), exist_ok=True)
                open(tgt, 'w').write('\n'.join(lines))
                todo = [(p[0], p[1], p[2], p[3], ['-I' + inc]) for p in pl if os.path.basename(rel) in alldeps[p[0]] and '_tables_' not in p[0] and (not p[0].startswith('h_props') or p[0][8:11] in props)]
            for n, s, std, opt, ex in todo:
                o = os.path.join(w, n + '.o')
                r = compile_(c, s, o, std, opt, ex)
                if r.returncode:
                    with lock:
                        tot['nocompile'] += 1
                    return
                if os.path.exists(os.path.join(d, n + '.o')) and n.startswith('l_') and rel.endswith('.cpp'):
                    a = subprocess.run(f"cmp -s <(objdump -d {o} | tail -n +4) <(objdump -d {d}/{n}.o | tail -n +4) && cmp -s <(objdump -s -j .rodata {o} | tail -n +4) <(objdump -s -j .rodata {d}/{n}.o | tail -n +4)", shell=True, executable='/bin/bash').returncode
                    if a == 0:
                        with lock:
                            tot['same'] = tot.get('same', 0) + 1
                        return
                over[n] = o
            if not todo:
                return
            def ob(n):
                return over.get(n, os.path.join(d, n + '.o'))
            lib = os.path.join(w, 'lib.a')
            subprocess.run(['ar', 'rcs', lib] + [ob(p[0]) for p in pl if p[0].startswith('l_')])
            res = None
            t0 = time.time()
            for prop in props:
                m = RUN.PROPS.get(prop)
                if not m or (c.backend not in m.get('backends', ['efx', 'gmp', 'mpfr'])) or m.get('no_default') and not c.digits:
                    continue
                exe = os.path.join(w, prop)
                r = RUN.sh([c.cxx(), '-pthread', '-o', exe] + [ob('h_gen.cpp'), ob('h_core.cpp'), ob('h_ref.cpp'), ob(f'h_props_{prop}.cpp'), lib] + RUN.LIBS[c.backend] + RUN.ORACLE_LIBS)
                if r.returncode:
                    print(r.stdout[-500:])
                    continue
                msg = run_prop(exe, scale, 150)
                os.unlink(exe)
                if msg:
                    res = prop + ': ' + msg
                    break
            with lock:
                if res:
                    tot['killed'] += 1
                    byp[res[:3]] = byp.get(res[:3], 0) + 1
                    open(os.path.join(MUT, 'killed.txt'), 'a').write(f'{name} {rel}:{ln + 1} [{what}] {res}\n   - {old.strip()}\n   + {new.strip()}\n')
                else:
                    tot['survived'] += 1
                    open(os.path.join(MUT, 'survivors.txt'), 'a').write(f'{name} {rel}:{ln + 1} [{what}] ({time.time() - t0:.0f}s)\n   - {old.strip()}\n   + {new.strip()}\n')
        except Exception as e:
            print('ERR', e)
        finally:
            subprocess.run(['rm', '-rf', w])
    with ThreadPoolExecutor(int(os.environ.get('MUTJ', '6'))) as ex:
        list(ex.map(one, range(len(cand))))
    print(name, rx, tot, byp, flush=True)


if __name__ != '__main__':
    pass
elif sys.argv[1] == 'prepare':
    prepare(sys.argv[2])
elif sys.argv[1] == 'list':
    c = candidates(sys.argv[2])
    print(len(c))
    for x in random.Random(1).sample(c, min(30, len(c))):
        print(x)
else:
    run(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), float(sys.argv[6]) if len(sys.argv) > 6 else 0.3)
