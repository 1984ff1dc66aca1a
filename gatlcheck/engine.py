"""Builds probe programs against /repo's current headers, runs the dataflow analysis on the resulting GIMPLE and
compares every output's normal form with its specification on every trace."""
import glob, json, multiprocessing, os, re, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from . import gimple, absint, ring, polyhedron
from .ring import V, ZERO
from .absint import Analysis, Unsupported, Facts, Fork, RELS, ALL, Bad

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GATL_REPO', '/repo')
INC = os.path.join(REPO, 'cpp', 'include')
CXX = os.environ.get('GATLCHECK_CXX', 'g++-11')
FLAGS = ['-std=c++17', '-O2', '-w', '-fno-diagnostics-show-caret', '-fmax-errors=1', '-fno-tree-vectorize', '-fno-tree-slp-vectorize', '-ffp-contract=off', '-fno-math-errno',
         '-fno-store-merging', '-fno-tree-loop-distribute-patterns', '-fpeel-loops', '-funroll-loops',
         '--param', 'max-completely-peeled-insns=100000', '--param', 'max-completely-peel-times=64',
         '-fno-ipa-icf', '-fno-ipa-sra', '-fno-partial-inlining', '-fno-ipa-cp']
TIMEOUT = int(os.environ.get('GATLCHECK_TU_TIMEOUT', '420'))
JOBS = int(os.environ.get('GATLCHECK_JOBS', '0')) or min(8, os.cpu_count() or 4)


class Probe:
    """One program of the analysed family: a body that writes to out[], and what out[] must be."""

    def __init__(self, name, header, body, spec, ns=None, weight=1.0, what='', prelude='', flags=(), checks=('value', 'dead', 'mutation'), kind='value', inputs=('a', 'b'), elem=8, strict='float', sig='double const *a, double const *b, double *out', names=None, sizes=None):
        self.name = name
        self.header = (header,) if isinstance(header, str) else tuple(header)
        self.ns = ns
        self.body = body
        self.spec = spec              # callable(dec) -> ('ret', {index: V}) | ('throw', regex)
        self.weight = weight
        self.what = what or name
        self.prelude = prelude
        self.flags = tuple(flags)
        self.checks = checks
        self.kind = kind              # 'value': analysed; 'compiles': must compile; 'rejected': must not compile; 'symbols': defines no strong external symbols
        self.inputs = inputs
        self.elem = elem              # bytes per element (of each operand, the output and, under '', other objects)
        self.strict = strict          # 'float': values that went through a narrower floating-point type are told apart; 'exact': also integers that were turned into floating-point numbers or narrower integers
        self.sig = sig
        self.sizes = sizes            # bytes of objects of named classes
        self.names = names            # of the basis vectors: the program writes to os, and what it writes is read back (absint.Analysis.collect)

    def source(self):
        if self.kind != 'value':
            return self.body
        return '%s\nextern "C" __attribute__((flatten)) void %s(%s) {\n%s    %s\n}\n' % (self.prelude, self.name, self.sig, ('    using namespace %s;\n' % self.ns) if self.ns else '', self.body)


def tu_source(probes):
    if len(probes) == 1 and probes[0].kind != 'value' and not probes[0].header:
        return probes[0].body + '\n'
    hs = []
    for p in probes:
        for h in p.header:
            if h not in hs:
                hs.append(h)
    src = ''.join('#include <%s>\n' % h for h in hs) + '#include "%s/lib/probe.hpp"\nusing gatlcheck::dump; using gatlcheck::fill;\n' % VERIF
    return src + '\n'.join(p.source() for p in probes)


def compile_src(src, d, base, flags=(), dump=True, extra=()):
    f = os.path.join(d, base + '.cpp')
    with open(f, 'w') as h:
        h.write(src)
    cmd = [CXX] + FLAGS + list(flags) + list(extra[1:]) + ['-I' + INC]
    if dump:
        cmd += ['-fdump-tree-optimized-uid' + (extra[0] if extra else ''), '-dumpdir', d + '/', '-dumpbase', base + '.cpp', '-c', f, '-o', os.path.join(d, base + '.o')]
    else:
        cmd += ['-fsyntax-only', f]
    err = os.path.join(d, base + '.err')
    with open(err, 'wb') as e:
        try:
            rc = subprocess.run(cmd, stdout=e, stderr=e, timeout=TIMEOUT, cwd=d).returncode
        except subprocess.TimeoutExpired:
            return 'timeout', None, ' '.join(cmd)
    txt = ''
    with open(err, 'rb') as e:
        txt = e.read(20_000_000).decode('utf8', 'replace')
    msgs = [shorten(l) for l in txt.splitlines() if re.search(r'\berror:|internal compiler error|Killed', l)]
    if rc != 0:
        if rc < 0 or any('internal compiler error' in m or 'Killed' in m or 'virtual memory' in m or 'memory exhausted' in m for m in msgs) or not msgs:
            return 'ice', '\n'.join(msgs)[:500] or txt[-500:], ' '.join(cmd)
        if any('No such file or directory' in m for m in msgs):
            return 'ice', 'anchor missing: ' + '\n'.join(msgs)[:500], ' '.join(cmd)
        return 'error', '\n'.join(msgs)[:1500], ' '.join(cmd)
    if dump:
        g = glob.glob(os.path.join(d, base + '.cpp.*optimized'))
        if not g:
            return 'ice', 'no dump written', ' '.join(cmd)
        with open(g[0]) as h:
            return 'ok', gimple.tidy(h.read()), ' '.join(cmd)
    return 'ok', '', ' '.join(cmd)


def strong_symbols(obj):
    o = subprocess.run(['nm', '-C', '--defined-only', '--extern-only', obj], capture_output=True, text=True, check=True).stdout
    return [l.split(None, 2)[2] for l in o.splitlines() if len(l.split(None, 2)) == 3 and l.split(None, 2)[1] in 'TDBRGSC']


def shorten(l, n=400):
    return l if len(l) <= n else l[:n] + '...'


def check_value(p, text, fns=None):
    """Runs the analysis on probe p in dump text -> result dict."""
    res = {'name': p.name, 'what': p.what, 'status': 'ok', 'violations': [], 'traces': 0, 'outputs': 0, 'statements': 0, 'blocks': 0, 'loads': 0, 'stores': 0}
    fns = fns if fns is not None else gimple.parse(text, lambda n: n == p.name)
    fn = fns.get(p.name)
    if fn is None:
        res['status'] = 'unsupported'
        res['why'] = 'probe %s not found in the dump' % p.name
        return res
    an = Analysis(fn, inputs=p.inputs, elem=p.elem, strict=p.strict, names=p.names, name_text=fns.get('*names*') if p.names is not None else None, sizes=p.sizes)
    try:
        outs = an.run()
    except Unsupported as e:
        res['status'] = 'unsupported'
        res['why'] = shorten(str(e))
        return res
    except (ZeroDivisionError, RecursionError, ArithmeticError) as e:
        res['status'] = 'unsupported'
        res['why'] = 'arithmetic: %s' % e
        return res
    for k in ('blocks', 'statements', 'traces', 'loads', 'stores'):
        res[k] = an.stats[k]
    for kind, t in an.diags:
        res['violations'].append({'kind': kind, 'text': t})
    bad_trace = False
    if p.spec is None:
        for o in outs:
            bad = [(k, v) for k, v in o.out.items() if isinstance(v, Bad) and v.why != 'division by zero']  # a NaN or infinity is a value
            if (bad or any('undefined' in str(ring.show(V(dict(k)), 400)) for k in o.facts.s)) and polyhedron.feasible(o.facts):
                res['violations'].append({'kind': 'uninit', 'text': 'out[%d] is %r' % (bad[0][0] // 8, bad[0][1]) if bad else 'a branch depends on an undefined value', 'when': o.facts.describe()})
                break
            res['outputs'] += len(o.out)
    else:
        for o in outs:
            n, vs = compare(p, o)
            res['outputs'] += n
            res['violations'] += vs
            if len(res['violations']) > 6:
                break
    if res['violations']:
        res['status'] = 'violation'
    return res


def compare(p, o):
    """Specification against one trace: the trace is split further where the specification distinguishes cases."""
    n = 0
    vs = []
    work = [o.facts]
    splits = 0
    empty = None
    ow = p.elem.get('out', 8) if isinstance(p.elem, dict) else 8

    def report(facts, v):
        nonlocal empty
        if empty is None:
            empty = not polyhedron.feasible(facts)
        if not empty:
            vs.append(v)
    while work:
        facts = work.pop()
        splits += 1
        got = {k // ow: v for k, v in o.out.items()}
        if splits > 3000:
            vs.append({'kind': 'spec-split', 'text': 'specification splits too often'})
            break

        def dec(d, rel):
            s = facts.signs(d)
            if s <= RELS[rel]:
                return True
            if not (s & RELS[rel]):
                return False
            raise Fork(d, rel)
        try:
            exp = p.spec(dec)
            want = exp[1] if len(exp) > 1 else None
            if exp[0] == 'ret' and callable(want):
                # a relation between the outputs: what it makes of those of the program
                want = want(got, dec) if got and all(isinstance(g, V) for g in got.values()) else None
        except Fork as f:
            for signs in (RELS[f.rel], ALL - RELS[f.rel]):
                c = facts.copy()
                if c.learn(f.d, signs) and consistent(c):
                    work.append(c)
            continue
        if not consistent(facts):
            continue
        if exp[0] == 'any':
            continue
        empty = None
        n += 1
        if o.kind != exp[0]:
            report(facts, {'kind': 'outcome', 'text': 'expected %s, the program %s%s' % (describe_exp(exp), o.kind, ' ' + str(o.detail) if o.detail else ''), 'when': facts.describe()})
            continue
        if exp[0] == 'throw':
            if not re.search(exp[1], o.detail or ''):
                report(facts, {'kind': 'outcome', 'text': 'expected a throw of %s, got %s' % (exp[1], o.detail), 'when': facts.describe()})
            continue
        if callable(exp[1]) and want is None:
            bad = [i for i, g in sorted(got.items()) if not isinstance(g, V)]
            report(facts, {'kind': 'value', 'text': 'out[%d] is %r' % (bad[0], got[bad[0]]) if bad else 'nothing is written', 'when': facts.describe()})
            continue
        for i in sorted(set(want) | set(got)):
            n += 1
            w = want.get(i, ZERO)
            g = got.get(i)
            if g is None:
                report(facts, {'kind': 'value', 'text': 'out[%d] is not written; expected %s' % (i, ring.show(w)), 'when': facts.describe()})
            elif isinstance(g, Bad):
                report(facts, {'kind': 'value', 'text': 'out[%d] is %r; expected %s' % (i, g, ring.show(w)), 'when': facts.describe()})
            elif not isinstance(g, V):
                report(facts, {'kind': 'value', 'text': 'out[%d] is not a number' % i})
            elif not same(g, w, facts):
                report(facts, {'kind': 'value', 'text': 'out[%d] = %s; expected %s' % (i, ring.show(g), ring.show(w)), 'when': facts.describe()})
            if len(vs) > 4:
                return n, vs
    return n, vs


def describe_exp(e):
    return {'ret': 'a normal return', 'throw': 'a throw of %s' % (e[1],)}.get(e[0], e[0])


def consistent(f):
    return f.merge(Facts()) is not None


def same(g, w, facts):
    if ring.equal(g, w):
        return True
    so = facts.sign_of
    g2, w2 = ring.subst_abs(g, so), ring.subst_abs(w, so)
    if ring.equal(g2, w2):
        return True
    if facts.signs(g2 - w2) == frozenset((0,)):
        return True
    # equalities known on the trace: generators that are zero there
    zero = {}
    for k, s in facts.s.items():
        if s == frozenset((0,)):
            d = V(dict(k))
            # solve for a generator that occurs linearly and alone
            for m, c in d.t.items():
                if len(m) == 1 and m[0][1] == 1 and sum(1 for mm in d.t for a, _ in mm if a == m[0][0]) == 1:
                    zero[m[0][0]] = (V({m: c}) - d).scale(ring.Fr(1) / c)
                    break
    if zero:
        g2, w2 = substitute(g2, zero), substitute(w2, zero)
        if ring.equal(g2, w2):
            return True
    if not fractional(g2) and not fractional(w2):
        return False
    try:
        return ring.equal(ring.normal_under(g2, so), ring.normal_under(w2, so))
    except (ArithmeticError, RecursionError):
        return False


def fractional(v):
    """Whether a root, an absolute value or another function occurs in v."""
    return any(ring.atom_key(a)[0] != 'v' for m in v.t for a, _ in m)


def substitute(v, env):
    r = ZERO
    for m, c in v.t.items():
        t = V({(): c})
        for a, k in m:
            if a in env:
                if not env[a].t and k < 0:
                    return v
                t = t * env[a].pow(k)
            else:
                t = t * V({((a, k),): 1})
        r = r + t
    return r


_PROBES = None
_FAILED = multiprocessing.Value('i', 0)
ENOUGH = 60     # once so many programs have been confirmed not to compile, others that failed with them are not compiled again one by one


def blamed(probes, err):
    """Indices of the probes whose lines of the translation unit appear in the messages of the compiler."""
    src = tu_source(probes)
    starts, pos = [], 0
    for p in probes:
        t = p.source()
        pos = src.index(t, pos)
        starts.append((src.count('\n', 0, pos) + 1, src.count('\n', 0, pos) + 1 + t.rstrip('\n').count('\n')))
        pos += len(t)
    with open(err, 'rb') as e:
        lines = {int(n) for n in re.findall(r'\btu\.cpp:(\d+)', e.read(20_000_000).decode('utf8', 'replace'))}
    return [k for k, (a, b) in enumerate(starts) if any(a <= n <= b for n in lines)]


def alone(i, tag):
    p = _PROBES[i]
    if _FAILED.value >= ENOUGH:
        return [(i, {'name': p.name, 'what': p.what, 'status': 'skipped', 'violations': []})]
    o = _work(((i,), tag))
    if any(v['kind'] == 'does-not-compile' for v in o[0][1].get('violations', [])):
        with _FAILED.get_lock():
            _FAILED.value += 1
    return o


def _work(args):
    idx, tag = args
    probes = [_PROBES[i] for i in idx]
    d = tempfile.mkdtemp(prefix='gatlcheck-')
    t0 = time.time()
    out = []
    try:
        flags = probes[0].flags
        if len(probes) == 1 and probes[0].kind != 'value':
            p = probes[0]
            if p.kind == 'symbols':
                st, txt, cmd = compile_src(tu_source([p]), d, 'tu', flags, extra=('', '-O0'))
            else:
                st, txt, cmd = compile_src(tu_source([p]), d, 'tu', flags, dump=False)
            r = {'name': p.name, 'what': p.what, 'status': 'ok', 'violations': [], 'kind': p.kind}
            if st in ('timeout', 'ice'):
                r['status'], r['why'] = 'unsupported', '%s: %s' % (st, txt)
            elif p.kind == 'symbols' and st == 'ok':
                strong = strong_symbols(os.path.join(d, 'tu.o'))
                r['outputs'] = len(strong)
                for n in strong:
                    if not n.startswith('gatlcheck_'):
                        r['violations'].append({'kind': 'strong-symbol', 'text': 'the header defines %s in every translation unit that includes it' % n})
                if r['violations']:
                    r['status'] = 'violation'
            elif p.kind in ('compiles', 'symbols') and st == 'error':
                r['status'] = 'violation'
                r['violations'].append({'kind': 'does-not-compile', 'text': txt})
            elif p.kind == 'rejected' and st == 'ok':
                r['status'] = 'violation'
                r['violations'].append({'kind': 'accepted', 'text': 'the compiler accepts a program that must be rejected'})
            elif p.kind == 'rejected':
                r['diagnostic'] = txt[:300]
            r['secs'] = round(time.time() - t0, 2)
            return [(idx[0], r)]
        st, txt, cmd = compile_src(tu_source(probes), d, 'tu', flags)
        if st == 'ok':
            want = {p.name for p in probes}
            fns = gimple.parse(txt, lambda n: n in want)
            fns['*names*'] = gimple.name_text(txt)
            for i, p in zip(idx, probes):
                r = check_value(p, None, fns)
                out.append((i, r))
        elif st == 'error' or len(probes) > 1:
            if len(probes) == 1:
                p = probes[0]
                out.append((idx[0], {'name': p.name, 'what': p.what, 'status': 'violation', 'violations': [{'kind': 'does-not-compile', 'text': txt}]}))
            else:
                # those that the compiler's messages mention alone, the others together again
                bad = blamed(probes, os.path.join(d, 'tu.err'))
                if not bad or len(bad) == len(probes):
                    bad = list(range(len(probes)))
                rest = tuple(idx[k] for k in range(len(idx)) if k not in bad)
                for k in bad:
                    out += alone(idx[k], tag)
                if rest:
                    out += alone(rest[0], tag) if len(rest) == 1 else _work((rest, tag))
        else:
            p = probes[0]
            out.append((idx[0], {'name': p.name, 'what': p.what, 'status': 'unsupported', 'violations': [], 'why': '%s: %s' % (st, txt)}))
        secs = round(time.time() - t0, 2)
        for _, r in out:
            r.setdefault('secs', secs)
        return out
    except Exception as e:
        return [(i, {'name': _PROBES[i].name, 'what': _PROBES[i].what, 'status': 'unsupported', 'violations': [], 'why': 'internal error: ' + traceback.format_exc()[-500:]}) for i in idx]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(probes, max_weight=6.0, max_count=32):
    """-> list of results, in the order of probes"""
    global _PROBES
    _FAILED.value = 0
    names = {}
    for p in probes:
        if p.name in names:
            raise ValueError('duplicate probe name ' + p.name)
        names[p.name] = p
    _PROBES = probes
    groups = []
    open_groups = {}
    for i, p in enumerate(probes):
        if p.kind != 'value':
            groups.append([(i,), p.weight + 0.7])
            continue
        k = (p.header, p.flags)
        g = open_groups.get(k)
        if g is None or g[1] + p.weight > max_weight or len(g[0]) >= max_count:
            g = [(), 0.7]
            groups.append(g)
            open_groups[k] = g
        g[0] += (i,)
        g[1] += p.weight
    groups.sort(key=lambda g: -g[1])
    res = [None] * len(probes)
    with ProcessPoolExecutor(max_workers=JOBS) as ex:
        futs = [ex.submit(_work, (g[0], n)) for n, g in enumerate(groups)]
        for f in as_completed(futs):
            for i, r in f.result():
                res[i] = r
    return res, len(groups)


def locate(p):
    """For a violated probe: the library lines its output is computed by (backward slice in a line-annotated dump)."""
    d = tempfile.mkdtemp(prefix='gatlcheck-')
    try:
        st, txt, cmd = compile_src(tu_source([p]), d, 'tu', p.flags, extra=('-lineno',))
        if st != 'ok':
            return [], cmd
        m = re.search(r'^;; Function .*?\(%s, .*?^}' % re.escape(p.name), txt, re.S | re.M)
        body = m.group(0) if m else ''
        locs = {}
        for f, l in re.findall(r'\[(/[^\s\[\]:]+):(\d+):\d+', body):
            if f.startswith(REPO):
                locs[(f, int(l))] = locs.get((f, int(l)), 0) + 1
        return ['%s:%d' % (os.path.relpath(f, REPO), l) for (f, l), c in sorted(locs.items(), key=lambda x: -x[1])][:25], cmd
    except Exception:
        return [], ''
    finally:
        shutil.rmtree(d, ignore_errors=True)
