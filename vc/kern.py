"""Generated kernels: text produced by the real code generation of /repo, given a meaning on functional arrays.

NumPy text is executed as it is on functional arrays (vc.farr). Cython text is parsed (a nest of loops over the space
indices around a list of assignments, the only shape produced) and given its closed form: every loop point executes the
body on the values of its own point; this is justified on the text by checking that an array written in the nest is
read at the written point only. In-bounds obligations are emitted for every access.
"""
import ast, re, os, tempfile, shutil
from fractions import Fraction as Fr
from . import core as K
from .core import Unsupported, CTX, raw, wrap, add, sub, mul, div, and_, or_, not_, eq, ne, lt, le, gt, ge, ite, real
from .farr import FArr


def emit(generator, backend, directory):
    """run the real code writer of the generator; returns the text of the generated module"""
    import pylbm.generator.autowrap as aw
    ext = {'numpy': '.py', 'cython': '.pyx'}[backend]
    import subprocess
    from types import SimpleNamespace
    names = ('check_output', 'check_call', 'call', 'run', 'Popen')
    fake = {'check_output': lambda *a, **k: b'', 'check_call': lambda *a, **k: 0, 'call': lambda *a, **k: 0,
            'run': lambda *a, **k: SimpleNamespace(returncode=0, stdout=b'', stderr=b''), 'Popen': None}
    saved, err = [], None

    def no(*a, **k):
        raise ImportError('no compilation here')
    fake['Popen'] = no
    try:
        for mod in (subprocess, aw):
            for n in names:
                if hasattr(mod, n):
                    saved.append((mod, n, getattr(mod, n)))
                    setattr(mod, n, fake[n])
        try:
            generator.compile()
        except ImportError as e:
            err = e
    finally:
        for mod, n, v in saved:
            setattr(mod, n, v)
    txt = [open(os.path.join(directory, f)).read() for f in sorted(os.listdir(directory)) if f.endswith(ext) and f != 'setup.py']
    if len(txt) != 1:
        raise Unsupported('generated files: %s (%s)' % (os.listdir(directory), err))
    return txt[0]


_CACHE = {}


def algorithm_text(dic, sorder, backend, settings=None, key=None, algorithm='PullAlgorithm'):
    """(scheme, algorithm, text) for a pylbm dictionary"""
    if key is not None and key in _CACHE:
        return _CACHE[key]
    import pylbm
    from pylbm.generator import Generator
    import pylbm.algorithm
    d = tempfile.mkdtemp()
    try:
        sch = pylbm.Scheme(dic)
        gen = Generator(backend.upper(), d)
        if settings is None:
            from types import SimpleNamespace
            settings = pylbm.Simulation._get_default_algo_settings(SimpleNamespace(generator=gen))
        alg = getattr(pylbm.algorithm, algorithm)(sch, list(sorder), gen, settings)
        alg.generate()
        txt = emit(gen, backend, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if key is not None:
        _CACHE[key] = (sch, alg, txt)
    return sch, alg, txt


# ---------------------------------------------------------------------------------------- running a module text
class Module:
    def __init__(self, text, backend):
        self.backend = backend
        self.text = text
        self.fn = parse_numpy(text) if backend == 'numpy' else parse_cython(text)

    def args(self, name):
        return self.fn[name].argnames

    def call(self, name, **kw):
        if name not in self.fn:
            raise Unsupported('no generated routine %s' % name)
        f = self.fn[name]
        miss = [a for a in f.argnames if a not in kw]
        if miss:
            raise Unsupported('argument %s of %s' % (miss, name))
        return f({a: kw[a] for a in f.argnames})


class NpFn:
    def __init__(self, name, f, argnames):
        self.name, self.f, self.argnames = name, f, argnames

    def __call__(self, kw):
        self.f(**kw)


def constant(f):
    """float constant of a generated text (printed with 15 or 16 digits): the simple rational within rounding, if any"""
    from fractions import Fraction
    f = float(f)
    for d, tol in ((3000, 6e-15), (100000, 4e-16)):
        q = Fraction(f).limit_denominator(d)
        if q != 0 and abs(float(q) - f) <= tol * abs(f):
            return q
    return Fraction(0) if f == 0 else Fraction(repr(f))


class _Const(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(ast.Name('__q', ast.Load()), [n], []), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant):
            return ast.copy_location(ast.Call(ast.Name('__q', ast.Load()), [n], []), n)
        return n


def parse_numpy(text):
    from .npshim import NP
    tree = ast.parse(text)
    tree.body = [n for n in tree.body if not isinstance(n, (ast.Import, ast.ImportFrom))]
    tree = ast.fix_missing_locations(_Const().visit(tree))
    from .npshim import arbitrary_function
    env = {'__q': constant, **{'E%d' % i: arbitrary_function('E%d' % i) for i in range(30)}, 'numpy': NP(), 'np': NP(), '__name__': __name__}
    from .load import Instr
    exec(compile(tree, '<generated>', 'exec'), env)
    out = {}
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            out[n.name] = NpFn(n.name, env[n.name], [a.arg for a in n.args.args])
    return out


class CyFn:
    def __init__(self, name, args, body):
        self.name, self.types, self.body = name, dict(args), body
        self.argnames = [a for a, _ in args]

    def __call__(self, kw):
        run_cython(self, kw)


def parse_cython(text):
    """name -> CyFn; body: list of ('for', var, lo, hi, [..]) | ('=', target, value) | ('if', cond, [..])"""
    out = {}
    lines = text.split('\n')
    # join parenthesised continuation lines
    i = 0
    cur = None
    stack = None
    for head in ('boundscheck=False', 'wraparound=False', 'cdivision=True'):
        pass
    while i < len(lines):
        l = lines[i]
        i += 1
        if not l.strip() or l.strip().startswith('#') or l.startswith('from ') or l.startswith('import ') or l.startswith('cimport '):
            continue
        while l.count('(') > l.count(')') and i < len(lines):
            l = l + ' ' + lines[i].strip()
            i += 1
        m = re.match(r'def (\w+)\((.*)\):\s*$', l)
        if m:
            args = []
            for a in split_args(m.group(2)):
                t, n = a.rsplit(' ', 1)
                args.append((n.strip(), t.strip()))
            cur = CyFn(m.group(1), args, [])
            cur.locals = {}
            out[cur.name] = cur
            stack = [(-1, cur.body)]
            continue
        ind = len(l) - len(l.lstrip())
        s = l.strip()
        if s.startswith('cdef '):
            m = re.match(r'cdef (double const|double|int) (\w+)(\[.*\])?( *= *(.*))?$', s)
            if not m:
                raise Unsupported('declaration ' + s)
            cur.locals[m.group(2)] = (m.group(1), m.group(3))
            if m.group(5):
                while len(stack) > 1:
                    stack.pop()
                stack[-1][1].append(('=', ast.parse(m.group(2), mode='eval').body, ast.parse(m.group(5), mode='eval').body))
            continue
        while len(stack) > 1 and ind <= stack[-1][0]:
            stack.pop()
        m = re.match(r'for (\w+) in range\((.*)\):$', s)
        if m:
            lo, hi = split_args(m.group(2))
            b = []
            stack[-1][1].append(('for', m.group(1), ast.parse(lo.strip(), mode='eval').body, ast.parse(hi.strip(), mode='eval').body, b))
            stack.append((ind, b))
            continue
        m = re.match(r'(if|elif) (.*):$', s)
        if m or s == 'else:':
            b = []
            kind = m.group(1) if m else 'else'
            c = ast.parse(m.group(2).strip(), mode='eval').body if m else None
            if kind == 'if':
                stack[-1][1].append(('if', [(c, b)]))
            else:
                if not stack[-1][1] or stack[-1][1][-1][0] != 'if':
                    raise Unsupported('dangling ' + s)
                stack[-1][1][-1][1].append((c, b))
            stack.append((ind, b))
            continue
        t = ast.parse(s).body
        if len(t) != 1 or not isinstance(t[0], ast.Assign):
            raise Unsupported('statement ' + s)
        stack[-1][1].append(('=', t[0].targets[0], t[0].value))
    return out


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '([':
            d += 1
        elif ch in ')]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


# ---- expressions
CFUN = {'fabs': lambda x: K.abs_(real(x)), 'sqrt': lambda x: K.sqrt_(real(x)), 'abs': lambda x: K.abs_(x)}


def evaluate(e, env, read):
    """raw value of a Python/Cython expression node; env: name -> raw; read(name, [raw indices])"""
    ev = lambda x: evaluate(x, env, read)
    if isinstance(e, ast.Constant):
        if isinstance(e.value, float):
            return constant(e.value)
        return e.value
    if isinstance(e, ast.Name):
        if e.id in env:
            return env[e.id]
        if e.id in ('M_PI', 'M_E'):
            import math
            return K.rationalize(math.pi if e.id == 'M_PI' else math.e)
        raise Unsupported('name %s read before it is set' % e.id)
    if isinstance(e, ast.UnaryOp):
        v = ev(e.operand)
        return K.neg(v) if isinstance(e.op, ast.USub) else not_(v) if isinstance(e.op, ast.Not) else v
    if isinstance(e, ast.BinOp):
        a, b = ev(e.left), ev(e.right)
        if isinstance(e.op, ast.Add):
            return add(a, b)
        if isinstance(e.op, ast.Sub):
            return sub(a, b)
        if isinstance(e.op, ast.Mult):
            return mul(a, b)
        if isinstance(e.op, ast.Div):
            if isinstance(a, int) and isinstance(b, int):
                return Fr(a, b)
            return div(real(a), real(b))
        if isinstance(e.op, ast.Pow) and isinstance(b, int):
            return K.pow_(a, b) if b >= 0 else div(1, real(K.pow_(a, -b)))
        if isinstance(e.op, ast.Mod):
            return K.mod(a, b)
        raise Unsupported('operator %s' % type(e.op).__name__)
    if isinstance(e, ast.Subscript):
        idx = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        return read(e.value.id, [ev(i) for i in idx])
    if isinstance(e, ast.Compare):
        ops = {ast.Lt: lt, ast.LtE: le, ast.Gt: gt, ast.GtE: ge, ast.Eq: eq, ast.NotEq: ne}
        l = ev(e.left)
        r = []
        for o, c in zip(e.ops, e.comparators):
            c = ev(c)
            r.append(ops[type(o)](l, c))
            l = c
        return and_(*r)
    if isinstance(e, ast.BoolOp):
        v = [ev(x) for x in e.values]
        return and_(*v) if isinstance(e.op, ast.And) else or_(*v)
    if isinstance(e, ast.IfExp):
        return ite(ev(e.test), ev(e.body), ev(e.orelse))
    if isinstance(e, ast.Call):
        f = e.func.id if isinstance(e.func, ast.Name) else None
        a = [ev(x) for x in e.args]
        if f in CFUN:
            return CFUN[f](*a)
        if f == 'pow':
            if isinstance(a[1], (int, Fr)) and a[1] == int(a[1]):
                n = int(a[1])
                return K.pow_(real(a[0]), n) if n >= 0 else div(1, real(K.pow_(a[0], -n)))
            if a[1] == Fr(1, 2):
                return K.sqrt_(real(a[0]))
            if a[1] == Fr(-1, 2):
                return div(1, K.sqrt_(real(a[0])))
            return CTX.ufun('pow', *a)
        if f:
            return CTX.ufun(f, *a)
    raise Unsupported('expression ' + ast.unparse(e))


def run_cython(fn, kw):
    arrays = {n: (v if isinstance(v, FArr) else FArr.from_nd(v)) for n, v in kw.items() if '[' in fn.types[n]}
    for n, a in arrays.items():
        nd = fn.types[n][fn.types[n].index('['):].count(':')
        nd = len(split_args(fn.types[n][fn.types[n].index('[') + 1:fn.types[n].rindex(']')]))
        if a.ndim != nd:
            raise K.ModeledError('ValueError: Buffer of %s has wrong number of dimensions (expected %d, got %d)' % (n, nd, a.ndim))
    scal = {n: raw(v) for n, v in kw.items() if n not in arrays}
    # aliasing is not represented: distinct arguments must be distinct arrays
    st = [a.store for a in arrays.values()]
    if len(set(map(id, st))) != len(st):
        raise Unsupported('aliased arrays')
    for node in fn.body:
        _node(fn, node, arrays, scal, [])


def _node(fn, node, arrays, scal, loops):
    if node[0] == '=':
        if not isinstance(node[1], ast.Name):
            if not loops:
                return _nest(fn, [], [node], arrays, scal)
            raise Unsupported('statement outside the innermost loop')
        scal[node[1].id] = evaluate(node[2], scal, None)
        return
    if node[0] == 'for':
        loops = loops + [node[1:4]]
        body = node[4]
        if len(body) == 1 and body[0][0] == 'for':
            return _node(fn, body[0], arrays, scal, loops)
        if any(b[0] == 'for' for b in body):
            raise Unsupported('imperfect loop nest')
        return _nest(fn, loops, body, arrays, scal)
    raise Unsupported('statement %s at top level' % node[0])


def _targets(body, out):
    for b in body:
        if b[0] == '=':
            if isinstance(b[1], ast.Subscript):
                out.append(b[1])
        elif b[0] == 'if':
            for c, bb in b[1]:
                _targets(bb, out)
        else:
            raise Unsupported('statement in a loop nest')


def _idx(e):
    return e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]


def _nest(fn, loops, body, arrays, scal):
    lv = [l[0] for l in loops]
    tg = []
    _targets(body, tg)
    written = {t.value.id for t in tg}
    if len(lv) == 1 and any(isinstance(i, ast.Subscript) for t in tg for i in _idx(t)):
        return _scatter(fn, loops[0], body, arrays, scal)
    # position of each loop variable in the index of each written array
    locate = {}
    for t in tg:
        n = t.value.id
        if n not in arrays:
            if n in fn.locals:
                continue
            raise Unsupported('unknown array ' + n)
        pos = {}
        for k, i in enumerate(_idx(t)):
            if isinstance(i, ast.Name) and i.id in lv:
                pos[i.id] = k
            elif isinstance(i, ast.Name) and i.id in scal:
                pass
            elif not isinstance(i, ast.Constant):
                # an affine index: loop variable plus a constant
                raise Unsupported('written index ' + ast.unparse(t))
        if set(pos) != set(lv):
            raise Unsupported('written index without every loop variable: ' + ast.unparse(t))
        if locate.setdefault(n, pos) != pos:
            raise Unsupported('different layouts for ' + n)

    bounds = []
    for v, lo, hi in loops:
        bounds.append((v, evaluate(lo, scal, None), evaluate(hi, scal, None)))

    def execute(it, readers, check=None):
        """run the body at the loop point it (dict var -> raw); returns dict (array, index key) -> (index, value)"""
        env = dict(scal)
        for n in fn.locals:
            env.pop(n, None)
        env.update(it)
        out = {}
        loc = {}

        def read(n, idx):
            if n in fn.locals:
                return loc[n, tuple(idx)]
            if check:
                check(n, idx, 'read')
            if n in written:
                for k, p in locate[n].items():
                    d = sub(idx[p], it[k])
                    if not (isinstance(K.simp(d), int) and K.simp(d) == 0):
                        raise Unsupported('loop carried dependence on ' + n)
            key = (n,) + tuple(i if isinstance(i, int) else i.get_id() for i in map(K.simp, idx))
            if key in out:
                return out[key][1]
            return readers[n](tuple(idx))

        def run(bl, cond):
            for b in bl:
                if b[0] == '=':
                    v = evaluate(b[2], env, read)
                    if isinstance(b[1], ast.Name):
                        env[b[1].id] = v if cond is True else ite(cond, v, env.get(b[1].id, v))
                        continue
                    n = b[1].value.id
                    idx = [evaluate(i, env, read) for i in _idx(b[1])]
                    if n in fn.locals:
                        loc[n, tuple(idx)] = v
                        continue
                    if check:
                        check(n, idx, 'write')
                    key = (n,) + tuple(i if isinstance(i, int) else i.get_id() for i in map(K.simp, idx))
                    if cond is not True:
                        o = out[key][1] if key in out else readers[n](tuple(idx))
                        v = ite(cond, v, o)
                    out[key] = (n, real(v), tuple(idx)) if False else ((n, tuple(idx)), real(v))
                else:
                    rest = cond
                    for c, bb in b[1]:
                        cc = True if c is None else evaluate(c, env, read)
                        run(bb, and_(rest, cc))
                        rest = and_(rest, not_(cc))
        run(body, True)
        return out

    # obligations: accesses in bounds at a generic loop point
    it = {v: raw(CTX.fresh('it_' + v)) for v, lo, hi in bounds}
    inside = and_(*[and_(ge(it[v], lo), lt(it[v], hi)) for v, lo, hi in bounds])
    seen = set()

    def check(n, idx, what):
        key = (n, tuple(str(i) for i in idx))
        if key in seen:
            return
        seen.add(key)
        sh = arrays[n]._shape
        if len(idx) != len(sh):
            raise Unsupported('rank of ' + n)
        CTX.prove('%s: accesses of %s in bounds' % (fn.name, n), K.implies(inside, and_(*[and_(ge(i, 0), lt(i, s)) for i, s in zip(idx, sh)])))
    rd0 = {n: a.reader() for n, a in arrays.items()}
    execute(it, rd0, check)

    cache = {}

    def at_point(itn):
        k = tuple(i if isinstance(i, int) else i.get_id() for i in itn.values())
        if k not in cache:
            cache[k] = (execute(itn, rd0), itn)
        return cache[k][0]

    def final(n):
        pos = locate[n]
        a = arrays[n]

        def at(idx):
            itn = {v: idx[pos[v]] for v in lv}
            ok = and_(*[and_(ge(itn[v], lo), lt(itn[v], hi)) for v, lo, hi in bounds])
            res = at_point(itn)
            r = rd0[n](idx)
            for (m, wi), v in res.values():
                if m == n:
                    hit = and_(*[eq(x, y) for k, (x, y) in enumerate(zip(idx, wi)) if k not in pos.values()])
                    r = ite(hit, v, r)
            return ite(ok, r, rd0[n](idx))
        return FArr.make(a._shape, at, a.sort)
    new = {n: final(n) for n in written if n in arrays}
    for n, v in new.items():
        arrays[n][...] = v


def _scatter(fn, loop, body, arrays, scal):
    """for i in range(n): a[index arrays at i] = expression: each iteration writes one entry; obligations: accesses in
    bounds, an entry is written by one iteration, and no iteration reads an entry written before it"""
    from .farr import Scatter
    var, lo, hi = loop
    lo, hi = evaluate(lo, scal, None), evaluate(hi, scal, None)
    if lo != 0 or len(body) != 1 or body[0][0] != '=' or not isinstance(body[0][1], ast.Subscript):
        raise Unsupported('loop over index arrays')
    target, expr = body[0][1], body[0][2]
    w = target.value.id
    if w not in arrays:
        raise Unsupported('unknown array ' + w)
    rd = {n: a.reader() for n, a in arrays.items()}

    def run(i, check=None):
        env = dict(scal)
        env[var] = i

        def read(n, idx):
            if n == w and check is not None:
                check(n, idx, 'read')
            elif check is not None:
                check(n, idx, 'index')
            return rd[n](tuple(idx))
        row = tuple(evaluate(e, env, read) for e in _idx(target))
        if check is not None:
            check(w, row, 'write')
        return row, (lambda: real(evaluate(expr, env, read)))
    n = hi
    ok = lambda i: and_(ge(i, 0), lt(i, n))
    i, j = raw(CTX.fresh('it_' + var)), raw(CTX.fresh('it_' + var))

    def check(nm, idx, what):
        sh = arrays[nm]._shape
        if len(idx) != len(sh):
            raise Unsupported('rank of ' + nm)
        CTX.prove('%s: accesses of %s in bounds' % (fn.name, nm), K.implies(ok(i), and_(*[and_(ge(a, 0), lt(a, s)) for a, s in zip(idx, sh)])))
        if what == 'read':
            row = run(j)[0]
            CTX.prove('%s: an iteration reads no entry written before it' % fn.name, K.implies(and_(ok(i), ok(j), lt(j, i)), not_(and_(*[eq(a, b) for a, b in zip(idx, row)]))))
    row, val = run(i, check)
    val()
    sc = Scatter(lambda k: run(k)[0], n, fn.name)
    a = arrays[w]

    def at(idx):
        c, t = sc.hit(idx)
        return ite(c, run(t)[1](), rd[w](idx))
    arrays[w][...] = FArr.make(a._shape, at, a.sort)
