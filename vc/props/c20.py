"""C20 saved files: values and coordinates of the whole grid at the right positions, XDMF description"""
import os
import xml.etree.ElementTree as ET


def parse(text):
    """(topology, geometry, items of the geometry, attributes) of an XDMF text"""
    root = ET.fromstring(text.strip())
    one = lambda e, t: (lambda l: l[0] if len(l) == 1 else (_ for _ in ()).throw(ValueError('%d elements %s' % (len(l), t))))(list(e.iter(t)))
    item = lambda d: (d.get('Format'), (d.get('Dimensions') or '').split(), (d.text or '').strip())
    top, geo = one(root, 'Topology'), one(root, 'Geometry')
    dims = (top.get('NumberOfElements') or top.get('Dimensions') or '').split()
    return ((top.get('TopologyType') or top.get('Type'), dims), geo.get('GeometryType') or geo.get('Type'), [item(d) for d in geo.iter('DataItem')],
            [(a.get('Name'), a.get('AttributeType'), a.get('Center'), [item(d) for d in a.iter('DataItem')]) for a in root.iter('Attribute')])


def judge(text, h5, n, fields, same):
    """None or (key, message): the description `text` of the file h5, global sizes n, fields {name: 'Scalar'|'Vector'}; same(token, size)"""
    try:
        (top, tdim), geo, coords, attrs = parse(text)
    except (ET.ParseError, ValueError) as e:
        return ('xml', 'not a valid description: %s' % e)
    dim = len(n)
    eqs = lambda toks, sizes: len(toks) == len(sizes) and all(same(a, b) for a, b in zip(toks, sizes))
    if dim > 1:
        if top not in ('%dDRectMesh' % dim,) or geo not in (('VXVY', 'VXVYVZ')[dim - 2],):
            return ('topology', 'topology %s, geometry %s in dimension %d' % (top, geo, dim))
        if not eqs(tdim, n[::-1]):
            return ('topology dimensions', 'the topology of a grid of %s points is %s (slowest index first expected, as the data sets)' % (n, ' '.join(tdim)))
    if len(coords) < dim:
        return ('geometry', '%d coordinates in dimension %d' % (len(coords), dim))
    for i, (f, d, ref) in enumerate(coords[:dim]):
        if f != 'HDF' or ref != '%s:/x_%d' % (h5, i) or not eqs(d, [n[i]]):
            return ('geometry', 'coordinate %d: %s %s %s' % (i, f, d, ref))
    if sorted(a[0] for a in attrs) != sorted(fields):
        return ('fields', 'fields described: %s instead of %s' % ([a[0] for a in attrs], list(fields)))
    for name, kind, center, items in attrs:
        if kind != fields[name] or center != 'Node' or len(items) != 1:
            return ('attribute', 'field %s: %s %s' % (name, kind, center))
        f, d, ref = items[0]
        if f != 'HDF' or ref != '%s:/%s' % (h5, name):
            return ('attribute', 'field %s: %s %s' % (name, f, ref))
        if not eqs(d, n[::-1] + ([3] if kind == 'Vector' else [])):
            return ('dimensions', 'the %s field %s on a grid of %s points is described with the dimensions %s, not those of its data set' % (kind.lower(), name, n, ' '.join(d)))
    return None


class Comm:
    """process `rank` of a grid of processes, run one after the other (the process 0 last)"""

    def __init__(self, grid, sizes, coords, rank, box, copy):
        import itertools
        self.grid, self.sizes, self.coords, self.rank, self.box, self.copy = grid, sizes, coords, rank, box, copy
        self.all = list(itertools.product(*[range(g) for g in grid]))

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return len(self.all)

    def Get_coords(self, r):
        return list(self.all[r])

    def Sub(self, keep):
        assert sum(keep) == 1
        return Line(self, keep.index(True))

    def Barrier(self):
        pass

    def Send(self, buf, dest, tag=0):
        self.box.setdefault((self.rank, dest, tag), []).append(buf[0])

    def Recv(self, buf, source, tag=0):
        assert self.rank == 0, 'receive on the process %d' % self.rank
        q = self.box[(source, 0, tag)]          # messages of a process with the same tag arrive in the order of sending
        self.copy(q.pop(0), buf[0])
        if not q:
            del self.box[(source, 0, tag)]


class Line:
    def __init__(self, c, d):
        self.c, self.d, self.root = c, d, c.all[c.rank][d] == 0

    def allreduce(self, v, op=None):
        t = 0
        for s in self.c.sizes[self.d]:
            t = t + s
        return t

    def gather(self, v, root=0):
        c, d = self.c, self.d
        if not self.root:
            return None
        mine = c.all[c.rank][d]
        # the value of every process of the line: a number of points or the local coordinates
        vals = c.sizes[d] if getattr(v, 'ndim', 0) == 0 else c.coords[d]
        return [v if i == mine else w for i, w in enumerate(vals)]

    def Free(self):
        pass


def check_case(case):
    import numpy as np, tempfile, shutil, h5py
    from types import SimpleNamespace as NS
    import pylbm.hdf5 as PH
    import itertools
    rng = np.random.default_rng(case['seed'])
    grid, sizes = case['grid'], case['sizes']
    dim = len(grid)
    n = [sum(s) for s in sizes]
    start = [np.concatenate([[0], np.cumsum(s)]) for s in sizes]
    X = [np.sort(rng.uniform(-1, 1, k)) for k in n]
    dt = lambda: np.dtype(case['dtype'])
    mk = lambda: (rng.uniform(-2, 2, n) * 100).astype(dt())
    fields = {}
    for name, kind in case['fields']:
        fields[name] = mk() if kind == 'Scalar' else [mk() for _ in range(dim)]
    cut = lambda a, p: np.asarray(a[tuple(slice(start[d][p[d]], start[d][p[d] + 1]) for d in range(dim))])
    layout = (lambda a: np.asfortranarray(a)) if case['fortran'] else (lambda a: a)

    def copy(src, dst):
        if not (src.flags.c_contiguous and dst.flags.c_contiguous):
            raise BufferError('message in a non contiguous array')
        if src.nbytes > dst.nbytes:
            raise BufferError('message truncated')
        dst.reshape(-1).view(np.uint8)[:src.nbytes] = np.frombuffer(src.tobytes(), np.uint8)
    tmp = tempfile.mkdtemp(prefix='c20')
    cwd = os.getcwd()
    real = PH.mpi
    try:
        os.chdir(tmp)
        box = {}
        single = all(g == 1 for g in grid)
        names = []
        for step in case['steps']:
            for rank in list(range(1, int(np.prod(grid)))) + [0]:
                comm = Comm(grid, sizes, [[X[d][start[d][p]:start[d][p + 1]] for p in range(grid[d])] for d in range(dim)], rank, box, copy)
                p = comm.all[rank]
                if single and case['mpi']:
                    import mpi4py.MPI as M
                    topo = NS(cartcomm=M.COMM_WORLD.Create_cart([1] * dim))
                else:
                    topo = NS(cartcomm=comm)
                    PH.mpi = NS(COMM_WORLD=comm, SUM=None, DOUBLE=None)
                h = PH.H5File(topo, case['name'], *([case['path']] if case['path'] is not None else []), **({} if step is None else {'timestep': step}))
                h.set_grid(*[X[d][start[d][p[d]]:start[d][p[d] + 1]] for d in range(dim)])
                for name, kind in case['fields']:
                    v = fields[name]
                    if kind == 'Scalar':
                        a = layout(cut(v, p))
                        if case['func']:
                            h.add_scalar(name, lambda s, b=a: b if s == 1 else None, 1)
                        else:
                            h.add_scalar(name, a)
                    else:
                        a = [layout(cut(u, p)) for u in v]
                        if case['func']:
                            h.add_vector(name, lambda b=a: b)
                        else:
                            h.add_vector(name, a)
                h.save()
                if single and case['mpi']:
                    topo.cartcomm.Free()
            base = os.path.splitext(case['name'])[0] + ('' if step is None else '_%s' % step)
            names.append(base)
            path = os.path.join(case['path'] or '', base)
            if not os.path.isfile(path + '.h5') or not os.path.isfile(path + '.xdmf'):
                return ('files', 'the files %s.h5 and .xdmf are not written: %s' % (path, [os.path.join(a, b) for a, _, c in os.walk(tmp) for b in c]))
            with h5py.File(path + '.h5', 'r') as f:
                want = ['x_%d' % i for i in range(dim)] + [k for k, _ in case['fields']]
                if sorted(f) != sorted(want):
                    return ('data sets', '%s instead of %s' % (sorted(f), sorted(want)))
                for i in range(dim):
                    if not np.array_equal(f['x_%d' % i][:], X[i]):
                        return ('coordinates', 'x_%d is %s instead of %s' % (i, f['x_%d' % i][:].tolist(), X[i].tolist()))
                for k, kind in case['fields']:
                    d = f[k][:]
                    shape = tuple(n[::-1]) + ((3,) if kind == 'Vector' else ())
                    if d.shape != shape:
                        return ('shape', 'the data set %s has the shape %s instead of %s' % (k, d.shape, shape))
                    for c, u in ([((), fields[k])] if kind == 'Scalar' else [((j,), u) for j, u in enumerate(fields[k])]):
                        if not np.array_equal(d[(Ellipsis,) + c].T, u):
                            w = np.argwhere(d[(Ellipsis,) + c].T != u)[0]
                            return ('values', 'field %s component %s: the value of the point %s is %r instead of %r' % (k, c, w.tolist(), float(d[(Ellipsis,) + c].T[tuple(w)]), float(u[tuple(w)])))
            r = judge(open(path + '.xdmf').read(), base + '.h5', n, dict(case['fields']), lambda a, b: a == str(int(b)))
            if r:
                return r
        if len(set(names)) != len(names) and len(set(case['steps'])) == len(names):
            return ('names', 'two saves use the same name')
    finally:
        PH.mpi = real
        os.chdir(cwd)
        shutil.rmtree(tmp)
    return None


def make(rng):
    dim = rng.choice([1, 2, 2, 3])
    grid = [rng.choice([1, 1, 2, 3]) for _ in range(dim)] if rng.random() < .6 else [1] * dim
    fields = [('f%d' % i, 'Vector' if rng.random() < .4 and dim > 1 else 'Scalar') for i in range(rng.randint(0, 4))]
    return dict(grid=grid, sizes=[[rng.choice([1, 2, 3, 4, 5, 6]) for _ in range(g)] for g in grid], fields=fields, seed=rng.randint(0, 10**6), fortran=rng.random() < .4, func=rng.random() < .3, mpi=False,
                dtype=rng.choice(['float64', 'float64', 'float32', 'int64']), name=rng.choice(['out', 'out.h5', 'run-a']), path=rng.choice([None, 'res', 'res', './res']), steps=rng.choice([[None], [0], [1, 2, 10]]))


def cases(tier, rng):
    import random
    r = random.Random(4)
    for dim in (1, 2, 3):
        c = make(r)
        c.update(grid=[1] * dim, sizes=[[3 + i] for i in range(dim)], mpi=True, fields=[('a', 'Scalar')] + ([('b', 'Vector')] if dim > 1 else []), dtype='float64')
        yield c
    while True:
        yield make(rng)


def proofs(tier):
    from vc.core import CTX, raw, wrap, add, sub, eq, and_, implies, lt, ge, SReal, real
    from vc.farr import FArr
    from types import SimpleNamespace as NS
    import itertools

    def run(grid, path, name, step, fields):
        def f(c):
            import pylbm.hdf5 as PH
            dim = len(grid)
            c.ghosts['tokens'] = []
            lo = 2 if tier == 'quick' and sum(grid) > 3 else 1
            sizes = [[c.int('size_%d_%d' % (d, p), lo=lo) for p in range(g)] for d, g in enumerate(grid)]
            c.case(lambda v: dict(grid=list(grid), sizes=[[max(1, v.get('size_%d_%d' % (d, p), 2)) % 50 for p in range(g)] for d, g in enumerate(grid)], fields=[list(x[:2]) for x in fields], seed=1, fortran=False,
                                  func=any(x[2] for x in fields), mpi=False, dtype='int64' if any(x[3] == 'I' for x in fields) else 'float64', name=name, path=path, steps=[3 if step else None]))
            xs = [[FArr.symbolic('x_%d_%d' % (d, p), [raw(s)], 'R') for p, s in enumerate(sizes[d])] for d in range(dim)]
            procs = list(itertools.product(*[range(g) for g in grid]))
            local = lambda p: [raw(sizes[d][p[d]]) for d in range(dim)]
            data = {}
            for nm, kind, fn, sort in fields:
                for p in procs:
                    data[nm, p] = [FArr.symbolic('%s_%d_%s' % (nm, j, '_'.join(map(str, p))), local(p), sort) for j in range(dim if kind == 'Vector' else 1)]
            n = [0] * dim
            offs = []
            for d in range(dim):
                o = [0]
                for s in sizes[d]:
                    o.append(add(o[-1], raw(s)))
                offs.append(o)
            n = [o[-1] for o in offs]
            files, dirs, texts, sets = [], [], {}, {}
            # a generic point of every process
            pt = {p: [raw(c.int('i_%s_%d' % (''.join(map(str, p)), d), lo=0)) for d in range(dim)] for p in procs}
            for p in procs:
                c.assume(and_(*[lt(i, s) for i, s in zip(pt[p], local(p))]))

            class Dset:
                def __init__(self, shape):
                    self.a = FArr.const([raw(s) for s in shape], 0, 'R')
                    self.a = self.a.copy()

                def __setitem__(self, k, v):
                    self.a[k] = v

            class File:
                def __init__(self, fname, mode):
                    files.append((fname, mode))
                    self.open = True

                def create_dataset(self, nm, shape, dtype=None):
                    c.prove('data set in an open file, once', self.open and nm not in sets)
                    c.prove('data sets of doubles', str(dtype).find('double') >= 0 or str(dtype).find('float64') >= 0)
                    sets[nm] = Dset(list(shape))
                    return sets[nm]

                def close(self):
                    self.open = False

            class Text:
                def __init__(self, fname, mode='r', **k):
                    assert mode == 'w', mode
                    self.f = fname
                    texts[fname] = ''

                def write(self, t):
                    texts[self.f] += t

                def close(self):
                    pass

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    pass

            def copy(src, dst):
                c.prove('the message has the size of the buffer', and_(len(src._shape) == len(dst._shape), *[eq(raw(a), raw(b)) for a, b in zip(src._shape, dst._shape)]))
                c.prove('the message is made of doubles', src.sort == 'R' and dst.sort == 'R')
                dst[...] = src
            old = {k: getattr(PH, k) for k in ('mpi', 'h5py', 'os')}
            box = {}
            P = os.path

            def mkdir(x, *a, **k):
                dirs.append(x)
            t = c.int('step') if step else None
            try:
                PH.h5py = NS(File=File)
                PH.os = NS(path=NS(splitext=P.splitext, join=P.join, exists=lambda x: False if x not in dirs else True, isdir=lambda x: x in dirs, normpath=P.normpath, abspath=P.abspath, dirname=P.dirname, basename=P.basename), mkdir=mkdir, makedirs=mkdir, sep='/')
                PH.open = Text
                for rank in list(range(1, len(procs))) + [0]:
                    comm = Comm(list(grid), sizes, xs, rank, box, copy)
                    p = procs[rank]
                    PH.mpi = NS(COMM_WORLD=comm, SUM=None, DOUBLE=None)
                    h = PH.H5File(NS(cartcomm=comm), name, *([] if path is None else [path]), **({'timestep': t} if step else {}))
                    h.set_grid(*[xs[d][p[d]] for d in range(dim)])
                    for nm, kind, fn, sort in fields:
                        v = data[nm, p]
                        v = v[0] if kind == 'Scalar' else list(v)
                        add_ = h.add_scalar if kind == 'Scalar' else h.add_vector
                        if fn:
                            tok = object()
                            def g(*a, v=v, tok=tok):
                                c.prove('the arguments are given to the function', len(a) == 2 and a[0] is tok and a[1] == 5)
                                return v
                            add_(nm, g, tok, 5)
                        else:
                            add_(nm, v)
                    h.save()
            finally:
                for k, v in old.items():
                    setattr(PH, k, v)
                if 'open' in PH.__dict__:
                    del PH.open
            base = P.splitext(name)[0] + ('_' + repr(t) if step else '')
            full = P.join(path, base) if path else base
            norm = lambda q: P.normpath(q)
            c.prove('one file of data, in the directory', len(files) == 1 and norm(files[0][0]) == norm(full + '.h5') and files[0][1] == 'w')
            c.prove('one description, in the directory', len(texts) == 1 and norm(list(texts)[0]) == norm(full + '.xdmf'))
            c.prove('the directory is created', [norm(x) for x in dirs] == ([norm(path)] if path else []))
            c.prove('every message is received', not box)
            c.prove('the data sets', sorted(sets) == sorted(['x_%d' % d for d in range(dim)] + [x[0] for x in fields]))
            for d in range(dim):
                a = sets['x_%d' % d].a
                c.prove('coordinate %d: one value by point' % d, and_(len(a._shape) == 1, eq(a._shape[0], n[d])))
                for q in range(grid[d]):
                    i = pt[tuple(q if e == d else 0 for e in range(dim))][d]
                    c.prove('coordinate %d: the values are those of the points' % d, eq(a.at((add(offs[d][q], i),)), xs[d][q].at((i,))))
            for nm, kind, fn, sort in fields:
                a = sets[nm].a
                want = n[::-1] + ([3] if kind == 'Vector' else [])
                c.prove('field %s: the shape is the one of the grid' % nm, and_(len(a._shape) == len(want), *[eq(raw(x), y) for x, y in zip(a._shape, want)]))
                for p in procs:
                    g = [add(offs[d][p[d]], pt[p][d]) for d in range(dim)]
                    for j, u in enumerate(data[nm, p]):
                        c.prove('field %s: the value of a point of the process %s' % (nm, ''.join(map(str, p))), eq(real(a.at(tuple(g[::-1]) + ((j,) if kind == 'Vector' else ()))), real(raw(u.at(tuple(pt[p]))))))
            toks = c.ghosts['tokens']

            def same(a, b):
                if a.startswith('\u27e6'):
                    return c.entails(eq(toks[int(a[1:-1])], b))
                return not isinstance(b, int) and c.entails(eq(int(a), b)) or a == str(b)
            r = judge(list(texts.values())[0], base + '.h5', n, {x[0]: x[1] for x in fields}, same)
            for key in ('xml', 'topology', 'topology dimensions', 'geometry', 'fields', 'attribute', 'dimensions'):
                c.prove('description: ' + key, not (r and r[0] == key))
        return f
    out = []
    F = lambda dim: [('rho', 'Scalar', False, 'R'), ('k', 'Scalar', True, 'I')] + ([('u', 'Vector', False, 'R'), ('w', 'Vector', True, 'I')] if dim > 1 else [])
    grids = [(1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (2, 2), (2, 3), (1, 1, 1), (2, 1, 1), (1, 2, 2), (2, 2, 2)]
    if tier != 'quick':
        grids += [(5,), (3, 3), (3, 2), (4, 2), (2, 3, 2), (3, 1, 2), (1, 3, 3)]
    for g in grids:
        out.append(('files of processes %s' % 'x'.join(map(str, g)), run(g, 'res', 'out', True, F(len(g))), dict(functions=['pylbm.hdf5.H5File.' + x for x in ('__init__', 'set_grid', '_get_slice', '_set_dset', 'add_scalar', 'add_vector', 'save')], budget=200, timeout=20)))
    for g in ((1,), (1, 1), (1, 1, 1)):
        for path in (None, 'res', './res/'):
            for name in ('out', 'out.h5'):
                for step in (False, True):
                    out.append(('names %s in %s%s dim %d' % (name, path, ' with a step' if step else '', len(g)), run(g, path, name, step, [('a', 'Scalar', False, 'R')]), dict(functions=['pylbm.hdf5.H5File.__init__', 'pylbm.hdf5.H5File.save'], budget=60, timeout=20)))
    return out
