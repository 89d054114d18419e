"""Writing and reading: all small meshes (subsets of lines and triangles, every order) times file formats times sequences of write/read,
torn files (every prefix), meshio objects with several blocks and groups, and saved fields, against the object in memory."""
import contextlib, copy, io, itertools, os, pickle, shutil, tempfile
import numpy as np
import vlib

PROPERTY = 'C20'
RULE = 'State: (mesh, format or sequence of formats). Non-trivial: the mesh has elements.'
CASE_TIMEOUT = 600


def setup(tier, seed):
    global t, M, G, E, S, I, T, U, meshio
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)
    import meshio
    import traceon.util as U
    M, G, E, S, T = t.mesher, t.geometry, t.excitation, t.solver, t.tracing
    import traceon.interpolation as I


# formats with the kinds of meshes that they can represent
# l: lines, t: triangles, b: both, L: line4, T: triangle6, x: mixtures of orders
FORMATS = {
    '.vtk': 'ltbLTx', '.vtu': 'ltbLTx', '.inp': 'ltbT', '.mdpa': 'ltbT', '.vol': 'ltbT', '.ply': 'ltb', '.mesh': 'ltb', '.meshb': 'ltb', '.avs': 'ltb',
    '.post': 'ltb', '.dat': 'lt', '.msh': 't', '.obj': 't', '.off': 't', '.stl': 's',
}
INEXACT = {}

B = np.array([[0, 0, 0], [1 / 3, 0, 0], [0, 0, 2 / 7], [1, 1e-7, 1], [-3., 2, 1], [1e3 / 7, -1e-4 / 3, 4]])
Q = np.concatenate((B, B[:5] + [0.1, 0.2, 0.05]))
LINES = [(0, 1), (2, 1), (4, 5)]
TRIS = [(0, 1, 2), (4, 2, 1), (3, 5, 4)]
LINE4 = [(0, 1, 6, 7), (2, 1, 8, 7), (4, 5, 10, 9)]
TRI6 = [(0, 1, 2, 6, 7, 8), (4, 2, 1, 9, 8, 7), (3, 5, 4, 10, 6, 9)]


def subsets(x):
    return [list(c) for r in range(len(x) + 1) for c in itertools.combinations(x, r)]


def meshes():
    out = []
    for i, l in enumerate(subsets(LINES)):
        for j, tr in enumerate(subsets(TRIS)):
            kind = 'b' if l and tr else 'l' if l else 't' if tr else 'e'
            if kind != 'e':
                out.append((f'lines {l} triangles {tr}', kind, lambda l=l, tr=tr: M.Mesh(points=B, lines=l, triangles=tr, physical_to_lines={'a': np.arange(len(l))} if l else {}, physical_to_triangles={'a': np.arange(len(tr))[::2]} if tr else {})))
    for l in subsets(LINE4)[1:]:
        out.append((f'line4 {l}', 'L', lambda l=l: M.Mesh(points=Q, lines=l)))
        for tr in (TRIS[:2], TRI6[1:]):
            out.append((f'line4 {l} triangles {tr}', 'x', lambda l=l, tr=tr: M.Mesh(points=Q, lines=l, triangles=tr)))
    for tr in subsets(TRI6)[1:]:
        out.append((f'triangle6 {tr}', 'T', lambda tr=tr: M.Mesh(points=Q, triangles=tr)))
        out.append((f'lines triangle6 {tr}', 'x', lambda tr=tr: M.Mesh(points=Q, triangles=tr, lines=LINES)))
    for k, s in enumerate((1e-9, 1., 1e6)):
        g = lambda s=s: G.Surface.sphere(s).mesh(mesh_size=s / 2, name='g')
        out.append((f'sphere {s}', 't', g))
    out.append(('box', 's', lambda: G.Surface.box([0, 0, 0], [1, 2, 3]).mesh(mesh_size=1.)))
    out.append(('two paths', 'l', lambda: (G.Path.circle_xz(2., 1., 0.5) + G.Path.line([0, 0, 0], [1., 0, 0])).mesh(mesh_size=0.2, name='p')))
    out.append(('curved', 'L', lambda: G.Path.circle_xz(2., 1., 0.5).mesh(mesh_size=0.2, name='p', higher_order=True)))
    return out


def quiet(fun):
    """meshio prints; some readers of meshio end the interpreter for an unreadable file."""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            return fun()
        except SystemExit as e:
            raise RuntimeError(f'exit {e}')


def same(a, b, tol=0.):
    if a.points.shape != b.points.shape or a.lines.shape != b.lines.shape and (len(a.lines) or len(b.lines)) or a.triangles.shape != b.triangles.shape and (len(a.triangles) or len(b.triangles)):
        return False
    # compare coordinates of the elements: the order of points is up to the mesh
    def ok(x, y):
        return np.array_equal(x, y) if tol == 0 else np.allclose(x, y, rtol=tol, atol=tol * 100)
    return (not len(a.lines) or ok(a.points[a.lines.astype(int)], b.points[b.lines.astype(int)])) and (not len(a.triangles) or ok(a.points[a.triangles.astype(int)], b.points[b.triangles.astype(int)])) \
        and ok(np.array(sorted(a.points.tolist())), np.array(sorted(b.points.tolist())))


def allowed(ext, kind):
    return kind in FORMATS[ext] or kind == 's' and 't' in FORMATS[ext]


def cases(tier, seed):
    deep = tier == 'thorough'
    out = [dict(what='formats', ext=e) for e in FORMATS]
    out += [dict(what='sequences', first=e, depth=3 if deep or e in ('.vtk', '.vtu', '.inp') else 2) for e in FORMATS]
    out += [dict(what='torn', ext=e, k=k) for e in ('.vtk', '.vtu', 'pickle') for k in range(3)]
    out += [dict(what='blocks', k=k) for k in range(4)]
    out += [dict(what='names'), dict(what='failures'), dict(what='saved')]
    return out


def run(case, rec):
    d = tempfile.mkdtemp(prefix='verif_c20_')
    try:
        {'formats': formats, 'sequences': sequences, 'torn': torn, 'blocks': blocks, 'names': names, 'failures': failures, 'saved': saved}[case['what']](case, rec, d)
    finally:
        shutil.rmtree(d)


def formats(case, rec, d):
    ext = case['ext']
    tol = INEXACT.get(ext, 0.)
    f = os.path.join(d, 'mesh' + ext)
    previous = None
    for name, kind, make in meshes():
        if not allowed(ext, kind):
            continue
        if (name.startswith('sphere 1e') or name == 'curved') and tol:
            continue
        m = make()
        keep = pickle.dumps(m)
        # the same file is written again and again: earlier content must not shine through
        rec.call(f'C20/write', lambda: quiet(lambda: m.write_file(f)))
        rec.check(pickle.dumps(m) == keep, 'C20/modified', lambda: f'{name}: writing {ext} modifies the mesh')
        if previous is not None:
            n = rec.call('C20/read', lambda: quiet(lambda: M.Mesh.read_file(f)))
            rec.check(same(m, n, tol), 'C20/differs', lambda: f'{name}: {ext} reads back as points {n.points.tolist()} lines {n.lines.tolist()} triangles {n.triangles.tolist()}')
            n2 = quiet(lambda: M.Mesh.read_file(f))
            rec.check(same(n2, n), 'C20/again', lambda: f'{name}: reading {ext} twice gives different meshes')
        # the other pair of functions, in another file
        g = os.path.join(d, 'other' + ext)
        rec.call('C20/write', lambda: quiet(lambda: m.write(g)))
        n = rec.call('C20/read', lambda: quiet(lambda: M.Mesh.read(g)))
        rec.check(isinstance(n, M.Mesh) and same(m, n, tol), 'C20/write-read', lambda: f'{name}: Mesh.read of the {ext} file written by Mesh.write differs')
        # from Mesh to meshio and back
        n = rec.call('C20/meshio', lambda: M.Mesh.from_meshio(m.to_meshio()))
        rec.check(same(m, n), 'C20/meshio', lambda: f'{name}: from_meshio(to_meshio()) differs')
        mo = m.to_meshio()
        cells = {c.type: np.asarray(c.data) for c in mo.cells}
        lt, tt = 'line' if m.lines.shape[1] == 2 else 'line4', 'triangle' if m.triangles.shape[1] == 3 else 'triangle6'
        want = {k: v for k, v in ((lt, m.lines), (tt, m.triangles)) if len(v)}
        rec.check(set(cells) == set(want) and all(np.array_equal(cells[k], want[k]) for k in want) and np.array_equal(mo.points, m.points), 'C20/to-meshio', lambda: f'{name}: {cells}')
        # and independently of Mesh.read_file
        r = quiet(lambda: meshio.read(f))
        rec.check(tol or kind == 's' or (np.array_equal(r.points, m.points) and all(k in r.cells_dict and np.array_equal(r.cells_dict[k], want[k]) for k in want)), 'C20/file', lambda: f'{name}: the {ext} file contains {r}')
        previous = m
        rec.state((ext, name))
        rec.step(4)
        rec.trace()


def sequences(case, rec, d):
    """Chains of writing and reading in different formats, starting with the given one."""
    pick = [m for m in meshes() if m[0] in (f'lines {LINES} triangles {TRIS}', f'lines {LINES} triangles []', f'lines [] triangles {TRIS}', 'box', 'curved', f'triangle6 {TRI6}')]
    for name, kind, make in pick:
        if not allowed(case['first'], kind) or case['first'] in INEXACT:
            continue
        usable = [e for e in FORMATS if allowed(e, kind) and e not in INEXACT]
        m0 = make()

        def go(m, path):
            for i, ext in enumerate(usable if path else [case['first']]):
                f = os.path.join(d, f'step{len(path)}{ext}')
                quiet(lambda: m.write_file(f))
                n = quiet(lambda: M.Mesh.read_file(f))
                rec.step()
                rec.state((name, tuple(path), ext))
                rec.check(same(m0, n), 'C20/sequence', lambda: f'{name}: differs after {path + [ext]}')
                if len(path) + 1 < case['depth']:
                    go(n, path + [ext])
                else:
                    rec.trace()
        rec.call('C20/sequence', lambda: go(m0, []))


def torn(case, rec, d):
    """Every prefix of a file: an error, or the same mesh."""
    name, kind, make = [m for m in meshes() if m[0] in (f'lines {LINES} triangles {TRIS}', f'lines {LINES[:1]} triangles []', f'lines [] triangles {TRIS[:2]}')][case['k']]
    ext = case['ext']
    m = make()
    f = os.path.join(d, 'torn' + (ext if ext[0] == '.' else '.geo'))
    if ext == 'pickle':
        write, read = lambda: U.Saveable.write(m, f), lambda: U.Saveable.read(f)
    else:
        write, read = lambda: m.write_file(f), lambda: M.Mesh.read_file(f)
    quiet(write)
    data = open(f, 'rb').read()
    rec.check(same(m, quiet(read)), 'C20/torn', lambda: f'{name}: {ext} differs')
    for n in range(len(data)):
        with open(f, 'wb') as fh:
            fh.write(data[:n])
        try:
            r = quiet(read)
        except Exception:
            r = None
        rec.check(r is None or same(m, r), 'C20/torn', lambda: f'{name}: {n} of {len(data)} bytes of the {ext} file read as points {r.points.tolist()} lines {r.lines.tolist()} triangles {r.triangles.tolist()}')
        rec.state((name, ext, n))
        rec.step()
    rec.trace()


def blocks(case, rec, d):
    """meshio objects with several blocks of cells of one type and groups over them."""
    k = case['k']
    for cut_l in range(4):
        for cut_t in range(4):
            L, TR = [(0, 1), (2, 1), (4, 5)], [(0, 1, 2), (4, 2, 1), (3, 5, 4)]
            cells = [('line', L[:cut_l]), ('triangle', TR[:cut_t]), ('line', L[cut_l:]), ('triangle', TR[cut_t:])]
            cells = [c for c in cells if c[1]]
            if k == 1:
                cells = cells[::-1]
            if k == 2:
                cells = [('vertex', [[0], [3]])] + cells
            if k == 3:
                cells = cells + [('tetra', [[0, 1, 2, 3]])]
            for group in subsets(range(3)):
                # group 'a': these lines and triangles, in the numbering of the original list
                sets = {'a': [], 'b': []}
                for typ, els in cells:
                    src = L if typ == 'line' else TR
                    idx = [i for i, e in enumerate(els) if typ in ('line', 'triangle') and src.index(e) in group]
                    sets['a'].append(np.array(idx, dtype=int))
                    sets['b'].append(np.array([i for i, e in enumerate(els) if typ == 'triangle' and src.index(e) not in group], dtype=int))
                mo = meshio.Mesh(B, [(c, np.array(e)) for c, e in cells], cell_sets=sets)
                m = rec.call('C20/blocks', lambda: M.Mesh.from_meshio(mo))
                P = [tuple(p) for p in m.points.tolist()]
                near = lambda a, b: np.allclose(a, b, rtol=1e-10, atol=0)
                for el, ph, src, grp in ((m.lines, m.physical_to_lines, L, dict(a=group)), (m.triangles, m.physical_to_triangles, TR, dict(a=group, b=[i for i in range(3) if i not in group]))):
                    def number(e):
                        c = sorted(P[int(i)] for i in e)
                        return [j for j, s in enumerate(src) if near(np.array(c), np.array(sorted(B[list(s)].tolist())))]
                    got = [number(e) for e in el]
                    rec.check(sorted(got) == [[0], [1], [2]], 'C20/blocks', lambda: f'{cells}: elements {got}')
                    for g, want in grp.items():
                        v = sorted(got[int(i)][0] for i in ph.get(g, []))
                        rec.check(v == sorted(want), 'C20/groups', lambda: f'{cells} {sets}: group {g} has elements {v}, should have {want}')
                rec.state((k, cut_l, cut_t, tuple(group)))
                rec.step()
    # mixed orders cannot be represented
    for cells in ([('line', [[0, 1]]), ('line4', [[0, 1, 2, 3]])], [('triangle', [[0, 1, 2]]), ('triangle6', [[0, 1, 2, 3, 4, 5]])]):
        rec.raises('C20/mixed', lambda: M.Mesh.from_meshio(meshio.Mesh(B, [(c, np.array(e)) for c, e in cells])))
    rec.trace()


def names(case, rec, d):
    """A name given while reading is the name of every element."""
    for ext in ('.vtk', '.vtu', '.inp', '.stl'):
        for name, kind, make in meshes():
            if not allowed(ext, kind):
                continue
            m = make()
            f = os.path.join(d, 'mesh' + ext)
            quiet(lambda: m.write_file(f))
            for nm in ('all', 'a', ''):
                n = rec.call('C20/name', lambda: quiet(lambda: M.Mesh.read_file(f, name=nm)))
                gl, gt = n.physical_to_lines.get(nm, []), n.physical_to_triangles.get(nm, [])
                rec.check(len(n.lines) == len(m.lines) and len(n.triangles) == len(m.triangles) and sorted(map(int, gl)) == list(range(len(m.lines))) and sorted(map(int, gt)) == list(range(len(m.triangles))), 'C20/name',
                          lambda: f'{name} {ext}: name {nm!r} is given to lines {gl} and triangles {gt}')
                rec.check(set(n.get_electrodes()) == {nm}, 'C20/name', lambda: f'{name} {ext}: electrodes {n.get_electrodes()}')
                rec.step()
            # can be used
            if kind in 'tbs' and not name.startswith('sphere 1e'):
                e = rec.call('C20/use', lambda: E.Excitation(quiet(lambda: M.Mesh.read_file(f, name='all')), E.Symmetry.THREE_D))
                e.add_voltage(all=3.)
                tri = e.get_electrostatic_active_elements()
                rec.check(len(tri[0]) == len(m.triangles), 'C20/use', lambda: f'{name} {ext}: {len(tri[0])} active elements of {len(m.triangles)}')
            rec.state((ext, name))
            rec.trace()


def failures(case, rec, d):
    m = M.Mesh(points=B, lines=LINES, triangles=TRIS)
    f = os.path.join(d, 'x')
    for ext in ('.nonsense', '', '.py'):
        rec.raises('C20/unknown', lambda: quiet(lambda: m.write_file(f + ext)))
        rec.raises('C20/unknown', lambda: quiet(lambda: m.write(f + ext)))
    for ext in FORMATS:
        rec.raises('C20/missing', lambda: quiet(lambda: M.Mesh.read_file(f + ext)))
        rec.raises('C20/missing', lambda: quiet(lambda: M.Mesh.read(f + ext)))
        rec.raises('C20/directory', lambda: quiet(lambda: m.write_file(os.path.join(d, 'none', 'x' + ext))))
        rec.step()
        rec.state(ext)
    rec.raises('C20/missing', lambda: U.Saveable.read(f))
    os.mkdir(f)
    rec.raises('C20/missing', lambda: U.Saveable.read(f))
    rec.raises('C20/directory', lambda: U.Saveable.write(m, f))
    rec.trace()


def saved(case, rec, d):
    """Objects saved with pickle (which is what Saveable uses), read back in this process: all results are the same."""
    a = G.Path.line([1., 0., -1.], [1., 0., -0.2])
    a.name = 'a'
    b = G.Path.line([1., 0., 0.2], [1., 0., 1.])
    b.name = 'b'
    pts = [np.array(p) for p in ((0., 0, 0), (0.1, 0.2, -0.3), (0.3, -0.1, 0.15), (0.5, 0, 0.9))]
    for mesh in ((a + b).mesh(mesh_size=0.2), (a + b).mesh(mesh_size=0.2, higher_order=True)):
        e = E.Excitation(mesh, E.Symmetry.RADIAL)
        e.add_voltage(a=100., b=-50.)
        e2 = E.Excitation(mesh, E.Symmetry.RADIAL)
        e2.add_magnetostatic_potential(a=3., b=1.)
        f, g = S.solve_direct(e), S.solve_direct(e2)
        x = I.FieldRadialAxial(f, -1., 1., 40)
        objs = dict(mesh=mesh, excitation=e, field=f, magnetic=g, sum=2 * f + g, axial=x, axials=x + 3 * x)
        for name, o in objs.items():
            for how in ('Saveable', 'pickle', 'deepcopy', 'copy', 'twice'):
                fn = os.path.join(d, 'saved')

                def rt(o=o):
                    if how == 'Saveable':
                        U.Saveable.write(o, fn)
                        return U.Saveable.read(fn)
                    if how == 'twice':
                        return pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(o))))
                    return pickle.loads(pickle.dumps(o)) if how == 'pickle' else getattr(copy, how)(o)
                r = rec.call('C20/saved', rt)
                rec.check(type(r) is type(o), 'C20/saved', lambda: f'{name}: {how} gives a {type(r)}')
                if name == 'mesh':
                    rec.check(same(r, o) and r.get_electrodes() == o.get_electrodes() and all(np.array_equal(r.physical_to_lines[k], o.physical_to_lines[k]) for k in o.physical_to_lines), 'C20/saved', lambda: f'mesh: {how} differs')
                elif name == 'excitation':
                    rec.check(str(r) == str(o) and same(r.mesh, o.mesh), 'C20/saved', lambda: f'excitation: {how} gives {r}')
                    h = S.solve_direct(r)
                    rec.check(all(h.potential_at_point(p) == f.potential_at_point(p) for p in pts), 'C20/saved', lambda: f'excitation: {how} is solved differently')
                else:
                    for p in pts:
                        for q in ('electrostatic_field_at_point', 'magnetostatic_field_at_point', 'electrostatic_potential_at_point', 'magnetostatic_potential_at_point'):
                            rec.check(np.array_equal(getattr(r, q)(p), getattr(o, q)(p)), 'C20/saved', lambda: f'{name}: {q}{p} is {getattr(r, q)(p)} after {how}, was {getattr(o, q)(p)}')
                rec.state((name, how, mesh.is_higher_order()))
                rec.step()
        rec.trace()
