"""Logging obeys the log level and changes no result: all sequences of level changes and messages up to a length, every spelling of the environment variable in a
process of its own, and a pool of operations of every part of the package at every level, with everything written to the file descriptors 1 and 2 captured."""
import collections, itertools, os, re, subprocess, sys, tempfile
import numpy as np
import vlib, problems as pr

PROPERTY = 'C26'
RULE = ('State: a history of level changes and messages; or (spelling in the environment); or (operation, level). All histories up to the depth, all spellings and all products '
        'are executed. Non-trivial: every one.')
CASE_TIMEOUT = 300


def setup(tier, seed):
    global t, L, SO
    os.environ['TRACEON_THREADS'] = '1'
    os.environ.pop('TRACEON_LOG_LEVEL', None)
    SO = vlib.build_backend()
    t = vlib.import_traceon(SO)
    L = t.logging


LEVELS = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'SILENT']
MESSAGES = {'log_debug': 0, 'log_info': 1, 'log_warning': 2, 'log_error': 3}


class Capture:
    """Everything written to file descriptors 1 and 2."""
    def __enter__(self):
        sys.stdout.flush(); sys.stderr.flush()
        self.f = tempfile.TemporaryFile()
        self.old = os.dup(1), os.dup(2)
        os.dup2(self.f.fileno(), 1); os.dup2(self.f.fileno(), 2)
        return self

    def __exit__(self, *a):
        sys.stdout.flush(); sys.stderr.flush()
        os.dup2(self.old[0], 1); os.dup2(self.old[1], 2)
        os.close(self.old[0]); os.close(self.old[1])
        self.f.seek(0)
        self.text = self.f.read().decode(errors='replace')
        self.f.close()


def set_level(i):
    L.set_log_level(L.LogLevel[LEVELS[i]])


def cases(tier, seed):
    depth = 2 if tier == 'quick' else 3
    out = [{'kind': 'history', 'first': list(p), 'depth': depth} for p in itertools.product(range(5), range(5))]
    spell = [None, '']
    for n in LEVELS:
        spell += [n, n.lower(), n.capitalize(), n.swapcase(), ''.join(c.lower() if i % 2 else c for i, c in enumerate(n))]
    spell += ['verbose', '0', '3', 'information', 'SILENTLY', 'DEB', '__class__', '__members__', 'name', 'value', 'none', 'INFO;', 'mro', 'real', 'critical', 'WARN', '__doc__', '_member_names_']
    out += [{'kind': 'environment', 'spelling': s} for s in sorted(set(spell) - {None})] + [{'kind': 'environment', 'spelling': None}]
    out += [{'kind': 'operation', 'name': n} for n in OPERATIONS]
    out += [{'kind': 'reject'}]
    return out


def run(case, rec):
    globals()['run_' + case['kind']](*[v for k, v in case.items() if k != 'kind'], rec)
    rec.trace()


def run_history(first, depth, rec):
    """level, (message, level)*: every message at every moment."""
    for tail in itertools.product(range(5), repeat=depth):
        levels = [*first, *tail]
        for i, level in enumerate(levels):
            set_level(level)
            rec.step()
            for m, sev in MESSAGES.items():
                text = f'text of {m}: 50% {{}} \\n'
                with Capture() as c:
                    r = rec.call('C26/message', lambda: getattr(L, m)(text))
                rec.step()
                want = sev >= level
                rec.state((tuple(levels[:i + 1]), m))
                rec.check(c.text.count(text) == (1 if want else 0) and (want or c.text == ''), 'C26/message', lambda: f'after the levels {[LEVELS[k] for k in levels[:i + 1]]}: {m} prints {c.text!r}')
        rec.outcome(tuple(levels[-1:]))
    set_level(4)


SCRIPT = '''
import os, sys
sys.path.insert(0, %r)
import vlib
t = vlib.import_traceon(%r)
L = t.logging
for m in ('log_debug', 'log_info', 'log_warning', 'log_error'):
    getattr(L, m)('<' + m + '>')
'''


def run_environment(spelling, rec):
    env = {k: v for k, v in os.environ.items() if k != 'TRACEON_LOG_LEVEL'}
    if spelling is not None:
        env['TRACEON_LOG_LEVEL'] = spelling
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    rec.state(('environment', spelling))
    p = subprocess.run([sys.executable, '-c', SCRIPT % (os.path.join(vlib.VERIF, 'lib'), SO)], env=env, capture_output=True, text=True, timeout=200)
    rec.step()
    if not rec.check(p.returncode == 0, 'C26/environment', lambda: f'TRACEON_LOG_LEVEL={spelling!r}: import fails: {p.stderr[-400:]}'):
        return
    level = LEVELS.index(spelling.upper()) if spelling is not None and spelling.upper() in LEVELS else 1
    got = re.findall('<(log_[a-z]+)>', p.stdout + p.stderr)
    want = [m for m, s in MESSAGES.items() if s >= level]
    rec.check(got == want, 'C26/environment', lambda: f'TRACEON_LOG_LEVEL={spelling!r}: printed {got}, expected {want}')
    rest = re.sub('.*<(log_[a-z]+)>', '', p.stdout + p.stderr).strip()
    rec.check(rest == '', 'C26/environment', lambda: f'TRACEON_LOG_LEVEL={spelling!r}: importing the package prints {rest!r}')
    rec.outcome(tuple(got))


def run_reject(rec):
    for start in range(5):
        set_level(start)
        for bad in (None, 'DEBUG', 'debug', 2.5, [], L.LogLevel):
            rec.state(('reject', start, str(bad)))
            rec.step()
            rec.raises('C26/reject', lambda: L.set_log_level(bad))
            with Capture() as c:
                L.log_warning('hello')
            rec.check(('hello' in c.text) == (start <= 2), 'C26/reject', lambda: f'set_log_level({bad!r}) was rejected, but changed the level {LEVELS[start]}')
    set_level(4)


# ---- operations: name -> function returning comparable results

def radial(higher=False):
    G = t.geometry
    return pr.line_mesh(t, pr.radial_segments(4), higher=higher, tris=pr.COIL)


def excitation(kind):
    E = t.excitation
    if kind == '3d':
        e = E.Excitation(pr.tri_mesh(t, [(n, p) for n, (_, p) in zip('abcabc', pr.triangles_3d(6))]), E.Symmetry.THREE_D)
    else:
        e = E.Excitation(radial(kind == 'radial4'), E.Symmetry.RADIAL)
    e.add_voltage(a=2., b=-1.)
    e.add_dielectric(c=3.)
    return e


def field(kind):
    return t.solver.solve_direct(excitation(kind))


def values(f):
    P = [(.1, .2, .3), (0., 0., .5), (.4, -1.7, -2.)]
    return [np.concatenate([[f.potential_at_point(np.array(p))], f.field_at_point(np.array(p))]) if f.is_electrostatic() or f.is_magnetostatic() else 0. for p in P]


def mesh_of(m):
    return [m.points, m.lines, m.triangles, sorted((k, v.tolist()) for k, v in m.physical_to_lines.items()), sorted((k, v.tolist()) for k, v in m.physical_to_triangles.items())]


def boundary(kind):
    def f():
        G, E = t.geometry, t.excitation
        if kind == '3d':
            m = G.Surface.box([0., 0, 0], [1., 1, 2])
            m.name = 'bound'
            m = m.mesh(mesh_size=.7) + pr.tri_mesh(t, [('a', ((.2, .2, .5), (.8, .2, .5), (.5, .8, .6))), ('b', ((.2, .2, 1.5), (.8, .2, 1.5), (.5, .8, 1.6)))])
        else:
            p = G.Path.line([0., 0, 0], [2., 0, 0]).line_to([2., 0, 3.]).line_to([0., 0, 3.])
            p.name = 'bound'
            m = p.mesh(mesh_size=.8) + pr.line_mesh(t, [('a', (1., .5), (1., 1.)), ('b', (1., 1.5), (1., 2.))])
        e = E.Excitation(m, E.Symmetry.THREE_D if kind == '3d' else E.Symmetry.RADIAL)
        if kind == 'mag':
            e.add_magnetostatic_potential(a=1., b=-1.)
            e.add_magnetostatic_boundary('bound')
        else:
            e.add_voltage(a=1., b=-1.)
            e.add_electrostatic_boundary('bound')
        f = t.solver.solve_direct(e)
        P = np.array((.4, .5, .9))
        return [f.electrostatic_potential_at_point(P), f.magnetostatic_potential_at_point(P), mesh_of(m)]
    return f


def magnetic():
    E = t.excitation
    e = E.Excitation(radial(), E.Symmetry.RADIAL)
    e.add_current(coil=3., coil2=-1.)
    e.add_magnetizable(a=10.)
    e.add_magnetostatic_potential(b=2.)
    f = t.solver.solve_direct(e)
    return [f.magnetostatic_field_at_point(np.array(p)) for p in ((.1, .2, .3), (0., 0., .5))]


def superposition():
    d = t.solver.solve_direct_superposition(excitation('radial'))
    return [(k, values(d[k])) for k in sorted(d)]


def trace(kind):
    def f():
        F = field('3d' if kind == '3d' else 'radial')
        if kind == 'axial':
            F = t.interpolation.FieldRadialAxial(F, -1., 1., N=20)
        tr = F.get_tracer(((-.2, .2), (-.2, .2), (-.5, .5)))
        times, pos = tr(np.array([.01, 0., .3]), t.tracing.velocity_vec(100., [0., .1, -1.]))
        return [times, pos, t.tracing.xy_plane_intersection(pos, 0.), t.tracing.plane_intersection(pos, np.array([0., 0, .1]), np.array([.1, 0, 1.])), t.focus.focus_position([pos, pos + .01])]
    return f


def meshes():
    G = t.geometry
    p = G.Path.line([.5, 0, 0], [1., 0, 0]).arc_to([1., 0, .5], [1.5, 0, .5]).line_to([1.5, 0, 2.])
    p.name = 'p'
    s = G.Surface.sphere(1.)
    s.name = 's'
    c = G.PathCollection([p, p.move(dz=3.)])
    q = p.revolve_z(angle=1.)
    q.name = 'q'
    return [mesh_of(x) for x in (p.mesh(mesh_size=.2), p.mesh(mesh_size=.3, higher_order=True), s.mesh(mesh_size=.7), c.mesh(mesh_size=.5), q.mesh(mesh_size=.4), p.mesh(mesh_size=.2) + s.mesh(mesh_size=1.), s.mesh(mesh_size=.7).flip_normals(),
                                 p.mesh(mesh_size=.2).move(dx=1.))]


def degenerate():
    m = t.mesher.Mesh(points=[(0., 0, 0), (1., 0, 0), (2., 0, 0), (0., 1, 0)], triangles=[(0, 1, 2), (0, 1, 3)], physical_to_triangles={'a': np.array([0, 1])})
    return mesh_of(m)


def files():
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, 'x.vtk')
        m = radial(True)
        m.write_file(fn)
        return [mesh_of(m), mesh_of(t.mesher.Mesh.read_file(fn)), mesh_of(t.mesher.Mesh.read_file(fn, name='read'))]


def fields():
    a, b = field('radial'), field('radial')
    s = 2 * a - b + a * 3
    return [values(s), str(a), repr(a), str(s)]


def strings():
    e = excitation('radial')
    return [str(e), str(e.mesh), str(field('3d')), str(t.geometry.Path.line([0., 0, 0], [1., 0, 0])), str(field('radial').get_tracer(((-1, 1),) * 3))]


def warning():
    return t.tracing.velocity_vec(50000., [0., 0, 1.])


def interpolation():
    f = field('radial')
    a = t.interpolation.FieldRadialAxial(f, -1., 1., N=30)
    b = t.interpolation.FieldRadialAxial(f, -1., 1.)
    return [values(x) for x in (a, b, 2 * a)]


def points():
    return t.mesher.Mesh(points=np.random.RandomState(0).rand(10, 3), triangles=[(0, 1, 2)]).points


OPERATIONS = {'solve-radial': lambda: values(field('radial')), 'solve-radial4': lambda: values(field('radial4')), 'solve-3d': lambda: values(field('3d')), 'magnetic': magnetic, 'superposition': superposition,
              'boundary': boundary('elec'), 'boundary-mag': boundary('mag'), 'boundary-3d': boundary('3d'), 'trace-radial': trace('radial'), 'trace-3d': trace('3d'), 'trace-axial': trace('axial'), 'meshes': meshes,
              'degenerate': degenerate, 'files': files, 'fields': fields, 'strings': strings, 'warning': warning, 'interpolation': interpolation, 'points': points}


def normal(x):
    if isinstance(x, (list, tuple)):
        return tuple(normal(y) for y in x)
    if isinstance(x, np.ndarray):
        return (x.shape, x.tobytes())
    if isinstance(x, str):
        return re.sub('0x[0-9a-f]+', '', x)
    return x


def lines(text):
    return collections.Counter(re.sub(r'[-+]?[0-9][0-9.e+-]*', '#', l) for l in text.splitlines() if l.strip())


def run_operation(name, rec):
    f = OPERATIONS[name]
    results, printed = {}, {}
    for order in (range(5), range(4, -1, -1), (2, 4, 0, 3, 1)):
        for i in order:
            set_level(i)
            rec.state((name, i, tuple(order)))
            with Capture() as c:
                r = rec.call('C26/operation', f)
            rec.step()
            results[i] = normal(r)
            printed.setdefault(i, lines(c.text))
            rec.check(lines(c.text) == printed[i], 'C26/level', lambda: f'{name} at level {LEVELS[i]} prints {c.text!r}, at another time {dict(printed[i])}')
            if i == 4:
                rec.check(c.text == '', 'C26/silent', lambda: f'{name} prints {c.text!r} at level SILENT')
            first = next(iter(results.values()))
            rec.check(results[i] == first, 'C26/result', lambda: f'{name}: the result at level {LEVELS[i]} differs from that at level {LEVELS[next(iter(results))]}')
        for i in range(4):
            more = printed[i + 1] - printed[i]
            rec.check(not more, 'C26/level', lambda: f'{name}: at level {LEVELS[i + 1]} prints {dict(more)} in addition to what is printed at level {LEVELS[i]}')
    if name == 'warning':
        rec.check(bool(printed[2]) and not printed[3], 'C26/level', lambda: f'the warning for large energies: at level WARNING {printed[2]}, at level ERROR {printed[3]}')
    rec.outcome((name, tuple(sum(printed[i].values()) for i in range(5))))
    set_level(4)
