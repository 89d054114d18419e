"""Bookkeeping of excitations: every reachable assignment of excitations to groups, for every layout of groups over the elements of a mesh,
explored breadth first by calls on the real class; a dictionary is the reference."""
import itertools, os
import numpy as np
import vlib

PROPERTY = 'C21'
RULE = 'State: (layout of the groups, excitation of every group). Transition: one call. Non-trivial: at least one group has an excitation.'
CASE_TIMEOUT = 800


def setup(tier, seed):
    global t, M, E, KIND
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)
    M, E = t.mesher, t.excitation
    X = E.ExcitationType
    KIND = dict(V=X.VOLTAGE_FIXED, F=X.VOLTAGE_FUN, D=X.DIELECTRIC, C=X.CURRENT, P=X.MAGNETOSTATIC_POT, M=X.MAGNETIZABLE)


FUN = lambda x, y, z: x + z

# call: (method, kind, value); kind and value as recorded
CALLS = [('add_voltage', 'V', 5.), ('add_voltage', 'V', 0), ('add_voltage', 'F', FUN), ('add_dielectric', 'D', 2.), ('add_electrostatic_boundary', 'D', 0),
         ('add_magnetostatic_potential', 'P', -3.), ('add_magnetizable', 'M', 4), ('add_magnetostatic_boundary', 'M', 0), ('add_current', 'C', 7.)]
ELECTRO, MAGNETO = 'VFD', 'PM'


def layouts(dim, deep):
    """Groups over four elements of the kind that is solved for; some elements have no name. The other kind gets the rest."""
    out = []
    for assign in itertools.product((None, 'a', 'b'), repeat=4):
        g = {n: [i for i in range(4) if assign[i] == n] for n in ('a', 'b')}
        for rev in (False, True):
            h = {k: v[::-1] if rev else v for k, v in g.items() if v}
            if rev:
                h = dict(reversed(h.items()))
            out.append(h)
    # overlapping and empty groups
    out += [dict(a=[0, 1, 2], b=[2, 3]), dict(a=[3, 0], b=[0, 3]), dict(b=[1], a=[0, 1, 2, 3]), dict(a=[], b=[2, 1]), dict(a=[2, 0, 3, 1], b=[])]
    return out


P2 = np.array([[1, 0, 0], [2, 0, 0], [3, 0, 1], [3, 0, 3], [1.5, 0, 4]], float)
LINES = [[1, 0], [1, 2], [3, 2], [3, 4]]
LINES4 = [[1, 0, 5, 6], [1, 2, 7, 8], [3, 2, 9, 10], [3, 4, 11, 12]]
P3 = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0.25], [2, 0, 1], [2, 1, 1.]])
TRI3 = [[0, 1, 2], [3, 1, 2], [1, 4, 3], [5, 3, 4]]
TRI2 = [[0, 1, 2], [2, 3, 4], [0, 2, 4]]


def mesh(sym, groups, order):
    g = {k: np.array(v, dtype=int) for k, v in groups.items()}
    if sym == 'radial':
        pts, lines = P2, LINES
        if order:
            pts = np.concatenate((P2, [P2[l[0]] + (P2[l[1]] - P2[l[0]]) * f for l in LINES for f in (1 / 3, 2 / 3)]))
            lines = LINES4
        # c: only triangles (a coil); if a has no lines, it has triangles
        gt = {'c': np.array([2, 0]), 'b': np.array([1])}     # b: both kinds
        if 'a' not in g:
            gt['a'] = np.array([1])
        return M.Mesh(points=pts, lines=lines, triangles=TRI2, physical_to_lines=g, physical_to_triangles=gt, ensure_outward_normals=False)
    return M.Mesh(points=P3, lines=[[0, 1], [4, 5]], triangles=TRI3, physical_to_lines={'c': np.array([1])}, physical_to_triangles=g, ensure_outward_normals=False)


def cases(tier, seed):
    deep = tier == 'thorough'
    n = len(layouts(2, deep))
    out = []
    for sym in ('radial', '3d'):
        for order in ((0, 1) if sym == 'radial' else (0,)):
            out += [dict(what='explore', sym=sym, order=order, k=k, deep=deep) for k in range(n) if deep or order == 0 or k % 4 == 1]
    out += [dict(what='histories', sym=s, depth=4 if deep else 3) for s in ('radial', '3d')]
    out += [dict(what='wrong-kind'), dict(what='values'), dict(what='many'), dict(what='planes')]
    return out


def run(case, rec):
    {'explore': explore, 'histories': histories, 'wrong-kind': wrong_kind, 'values': values, 'many': many, 'planes': planes}[case['what']](case, rec)


def call(e, method, names, value):
    if 'boundary' in method:
        getattr(e, method)(*names, ensure_inward_normals=False)
    else:
        getattr(e, method)(**{n: value for n in names})


def allowed(sym, groups, name, method):
    """Whether the call makes sense for this group."""
    if method == 'add_current':
        return sym == 'radial' and (name in 'bc' or name == 'a' and 'a' not in groups)
    # the wrong kind of element: see wrong_kind
    return name in groups


def judge(e, m, sym, model, rec, where):
    """Every query agrees with the model."""
    rec.check(set(e.excitation_types) == set(model) and all(e.excitation_types[n] == (KIND[k], v) for n, (k, v) in model.items()), 'C21/recorded', lambda: f'{where}: {e.excitation_types}, should be {model}')
    kinds = {k for k, _ in model.values()}
    rec.check(bool(e.has_current()) == ('C' in kinds), 'C21/has-current', lambda: f'{where}: has_current {e.has_current()}')
    rec.check(bool(e.is_electrostatic()) == bool(kinds & set('VF')), 'C21/is-electrostatic', lambda: f'{where}: is_electrostatic {e.is_electrostatic()}')
    rec.check(bool(e.is_magnetostatic()) == bool(kinds & set('PC')), 'C21/is-magnetostatic', lambda: f'{where}: is_magnetostatic {e.is_magnetostatic()}')
    el, ph = (m.lines, m.physical_to_lines) if sym == 'radial' else (m.triangles, m.physical_to_triangles)
    for what, which in (('electrostatic', ELECTRO), ('magnetostatic', MAGNETO)):
        pts, names = rec.call('C21/active', getattr(e, f'get_{what}_active_elements'))
        mine = {n for n, (k, _) in model.items() if k in which}
        number = {i: j for j, i in enumerate(sorted({int(i) for n in mine for i in ph[n]}))}
        want = m.points[el[sorted(number)].astype(int)] if number else None
        rec.check(len(pts) == len(number) and (not number or np.array_equal(pts, want)), 'C21/active', lambda: f'{where}: {what} elements {np.asarray(pts).tolist()}, should be elements {sorted(number)}')
        ok = set(names) == mine and all([int(i) for i in names[n]] == [number[int(i)] for i in ph[n]] for n in mine)
        rec.check(ok, 'C21/index', lambda: f'{where}: {what} names {names}; should be { {n: [number[int(i)] for i in ph[n]] for n in mine} }')
        # what is returned belongs to the caller
        if len(pts):
            pts[:] = -77.
        for v in names.values():
            v[:] = -5
        pts2, names2 = getattr(e, f'get_{what}_active_elements')()
        rec.check(not number or np.array_equal(pts2, want), 'C21/alias', lambda: f'{where}: changing the returned array changes the {what} elements')
        rec.check(all([int(i) for i in names2[n]] == [number[int(i)] for i in ph[n]] for n in mine), 'C21/alias', lambda: f'{where}: changing the returned indices changes the next ones')
    s = str(e)
    rec.check(all(n in s for n in model), 'C21/str', lambda: f'{where}: str is {s}')


def key(model):
    return tuple(sorted((n, k, repr(v)) for n, (k, v) in model.items()))


def rejected(e, m, sym, groups, model, rec, where):
    bad = [(mth, 'nope', v) for mth, _, v in CALLS] + [('add_voltage', n, v) for n in groups for v in ('5', None, [1.], {})]
    bad += [('add_current', n, 1.) for n in 'abc' if n in m.get_electrodes() and not allowed(sym, groups, n, 'add_current')]
    for mth, n, v in bad:
        rec.raises('C21/rejects', lambda: call(e, mth, [n], v))
        rec.step()
    rec.check(key({n: (next(k for k in KIND if KIND[k] == t_), v) for n, (t_, v) in e.excitation_types.items()}) == key(model), 'C21/rejects', lambda: f'{where}: a rejected call changed the excitation to {e}')


def explore(case, rec):
    sym, order = case['sym'], case['order']
    groups = layouts(0, case['deep'])[case['k']]
    m = mesh(sym, groups, order)
    keep = m.points.copy(), m.lines.copy(), m.triangles.copy()
    symmetry = E.Symmetry.RADIAL if sym == 'radial' else E.Symmetry.THREE_D
    names = sorted(set(groups) | {'c'} | ({'a', 'b'} if sym == 'radial' else set()))
    # in the quick check not every pair of values
    calls = CALLS if case['deep'] or case['k'] % 4 == 0 else [CALLS[i] for i in ((0, 3, 6, 8), (2, 4, 5, 8), (1, 5, 7, 8))[case['k'] % 3]]
    start = {}
    seen = {key(start): []}
    frontier = [([], start)]
    while frontier:
        nxt = []
        for path, model in frontier:
            def build():
                e = E.Excitation(m, symmetry)
                for mth, n, v in path:
                    call(e, mth, [n], v)
                return e
            e = rec.call('C21/call', build)
            where = f'{sym} groups {groups}: {[(a, b) for a, b, _ in path]}'
            judge(e, m, sym, model, rec, where)
            if len(path) < 2 or case['deep']:
                rejected(e, m, sym, groups, model, rec, where)
            rec.state((sym, order, case['k'], key(model)))
            rec.trace()
            for n in names:
                for mth, k, v in calls:
                    if not allowed(sym, groups, n, mth):
                        continue
                    new = dict(model)
                    new[n] = (k, v)
                    rec.step()
                    q = key(new)
                    if q not in seen:
                        seen[q] = 1
                        nxt.append((path + [(mth, n, v)], new))
                    elif len(path) == 1:
                        # another way to reach a known state: the same result
                        def build2():
                            x = build()
                            call(x, mth, [n], v)
                            return x
                        judge(rec.call('C21/call', build2), m, sym, new, rec, f'{where} then {mth} {n}')
        frontier = nxt
    rec.check(np.array_equal(m.points, keep[0]) and np.array_equal(m.lines, keep[1]) and np.array_equal(m.triangles, keep[2]), 'C21/mesh', lambda: f'{sym} {groups}: mesh changed')


def histories(case, rec):
    """All sequences of calls to a depth, without merging states; two excitations of one mesh do not influence each other."""
    sym = case['sym']
    groups = dict(a=[2, 0], b=[3])
    m = mesh(sym, groups, 0)
    symmetry = E.Symmetry.RADIAL if sym == 'radial' else E.Symmetry.THREE_D
    alphabet = [(mth, [n], k, v) for n in ('a', 'b', 'c') for mth, k, v in CALLS if allowed(sym, groups, n, mth) and not (n == 'b' and v in (0, 4))] + [('add_voltage', ['b', 'a'], 'V', 1.5), ('add_dielectric', ['a', 'b'], 'D', 9), ('add_electrostatic_boundary', ['a', 'b'], 'D', 0)]
    other = E.Excitation(m, symmetry)
    for seq in itertools.product(alphabet, repeat=case['depth']):
        e = E.Excitation(m, symmetry)
        model = {}
        for mth, ns, k, v in seq:
            rec.call('C21/call', lambda: call(e, mth, ns, v))
            model.update({n: (k, v) for n in ns})
            rec.step()
        judge(e, m, sym, model, rec, f'{sym}: {[(a, b) for a, b, _, _ in seq]}')
        rec.state((sym, key(model)))
        rec.trace()
    judge(other, m, sym, {}, rec, 'another excitation')


def wrong_kind(case, rec):
    """An excitation of a group that has no elements of the kind that is solved for is rejected, then or when it is used: never silently lost."""
    for sym, name in (('radial', 'c'), ('3d', 'c')):
        for mth, k, v in CALLS:
            if mth == 'add_current':
                continue
            m = mesh(sym, dict(a=[0], b=[1]), 0)

            def use():
                e = E.Excitation(m, E.Symmetry.RADIAL if sym == 'radial' else E.Symmetry.THREE_D)
                e.add_voltage(a=1.)
                e.add_magnetostatic_potential(b=1.)
                call(e, mth, [name], v)
                return e.get_electrostatic_active_elements(), e.get_magnetostatic_active_elements()
            rec.raises('C21/wrong-kind', use)
            rec.step()
            rec.state((sym, mth, repr(v)))
    rec.trace()


def values(case, rec):
    """Every usable type of value is recorded as it is."""
    m = mesh('radial', dict(a=[1, 2], b=[3]), 0)
    for mth, k in (('add_voltage', 'V'), ('add_dielectric', 'D'), ('add_magnetostatic_potential', 'P'), ('add_magnetizable', 'M'), ('add_current', 'C')):
        for v in (0, 0., -0., 1, -7, 2.5, 1e-300, 1e300, True, np.float64(3.), float('inf') if k in 'DM' else 4.):
            e = E.Excitation(m, E.Symmetry.RADIAL)
            n = 'c' if k == 'C' else 'a'
            rec.call('C21/value', lambda: call(e, mth, [n], v))
            judge(e, m, 'radial', {n: (k, v)}, rec, f'{mth} {v!r}')
            rec.state((mth, repr(v)))
            rec.step()
    for f in (FUN, lambda *a: 1., np.hypot, type('K', (), dict(__call__=lambda s, x, y, z: x))()):
        e = E.Excitation(m, E.Symmetry.RADIAL)
        rec.call('C21/value', lambda: call(e, 'add_voltage', ['a'], f))
        judge(e, m, 'radial', {'a': ('F', f)}, rec, f'function {f}')
        rec.step()
    rec.trace()


def many(case, rec):
    """Many groups, interleaved over many elements; every third is active."""
    for n, stride in itertools.product((1, 2, 5, 30), (1, 2, 3, 7)):
        N = n * stride + 4
        th = np.linspace(0, 3, N + 1)
        pts = np.stack([2 + np.cos(th), 0 * th, np.sin(th)], axis=1)
        groups = {f'g{j}': np.arange(N)[j::stride][::1 if j % 2 else -1] for j in range(stride)}
        m = M.Mesh(points=pts, lines=[[i, i + 1] for i in range(N)], physical_to_lines=groups, ensure_outward_normals=False)
        for shift in range(3):
            e = E.Excitation(m, E.Symmetry.RADIAL)
            model = {}
            for j, g in enumerate(groups):
                if (j + shift) % 3 == 0:
                    continue
                k = 'VDPM'[(j + shift) % 4]
                mth = dict(V='add_voltage', D='add_dielectric', P='add_magnetostatic_potential', M='add_magnetizable')[k]
                call(e, mth, [g], j + 0.5)
                model[g] = (k, j + 0.5)
            judge(e, m, 'radial', model, rec, f'{N} elements, {stride} groups, shift {shift}')
            rec.state((n, stride, shift))
            rec.step(len(model))
    rec.trace()


def planes(case, rec):
    """Radial excitations need a mesh in the plane y = 0."""
    for y in (0., -0., 1e-3, 1., -2.):
        for i in range(4):
            p = P2[:4].copy()
            p[i, 1] = y
            m = M.Mesh(points=p, lines=[[0, 1], [1, 2], [2, 3]], physical_to_lines={'a': np.array([0])})
            if y:
                rec.raises('C21/plane', lambda: E.Excitation(m, E.Symmetry.RADIAL))
            else:
                rec.call('C21/plane', lambda: E.Excitation(m, E.Symmetry.RADIAL))
            rec.step()
            rec.state((y, i))
    rec.trace()
