"""exec(open('/verif/tools/seedhead.py').read()) : seed(), DEMO_HEAD and LENS for writing planted bugs."""
import sys; sys.path.insert(0, '/verif/tools')
from mkseed import seed
DEMO_HEAD = '''import os
os.environ['TRACEON_THREADS'] = '1'
import numpy as np
import traceon.geometry as G, traceon.excitation as E, traceon.solver as S, traceon.mesher as M, traceon.logging as L
import traceon.interpolation as I, traceon.tracing as T
L.set_log_level(L.LogLevel.SILENT)
'''
LENS = '''
def lens():
    a = G.Path.line([1., 0., -1.], [1., 0., -0.2]); a.name = 'a'
    b = G.Path.line([1., 0., 0.2], [1., 0., 1.]); b.name = 'b'
    e = E.Excitation((a + b).mesh(mesh_size=0.1), E.Symmetry.RADIAL)
    e.add_voltage(a=100., b=-50.)
    return S.solve_direct(e)
'''
