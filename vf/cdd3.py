"""Stand-in for the pycddlib 3 module, which is not installed: the functions
that the port rigeo.unused.polydd_pycddlib3 calls, on top of the installed
pycddlib 2. Same names, arguments and results as documented for pycddlib 3."""
import importlib
import sys
import types

import cdd as cdd2


class RepType:
    INEQUALITY = "inequality"
    GENERATOR = "generator"
    UNSPECIFIED = "unspecified"


class Matrix:
    """Rows, indices of the linear rows, and representation type."""

    def __init__(self, rows, lin_set, rep_type):
        self.array = [list(map(float, r)) for r in rows]
        self.lin_set = set(lin_set)
        self.rep_type = rep_type


class Polyhedron:
    def __init__(self, poly):
        self.poly = poly


def matrix_from_array(array, lin_set=(), rep_type=RepType.UNSPECIFIED):
    rows = [list(r) for r in array]
    if len({len(r) for r in rows}) > 1:
        raise ValueError("rows have different lengths")
    return Matrix(rows, lin_set, rep_type)


def _old(mat):
    lin = [r for k, r in enumerate(mat.array) if k in mat.lin_set]
    rest = [r for k, r in enumerate(mat.array) if k not in mat.lin_set]
    m = cdd2.Matrix(rest, linear=False) if rest else None
    if m is None:
        m = cdd2.Matrix(lin, linear=True)
    elif lin:
        m.extend(lin, linear=True)
    m.rep_type = {RepType.INEQUALITY: cdd2.RepType.INEQUALITY, RepType.GENERATOR: cdd2.RepType.GENERATOR}[mat.rep_type]
    return m


def _new(m, rep_type):
    return Matrix([m[k] for k in range(m.row_size)], m.lin_set, rep_type)


def matrix_canonicalize(mat):
    """Implied linear rows, redundant rows, and new places of the rows."""
    old = _old(mat)
    lin0 = sorted(mat.lin_set)
    rest = [k for k in range(len(mat.array)) if k not in mat.lin_set]
    if rest and lin0:
        order = [int(k) for k in rest + lin0]  # rows as handed over above
    else:
        order = rest or lin0
    lin, red = old.canonicalize()
    new = _new(old, mat.rep_type)
    mat.array, mat.lin_set = new.array, set(new.lin_set)
    return {order[k] for k in lin}, {order[k] for k in red}, []


def polyhedron_from_matrix(mat):
    return Polyhedron(cdd2.Polyhedron(_old(mat)))


def copy_inequalities(poly):
    return _new(poly.poly.get_inequalities(), RepType.INEQUALITY)


def copy_generators(poly):
    return _new(poly.poly.get_generators(), RepType.GENERATOR)


def load_port():
    """Import the port with this module in place of cdd."""
    name = "rigeo.unused.polydd_pycddlib3"
    if name not in sys.modules:
        me = types.ModuleType("cdd")
        me.__dict__.update({k: v for k, v in globals().items() if not k.startswith("_")})
        keep = sys.modules["cdd"]
        sys.modules["cdd"] = me
        try:
            importlib.import_module(name)
        finally:
            sys.modules["cdd"] = keep
    return sys.modules[name]
