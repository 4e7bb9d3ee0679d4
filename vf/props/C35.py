import importlib.util
import os

import rigeo as rg
from .. import cdd3, gen, model as M
from ..core import Prop

P = Prop(
    "C35",
    rule="one case = one random polyhedron given by vertices, rays and lines or by inequalities and equalities (dimension 1-5), run "
    "through the port; non-trivial if the described sets were compared",
    technique="runtime monitoring: the oracles of C04 and C05 (independent LP support functions and extreme point tests) observe the "
    "port's conversions, canonical forms, hulls, transforms and intersections",
    note="membership 1e-6, supports relative 1e-5",
    assumptions=["pycddlib 3 is not installed: a stand-in with its documented interface, on the installed pycddlib 2, runs below the port"],
)


class Ported:
    """The package, with the port's double description in place of its own."""

    def __getattr__(self, name):
        port = cdd3.load_port()
        return getattr(port if name in ("SpanForm", "FaceForm", "convex_hull") else rg, name)


def observer(name):
    """A second copy of another property's scenarios, aimed at the port."""
    f = os.path.join(os.path.dirname(__file__), name + ".py")
    spec = importlib.util.spec_from_file_location(f"{__package__}._{name}_port", f)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    mod.rg = Ported()
    return mod


C04, C05 = observer("C04"), observer("C05")
for group, mod, quick, thorough in (
    ("vertices_to_faces", C04, 200, 6000),
    ("faces_to_vertices", C04, 200, 6000),
    ("canonical_span", C04, 150, 4000),
    ("canonical_face", C04, 150, 4000),
    ("canonical_unbounded", C04, 150, 4000),
    ("canonical_lines", C04, 150, 4000),
    ("moved_and_stacked", C04, 300, 8000),
    ("own_arrays", C04, 120, 3000),
    ("special", C04, 120, 3000),
    ("hull", C05, 300, 8000),
    ("rigid", C05, 150, 4000),
):
    P.group(quick, thorough, name=group)(mod.P.groups[group].fn)
P.group(150, 4000, name="units")(C04.P.groups["units"].fn)
P.group(150, 4000, name="units_of_hulls")(C05.P.groups["units"].fn)
