"""The properties and how each is decided."""
import os, importlib

HERE = os.path.dirname(os.path.abspath(__file__))
GLOBAL_ASSUMPTIONS = [
    "double/float arithmetic is treated as exact real arithmetic (no rounding, overflow, NaN or infinity)",
    "machine integers are treated as mathematical integers (no wrap-around)",
    "standard library calls follow the trusted contracts in vc/stdlib.py (listed in trusted_base)",
    "function templates are verified for the instantiation named in functions_under_contract",
    "exceptions end the execution of the caller; no memory is exhausted",
]


def findings():
    fn = os.path.join(HERE, "..", "KNOWN_FINDINGS.txt")
    return [l.strip() for l in open(fn)] if os.path.exists(fn) else []


def tu(P):
    return open(os.path.join(HERE, P.get("tu", "tu.inc"))).read()


def lazy(mod, fn="contracts"):
    def f(V):
        return getattr(importlib.import_module("props." + mod), fn)(V)
    return f


def several(*parts):
    def f(V):
        for p in parts:
            p(V)
    return f


def none(V):
    """no deductive part yet"""


# parts of a property that no discharged obligation covers: executed contracts only
BOUNDED = {
    "P11": ["add, remove, split, merge of the tree; insert, remove, update of the container (histories)"],
    "P12": ["SizeFunction::export_size_function (formatted output)"],
    "P13": ["equivalence of crossing parity and being enclosed (Jordan curve theorem)",
            "split_edge, insert_edge, add_edge, remove (histories)"],
    "P14": ["set_shape_from_csv (file reading)",
            "spatial index behind the radius lookup (P11)"],
    "P16": ["that the local steps compose to a complete conforming mesh whose areas add up (whole-mesh relations)",
            "set-up of the front from the domain (MeshBuilder, Front::init_front(domain), refinement of front edges), check_mesh_validity"],
    "P17": ["quad layers (QuadLayering): positions, collisions and merging with the front",
            "that the steps compose to a consistent partial mesh (whole-mesh relations)"],
    "P18": ["that the wiring of one element, edge and vertex composes to a complete conforming mesh (whole-mesh relations)",
            "Mesh::add_* / remove_* / get_edge behind the steps (used through contracts that the executed part checks)"],
    "P19": ["that the steps compose to a complete conforming mesh (whole-mesh relations)",
            "setup_facet_connectivity, Mesh::add_* / remove_* behind the steps (used through contracts that the executed part checks)"],
    "P20": ["torsion displacement (arc cosine), directions of quad-layer vertices",
            "that the mesh stays complete and its lookups consistent (whole-mesh relations)"],
}

PROPS = {
    "P01": dict(contracts=lazy("geo", "orient"), harness="geo.cpp", budget=1.0, level="proof",
                harness_note="integer grids at six exact scales against exact integer arithmetic"),
    "P02": dict(contracts=lazy("geo", "seg"), harness="geo.cpp", budget=0.25, level="proof",
                harness_note="all segment pairs of small integer grids and random ones against exact integer arithmetic"),
    "P03": dict(contracts=lazy("geo", "cont"), harness="geo.cpp", budget=1.0, level="proof",
                harness_note="integer grids against exact integer arithmetic"),
    "P04": dict(contracts=lazy("vec"), harness="vec.cpp", budget=1.0, level="proof",
                harness_note="random integer and dyadic vectors of 2, 3 and 4 entries against componentwise arithmetic"),
    "P05": dict(contracts=lazy("geo", "dist"), harness="vec.cpp", budget=1.0, level="proof",
                harness_note="random dyadic points, segments and polygons of 0..14 points"),
    "P06": dict(contracts=lazy("elem", "metrics"), harness="elem.cpp", budget=1.0, level="proof",
                harness_note="random triangles, quads and edges, fresh and after moving a vertex"),
    "P07": dict(contracts=lazy("elem", "indices"), harness="elem.cpp", budget=1.0, level="proof",
                harness_note="all vertex pairs of random elements over 7 vertices"),
    "P08": dict(contracts=lazy("adj", "prop_flags"), harness="adj.cpp", budget=1.0, level="proof",
                harness_note="random sequences of 40 flag operations"),
    "P09": dict(contracts=lazy("adj", "adjacency"), harness="adj.cpp", budget=1.0, level="proof",
                harness_note="random histories of 60 creations and removals over 4..7 vertices"),
    "P10": dict(contracts=lazy("isect"), harness="isect.cpp", budget=1.0, level="proof",
                harness_note="random integer triangles, quads, front, domain and mesh edges against exact brute force"),
    "P11": dict(contracts=lazy("tree"), harness="tree.cpp", budget=20.0, procs=6, level="other", bounded=BOUNDED["P11"],
                harness_note="random histories over trees of several depths and leaf sizes, with clustered and border positions, against brute force"),
    "P12": dict(contracts=lazy("size"), harness="dom.cpp", budget=1.0, level="other", bounded=BOUNDED["P12"],
                harness_note="random domains with sizes, ranges and fixed vertices against the defining minimum"),
    "P13": dict(contracts=lazy("elist"), harness="dom.cpp", budget=1.0, level="other", bounded=BOUNDED["P13"],
                harness_note="random integer polygons and chains, edge operations and points against exact brute force"),
    "P14": dict(contracts=lazy("domain"), harness="dom.cpp", budget=1.0, level="other", bounded=BOUNDED["P14"],
                harness_note="random shapes, point lists, CSV files and domains with holes against brute force"),
    "P16": dict(contracts=several(lazy("front"), lazy("advance"), lazy("quads", "cleanup")), harness="mesh.cpp", budget=20.0, procs=6, level="other", bounded=BOUNDED["P16"],
                harness_note="200 random domains (convex, concave, holes, fixed vertices and edges, varying sizes), all relations of the finished mesh"),
    "P17": dict(contracts=lazy("advance", "strategy"), harness="layer.cpp", budget=20.0, procs=6, level="other", bounded=BOUNDED["P17"],
                harness_note="120 random domains with quad layers along random stretches, limited triangulations"),
    "P18": dict(contracts=lazy("refine"), harness="mesh.cpp", budget=20.0, procs=6, level="other", bounded=BOUNDED["P18"],
                harness_note="120 random meshes refined once or twice"),
    "P19": dict(contracts=lazy("quads"), harness="mesh.cpp", budget=20.0, procs=6, level="other", bounded=BOUNDED["P19"],
                harness_note="120 random meshes"),
    "P20": dict(contracts=lazy("smooth"), harness="mesh.cpp", budget=20.0, procs=6, level="other", bounded=BOUNDED["P20"],
                harness_note="120 random triangle, quad and mixed meshes with and without quad layers, four ways of smoothing"),
    "P21": dict(contracts=none, harness="multi.cpp", budget=20.0, procs=6, level="exploration",
                harness_note="70 random arrangements of 2 to 6 adjacent domains, merged in random order"),
    "P22": dict(contracts=none, harness="io.cpp", budget=20.0, procs=6, level="exploration",
                harness_note="72 random meshes (partial, complete, quad, layered, refined, adjacent), parsed back and compared"),
    "P23": dict(contracts=none, harness="para.cpp", budget=20.0, procs=6, level="exploration",
                harness_note="3000 random parameter files with known content and 200 malformed ones"),
    "P24": dict(contracts=none, harness="app.cpp", budget=20.0, procs=6, level="exploration",
                harness_note="45 random descriptions compared with the described library calls, 40 invalid descriptions"),
}
