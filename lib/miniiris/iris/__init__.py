"""miniiris: a stand-in for the parts of SciTools iris 3.0 that IMPROVER uses.

iris cannot be installed in this sandbox.  This package implements the subset of
its public behaviour that IMPROVER relies on, so that IMPROVER's own code can be
executed and compared with the TLA+ specifications.  It is validated by running
IMPROVER's own unit tests on top of it (see DESIGN.md).
"""
__version__ = "3.0.3"

import scipy.interpolate  # noqa: F401  (iris imports it)
import iris._constraints
import iris.exceptions
from iris._constraints import AttributeConstraint, Constraint, NameConstraint  # noqa: F401


class _Future:
    def __setattr__(self, name, value):
        object.__setattr__(self, name, value)

    def context(self, **kw):
        import contextlib

        return contextlib.nullcontext()


FUTURE = _Future()

import iris.coord_systems  # noqa: E402
import iris.coords  # noqa: E402
import iris.cube  # noqa: E402
import iris.util  # noqa: E402
import iris.analysis  # noqa: E402
import iris.std_names  # noqa: E402
import iris.time  # noqa: E402
import iris.fileformats  # noqa: E402
import iris.fileformats.netcdf  # noqa: E402


def _sources(uris):
    import glob
    import pathlib

    if isinstance(uris, (str, pathlib.PurePath)):
        uris = [uris]
    out = []
    for uri in uris:
        uri = str(uri)
        found = sorted(glob.glob(uri)) or ([uri] if False else [])
        if not found:
            raise OSError("One or more of the files specified did not exist:\n"
                          "    * \"%s\" didn't match any files" % uri)
        out.extend(found)
    return out


def load_raw(uris, constraints=None, callback=None):
    cubes = iris.cube.CubeList()
    for uri in _sources(uris):
        cubes.extend(iris.fileformats.netcdf.load_cubes(uri, callback))
    if constraints is None:
        return cubes
    out = iris.cube.CubeList()
    for c in iris._constraints.list_of_constraints(constraints):
        out.extend(cubes.extract(c))
    return out


def load(uris, constraints=None, callback=None):
    cubes = load_raw(uris, None, callback)
    out = iris.cube.CubeList()
    for c in iris._constraints.list_of_constraints(constraints):
        out.extend(cubes.extract(c).merge(unique=False))
    return out


def load_cubes(uris, constraints=None, callback=None):
    out = iris.cube.CubeList()
    cubes = load_raw(uris, None, callback)
    for c in iris._constraints.list_of_constraints(constraints):
        merged = cubes.extract(c).merge()
        if len(merged) != 1:
            raise iris.exceptions.ConstraintMismatchError(
                "failed to merge into a single cube / %d cubes" % len(merged)
            )
        out.extend(merged)
    return out


def load_cube(uris, constraint=None, callback=None):
    cubes = load_raw(uris, None, callback)
    c = iris._constraints.list_of_constraints(constraint)
    if len(c) != 1:
        raise ValueError("only a single constraint is allowed")
    merged = cubes.extract(c[0]).merge()
    if len(merged) != 1:
        raise iris.exceptions.ConstraintMismatchError(
            "Expected exactly one cube, found %d." % len(merged)
        )
    return merged[0]


def save(source, target, saver=None, **kwargs):
    iris.fileformats.netcdf.save(source, str(target), **kwargs)


def site_configuration():
    return {}
