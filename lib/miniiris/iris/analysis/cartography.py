"""Stand-in for iris.analysis.cartography."""
import numpy as np


def get_xy_grids(cube):
    x, y = cube.coord(axis="X"), cube.coord(axis="Y")
    if x.ndim == y.ndim == 1:
        return np.meshgrid(x.points, y.points)
    return x.points, y.points


def _distances(src_crs, tgt_crs, x, y, dx, dy):
    p = tgt_crs.transform_points(src_crs, x, y)
    q = tgt_crs.transform_points(src_crs, x + dx, y + dy)
    return q[..., 0] - p[..., 0], q[..., 1] - p[..., 1]


def rotate_winds(u_cube, v_cube, target_cs):
    """Rotate wind components onto target_cs (numerical local Jacobian)."""
    if u_cube.shape != v_cube.shape:
        raise ValueError("Expected u and v cubes to have the same shape")
    x, y = u_cube.coord(axis="x", dim_coords=True), u_cube.coord(axis="y", dim_coords=True)
    src_cs = x.coord_system
    if src_cs is None:
        raise ValueError("Source coordinates must have a coordinate system")
    from iris.coords import AuxCoord

    gx, gy = np.meshgrid(x.points.astype(np.float64), y.points.astype(np.float64))
    sc, tc = src_cs.as_cartopy_projection(), target_cs.as_cartopy_projection()
    if src_cs == target_cs:
        raise ValueError("Duplicate coordinates are not permitted.")
    geographic_src = sc.is_geodetic_like()
    geographic_tgt = tc.is_geodetic_like()
    eps = 1e-4 if geographic_src else 10.0
    coslat_s = np.cos(np.radians(gy)) if geographic_src else 1.0
    ex = _distances(sc, tc, gx, gy, eps / np.maximum(coslat_s, 1e-10) if geographic_src else eps, 0.0)
    pts = tc.transform_points(sc, gx, gy)
    coslat_t = np.cos(np.radians(pts[..., 1])) if geographic_tgt else 1.0
    ax, ay = ex[0] * coslat_t, ex[1]
    norm = np.hypot(ax, ay)
    c, s = ax / norm, ay / norm
    shape = [1] * u_cube.ndim
    yd, xd = u_cube.coord_dims(y)[0], u_cube.coord_dims(x)[0]
    if yd > xd:
        c, s = c.T, s.T
    if yd < xd:
        c, s = (ax / norm), (ay / norm)
    shape[yd], shape[xd] = len(y.points), len(x.points)
    if yd < xd:
        cc, ss = c.reshape(shape), s.reshape(shape)
    else:
        cc, ss = c.reshape(shape), s.reshape(shape)
    u, v = u_cube.data, v_cube.data
    ut = u_cube.copy(data=(u * cc - v * ss))
    vt = v_cube.copy(data=(u * ss + v * cc))
    for cube in (ut, vt):
        for name, arr in (("projection_x_coordinate", pts[..., 0]),
                          ("projection_y_coordinate", pts[..., 1])):
            if geographic_tgt:
                name = {"projection_x_coordinate": "longitude",
                        "projection_y_coordinate": "latitude"}[name]
            arr2 = arr if yd < xd else arr.T
            cube.add_aux_coord(
                AuxCoord(arr2, standard_name=name,
                         units="degrees" if geographic_tgt else "m",
                         coord_system=target_cs), sorted((yd, xd)))
    ut.rename("transformed_" + u_cube.name())
    vt.rename("transformed_" + v_cube.name())
    return ut, vt
