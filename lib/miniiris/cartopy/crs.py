"""Stand-in for cartopy.crs: real formulae for the projections IMPROVER uses."""
import numpy as np

WGS84_SEMIMAJOR_AXIS = 6378137.0
WGS84_SEMIMINOR_AXIS = 6356752.3142


class Globe:
    def __init__(self, datum=None, ellipse="WGS84", semimajor_axis=None, semiminor_axis=None,
                 flattening=None, inverse_flattening=None, towgs84=None, nadgrids=None):
        self.datum = datum
        self.ellipse = ellipse
        self.semimajor_axis = semimajor_axis
        self.semiminor_axis = semiminor_axis
        self.flattening = flattening
        self.inverse_flattening = inverse_flattening
        self.towgs84 = towgs84
        self.nadgrids = nadgrids

    def ab(self):
        a = self.semimajor_axis
        b = self.semiminor_axis
        if a is None and b is None:
            return WGS84_SEMIMAJOR_AXIS, WGS84_SEMIMINOR_AXIS
        if a is None:
            a = b
        if b is None:
            if self.flattening:
                b = a * (1 - self.flattening)
            elif self.inverse_flattening:
                b = a * (1 - 1 / self.inverse_flattening)
            elif self.ellipse is not None:
                b = a * WGS84_SEMIMINOR_AXIS / WGS84_SEMIMAJOR_AXIS
            else:
                b = a
        return float(a), float(b)

    def _key(self):
        return (self.ellipse if self.semimajor_axis is None else None,) + self.ab()


class CRS:
    def __init__(self, globe=None):
        self.globe = globe if globe is not None else Globe()
        a, b = self.globe.ab()
        self._a, self._b = a, b
        self._e2 = 1 - (b / a) ** 2

    def _key(self):
        return (type(self).__name__, self.globe._key(), self._params())

    def _params(self):
        return ()

    def __eq__(self, other):
        return isinstance(other, CRS) and self._key() == other._key()

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self._key())

    def is_geodetic_like(self):
        return isinstance(self, (Geodetic, PlateCarree))

    def is_geodetic(self):
        return isinstance(self, Geodetic)

    def as_geocentric(self):
        return Geocentric(self.globe)

    def as_geodetic(self):
        return Geodetic(self.globe)

    # conversion to/from geodetic lon, lat (degrees)
    def _inverse(self, x, y):
        raise NotImplementedError

    def _forward(self, lon, lat):
        raise NotImplementedError

    def transform_points(self, src_crs, x, y, z=None, trap=False):
        x, y = np.asarray(x, dtype=np.float64), np.asarray(y, dtype=np.float64)
        shape = x.shape
        zz = np.zeros(shape) if z is None else np.asarray(z, dtype=np.float64)
        if src_crs == self:
            out = np.stack([x, y, zz], axis=-1)
            if isinstance(self, (PlateCarree, Geodetic)):
                out[..., 0] = _wrap(out[..., 0])
            return out
        lon, lat = src_crs._inverse(x, y)
        if isinstance(self, Geocentric):
            return self._ecef(lon, lat, zz)
        fx, fy = self._forward(lon, lat)
        return np.stack([fx, fy, zz], axis=-1)

    def transform_point(self, x, y, src_crs, trap=True):
        p = self.transform_points(src_crs, np.array([x], dtype=float), np.array([y], dtype=float))
        return float(p[0, 0]), float(p[0, 1])

    def transform_vectors(self, src_proj, x, y, u, v):
        raise NotImplementedError


def _wrap(lon):
    return np.where((lon > 180) | (lon < -180), (lon + 180.0) % 360.0 - 180.0, lon)


class Geodetic(CRS):
    def _inverse(self, x, y):
        return x, y

    def _forward(self, lon, lat):
        return _wrap(lon), lat


class Geocentric(CRS):
    def _ecef(self, lon, lat, h):
        la, ph = np.radians(lon), np.radians(lat)
        n = self._a / np.sqrt(1 - self._e2 * np.sin(ph) ** 2)
        x = (n + h) * np.cos(ph) * np.cos(la)
        y = (n + h) * np.cos(ph) * np.sin(la)
        z = (n * (1 - self._e2) + h) * np.sin(ph)
        return np.stack([x, y, z], axis=-1)


class Projection(CRS):
    pass


class PlateCarree(Projection):
    def __init__(self, central_longitude=0.0, globe=None):
        self.central_longitude = float(central_longitude)
        super().__init__(globe if globe is not None else Globe(
            semimajor_axis=WGS84_SEMIMAJOR_AXIS, ellipse="WGS84"))

    def _params(self):
        return (self.central_longitude,)

    def _inverse(self, x, y):
        return _wrap(x + self.central_longitude), y

    def _forward(self, lon, lat):
        return _wrap(lon - self.central_longitude), lat


class RotatedGeodetic(CRS):
    def __init__(self, pole_longitude=0.0, pole_latitude=90.0, central_rotated_longitude=0.0,
                 globe=None):
        self.pole = (float(pole_longitude), float(pole_latitude),
                     float(central_rotated_longitude))
        super().__init__(globe)

    def _params(self):
        return self.pole

    def _rot(self, lon, lat, inverse):
        plon, plat, crl = self.pole
        if inverse:
            lo = np.radians(lon - 0.0)
            la = np.radians(lat)
            t = np.radians(90 - plat)
            x, y, z = np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)
            X = np.cos(t) * x + np.sin(t) * z
            Z = -np.sin(t) * x + np.cos(t) * z
            lo2, la2 = np.degrees(np.arctan2(y, X)), np.degrees(np.arcsin(np.clip(Z, -1, 1)))
            return _wrap(lo2 + plon + 180.0), la2
        lo = np.radians(lon - plon - 180.0)
        la = np.radians(lat)
        t = np.radians(90 - plat)
        x, y, z = np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)
        X = np.cos(t) * x - np.sin(t) * z
        Z = np.sin(t) * x + np.cos(t) * z
        return _wrap(np.degrees(np.arctan2(y, X))), np.degrees(np.arcsin(np.clip(Z, -1, 1)))

    def _inverse(self, x, y):
        return self._rot(x, y, True)

    def _forward(self, lon, lat):
        return self._rot(lon, lat, False)


class RotatedPole(RotatedGeodetic, Projection):
    pass


class LambertAzimuthalEqualArea(Projection):
    def __init__(self, central_longitude=0.0, central_latitude=0.0, false_easting=0.0,
                 false_northing=0.0, globe=None):
        self.p = (float(central_longitude), float(central_latitude), float(false_easting),
                  float(false_northing))
        super().__init__(globe)
        e2 = self._e2
        self._e = np.sqrt(e2) if e2 > 1e-14 else 0.0
        self._qp = self._q(np.pi / 2)
        self._rq = self._a * np.sqrt(self._qp / 2)
        ph1 = np.radians(self.p[1])
        self._b1 = np.arcsin(np.clip(self._q(ph1) / self._qp, -1, 1))
        m1 = np.cos(ph1) / np.sqrt(1 - e2 * np.sin(ph1) ** 2)
        self._d = self._a * m1 / (self._rq * np.cos(self._b1)) if abs(self.p[1]) < 90 else 1.0

    def _params(self):
        return self.p

    def _q(self, ph):
        s = np.sin(ph)
        e = self._e
        if e == 0:
            return 2 * s
        e2 = e * e
        return (1 - e2) * (s / (1 - e2 * s * s)
                           - (1 / (2 * e)) * np.log((1 - e * s) / (1 + e * s)))

    def _forward(self, lon, lat):
        lam = np.radians(lon - self.p[0])
        beta = np.arcsin(np.clip(self._q(np.radians(lat)) / self._qp, -1, 1))
        b1 = self._b1
        denom = 1 + np.sin(b1) * np.sin(beta) + np.cos(b1) * np.cos(beta) * np.cos(lam)
        B = self._rq * np.sqrt(2 / np.maximum(denom, 1e-15))
        x = B * self._d * np.cos(beta) * np.sin(lam)
        y = (B / self._d) * (np.cos(b1) * np.sin(beta)
                             - np.sin(b1) * np.cos(beta) * np.cos(lam))
        return x + self.p[2], y + self.p[3]

    def _inverse(self, x, y):
        x, y = x - self.p[2], y - self.p[3]
        D, b1 = self._d, self._b1
        rho = np.hypot(x / D, D * y)
        ce = 2 * np.arcsin(np.clip(rho / (2 * self._rq), -1, 1))
        safe = np.where(rho == 0, 1.0, rho)
        q = self._qp * (np.cos(ce) * np.sin(b1) + D * y * np.sin(ce) * np.cos(b1) / safe)
        q = np.where(rho == 0, self._qp * np.sin(b1), q)
        lam = np.arctan2(x * np.sin(ce), D * safe * np.cos(b1) * np.cos(ce)
                         - D * D * y * np.sin(b1) * np.sin(ce))
        lam = np.where(rho == 0, 0.0, lam)
        beta = np.arcsin(np.clip(q / self._qp, -1, 1))
        e2 = self._e2
        lat = beta + (e2 / 3 + 31 * e2 ** 2 / 180 + 517 * e2 ** 3 / 5040) * np.sin(2 * beta) + (
            23 * e2 ** 2 / 360 + 251 * e2 ** 3 / 3780) * np.sin(4 * beta) + (
            761 * e2 ** 3 / 45360) * np.sin(6 * beta)
        return _wrap(np.degrees(lam) + self.p[0]), np.degrees(lat)


class TransverseMercator(Projection):
    def __init__(self, central_longitude=0.0, central_latitude=0.0, false_easting=0.0,
                 false_northing=0.0, scale_factor=1.0, globe=None, approx=None):
        self.p = (float(central_longitude), float(central_latitude), float(false_easting),
                  float(false_northing), float(scale_factor))
        super().__init__(globe)

    def _params(self):
        return self.p

    def _m(self, ph):
        e2 = self._e2
        e4, e6 = e2 ** 2, e2 ** 3
        return self._a * (
            (1 - e2 / 4 - 3 * e4 / 64 - 5 * e6 / 256) * ph
            - (3 * e2 / 8 + 3 * e4 / 32 + 45 * e6 / 1024) * np.sin(2 * ph)
            + (15 * e4 / 256 + 45 * e6 / 1024) * np.sin(4 * ph)
            - (35 * e6 / 3072) * np.sin(6 * ph))

    def _forward(self, lon, lat):
        lon0, lat0, fe, fn, k0 = self.p
        ph, lam = np.radians(lat), np.radians(lon - lon0)
        e2 = self._e2
        ep2 = e2 / (1 - e2)
        n = self._a / np.sqrt(1 - e2 * np.sin(ph) ** 2)
        t, c = np.tan(ph) ** 2, ep2 * np.cos(ph) ** 2
        a = lam * np.cos(ph)
        x = k0 * n * (a + (1 - t + c) * a ** 3 / 6
                      + (5 - 18 * t + t * t + 72 * c - 58 * ep2) * a ** 5 / 120)
        y = k0 * (self._m(ph) - self._m(np.radians(lat0)) + n * np.tan(ph) * (
            a ** 2 / 2 + (5 - t + 9 * c + 4 * c * c) * a ** 4 / 24
            + (61 - 58 * t + t * t + 600 * c - 330 * ep2) * a ** 6 / 720))
        return x + fe, y + fn

    def _inverse(self, x, y):
        lon0, lat0, fe, fn, k0 = self.p
        e2 = self._e2
        ep2 = e2 / (1 - e2)
        m = self._m(np.radians(lat0)) + (y - fn) / k0
        mu = m / (self._a * (1 - e2 / 4 - 3 * e2 ** 2 / 64 - 5 * e2 ** 3 / 256))
        e1 = (1 - np.sqrt(1 - e2)) / (1 + np.sqrt(1 - e2))
        p1 = (mu + (3 * e1 / 2 - 27 * e1 ** 3 / 32) * np.sin(2 * mu)
              + (21 * e1 ** 2 / 16 - 55 * e1 ** 4 / 32) * np.sin(4 * mu)
              + (151 * e1 ** 3 / 96) * np.sin(6 * mu)
              + (1097 * e1 ** 4 / 512) * np.sin(8 * mu))
        c1, t1 = ep2 * np.cos(p1) ** 2, np.tan(p1) ** 2
        n1 = self._a / np.sqrt(1 - e2 * np.sin(p1) ** 2)
        r1 = self._a * (1 - e2) / (1 - e2 * np.sin(p1) ** 2) ** 1.5
        d = (x - fe) / (n1 * k0)
        lat = p1 - (n1 * np.tan(p1) / r1) * (
            d ** 2 / 2 - (5 + 3 * t1 + 10 * c1 - 4 * c1 ** 2 - 9 * ep2) * d ** 4 / 24
            + (61 + 90 * t1 + 298 * c1 + 45 * t1 ** 2 - 252 * ep2 - 3 * c1 ** 2) * d ** 6 / 720)
        lon = np.radians(lon0) + (d - (1 + 2 * t1 + c1) * d ** 3 / 6 + (
            5 - 2 * c1 + 28 * t1 - 3 * c1 ** 2 + 8 * ep2 + 24 * t1 ** 2) * d ** 5 / 120
        ) / np.cos(p1)
        return np.degrees(lon), np.degrees(lat)


class OSGB(TransverseMercator):
    def __init__(self, approx=None):
        super().__init__(-2, 49, 400000, -100000, 0.9996012717,
                         globe=Globe(semimajor_axis=6377563.396, semiminor_axis=6356256.909))


class Mercator(Projection):
    def __init__(self, central_longitude=0.0, globe=None, **kw):
        self.p = (float(central_longitude),)
        super().__init__(globe)

    def _params(self):
        return self.p

    def _forward(self, lon, lat):
        e = np.sqrt(max(self._e2, 0))
        ph = np.radians(lat)
        y = self._a * (np.arctanh(np.sin(ph)) - e * np.arctanh(e * np.sin(ph)))
        return self._a * np.radians(_wrap(lon - self.p[0])), y

    def _inverse(self, x, y):
        lat = np.arcsin(np.tanh(y / self._a))
        for _ in range(8):
            e = np.sqrt(max(self._e2, 0))
            lat = np.arcsin(np.tanh(y / self._a + e * np.arctanh(e * np.sin(lat))))
        return np.degrees(x / self._a) + self.p[0], np.degrees(lat)


class AlbersEqualArea(CRS):
    pass
