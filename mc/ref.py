"""Independent reference mathematics (no scipy, nothing from the package under test)."""
import math
import numpy as np


def pbar(lmax, theta):
    """Orthonormal associated Legendre functions with Condon-Shortley phase, {(l, m): array} for m >= 0.

    Y_lm = pbar_lm(theta) exp(i m phi) is orthonormal on the unit sphere.
    """
    theta = np.asarray(theta, dtype=float)
    x, s = np.cos(theta), np.sin(theta)
    res = {}
    pmm = np.full(theta.shape, 1 / math.sqrt(4 * math.pi))
    for m in range(0, lmax + 1):
        if m > 0:
            pmm = -math.sqrt((2 * m + 1) / (2 * m)) * s * pmm
        res[m, m] = pmm
        if m + 1 <= lmax:
            res[m + 1, m] = math.sqrt(2 * m + 3) * x * pmm
        for l in range(m + 2, lmax + 1):
            a = math.sqrt((4 * l * l - 1) / (l * l - m * m))
            b = math.sqrt(((l - 1) ** 2 - m * m) / (4 * (l - 1) ** 2 - 1))
            res[l, m] = a * (x * res[l - 1, m] - b * res[l - 2, m])
    return res


class Harmonics:
    """Y, dY/dtheta and (dY/dphi)/sin(theta) at given points for all degrees up to lmax and all orders."""

    def __init__(self, lmax, theta, phi):
        theta, phi = np.broadcast_arrays(np.asarray(theta, float), np.asarray(phi, float))
        self.theta, self.phi, self.lmax = theta, phi, lmax
        self._p = pbar(lmax + 1, theta)

    def p(self, l, m):
        if l < 0 or abs(m) > l:
            return np.zeros(self.theta.shape)
        return self._p[l, m] if m >= 0 else (-1) ** (-m) * self._p[l, -m]

    def dp(self, l, m):
        up = math.sqrt((l - m) * (l + m + 1)) if m < l else 0.0
        dn = math.sqrt((l + m) * (l - m + 1)) if m > -l else 0.0
        return 0.5 * (up * self.p(l, m + 1) - dn * self.p(l, m - 1))

    def mp_over_sin(self, l, m):
        if l == 0 or m == 0:
            return np.zeros(self.theta.shape)
        f = -0.5 * math.sqrt((2 * l + 1) / (2 * l - 1))
        a = math.sqrt(max((l - m) * (l - m - 1), 0))
        b = math.sqrt(max((l + m) * (l + m - 1), 0))
        return f * (a * self.p(l - 1, m + 1) + b * self.p(l - 1, m - 1))

    def e(self, m):
        return np.exp(1j * m * self.phi)

    def Y(self, l, m):
        return self.p(l, m) * self.e(m)

    def dY(self, l, m):
        return self.dp(l, m) * self.e(m)

    def dYphi(self, l, m):
        return 1j * self.mp_over_sin(l, m) * self.e(m)


COMPONENTS = ("radial-poloidal", "radial-toroidal", "polar-poloidal", "polar-toroidal",
              "azimuthal-poloidal", "azimuthal-toroidal")


def zdi_parts(coeffs, theta, phi, h=None):
    """coeffs: iterable of (l, m, alpha, beta, gamma). Returns {component: array}."""
    coeffs = list(coeffs)
    lmax = max([c[0] for c in coeffs], default=0)
    if h is None:
        h = Harmonics(lmax, theta, phi)
    r = {k: np.zeros(h.theta.shape) for k in COMPONENTS}
    for l, m, a, b, g in coeffs:
        n = 1.0 / (l + 1)
        if a != 0:
            r["radial-poloidal"] = r["radial-poloidal"] + np.real(a * h.Y(l, m))
        if b != 0:
            r["polar-poloidal"] = r["polar-poloidal"] - np.real(b * h.dY(l, m)) * n
            r["azimuthal-poloidal"] = r["azimuthal-poloidal"] - np.real(b * h.dYphi(l, m)) * n
        if g != 0:
            r["polar-toroidal"] = r["polar-toroidal"] + np.real(g * h.dYphi(l, m)) * n
            r["azimuthal-toroidal"] = r["azimuthal-toroidal"] - np.real(g * h.dY(l, m)) * n
    return r


def zdi_field(coeffs, theta, phi, h=None):
    """(radial, polar, azimuthal)"""
    r = zdi_parts(coeffs, theta, phi, h)
    return tuple(r[c + "-poloidal"] + r[c + "-toroidal"] for c in ("radial", "polar", "azimuthal"))


def unit_vectors(theta, phi):
    """r, theta, phi unit vectors, last axis x, y, z."""
    st, ct, sp, cp = np.sin(theta), np.cos(theta), np.sin(phi), np.cos(phi)
    z = np.zeros_like(st * sp)
    return (np.stack([st * cp + z, st * sp + z, ct + z], -1),
            np.stack([ct * cp + z, ct * sp + z, -st + z], -1),
            np.stack([-sp + z, cp + z, z], -1))


def cartesian(fr, ft, fp, theta, phi):
    er, et, ep = unit_vectors(theta, phi)
    return fr[..., None] * er + ft[..., None] * et + fp[..., None] * ep


def pfss_field(coeffs, r, theta, phi, rs=1.0, rss=2.5, h=None):
    """coeffs: iterable of (l, m, g + i h) with m >= 0. Field of the potential, region by region."""
    coeffs = list(coeffs)
    r, theta, phi = np.broadcast_arrays(np.asarray(r, float), np.asarray(theta, float), np.asarray(phi, float))
    lmax = max([c[0] for c in coeffs], default=0)
    if h is None:
        h = Harmonics(lmax, theta, phi)
    rho = np.minimum(r, rss)
    br, bt, bp = (np.zeros(r.shape) for _ in range(3))
    with np.errstate(all="ignore"):
        for l, m, c in coeffs:
            if c == 0:
                continue
            # Schmidt semi-normalised, no Condon-Shortley phase: sqrt(4 pi/(2l+1)) sqrt(2 - d) (-1)^m pbar
            n = math.sqrt(4 * math.pi / (2 * l + 1)) * (math.sqrt(2) if m else 1) * (-1) ** m
            q = (rs / rss) ** (2 * l + 1)
            # radial function of the potential: psi = rs * sum R_l; R(rss) = 0; -dR/dr(rs) = 1
            den = l + 1 + l * q
            R = rs * ((rs / rho) ** (l + 1) - (rs / rss) ** (l + 1) * (rho / rss) ** l) / den
            dR = (-(l + 1) * (rs / rho) ** (l + 2) - l * (rs / rss) ** (l + 2) * (rho / rss) ** (l - 1)) / den
            cc = np.conj(c)     # Re(conj(c) e^{-i..}): g cos + h sin = Re((g - i h) e^{i m phi})
            br = br - dR * n * np.real(cc * h.Y(l, m))
            bt = bt - R / rho * n * np.real(cc * h.dY(l, m))
            bp = bp - R / rho * n * np.real(cc * h.dYphi(l, m))
    f = np.where(r > rss, (rss / r) ** 2, 1.0)
    f = np.where(r < rs, 0.0, f)
    z = r < rs
    return tuple(np.where(z, 0.0, b * f) for b in (br, bt, bp))


def err(a, b):
    """Largest deviation of a from b relative to the scale of b (at least 1e-300)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.0
    if not np.all(np.isfinite(a) | ~np.isfinite(b)):
        return np.inf
    scale = np.max(np.abs(b))
    d = np.max(np.abs(a - b))
    if d == 0:
        return 0.0
    return d / max(scale, 1e-300)


def gauss_sphere(n):
    """Quadrature nodes exact for spherical polynomials up to degree 2n-1: theta, phi, weights (2-D)."""
    x, w = np.polynomial.legendre.leggauss(n)
    k = 2 * n + 1
    phi = 2 * np.pi * np.arange(k) / k
    th, ph = np.meshgrid(np.arccos(x), phi, indexing="ij")
    ww = np.repeat(w[:, None], k, axis=1) * (2 * np.pi / k)
    return th, ph, ww


def schmidt_factor(l, m):
    """ZDI -> PFSS scaling."""
    return math.sqrt((2 * l + 1) / (4 * math.pi * (1 if m == 0 else 2))) * (-1) ** (m % 2)
