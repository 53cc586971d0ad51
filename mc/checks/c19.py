"""C19: every ordered pair (thorough: every triple over the lighter calls) of calls on one set of shared objects.

Each call is first made alone in a process of its own; its result there is what it must return in every history.
After every call everything that was handed to any call is compared with its state before.
"""
import itertools, os, pickle, io, contextlib, tempfile
import numpy as np
from mc.core import Mismatch, require, bound, scratch, THOROUGH
from mc.checks import c06, c09, c11
from starwinds_magnetogram import coefficients as C
from starwinds_magnetogram import converter as K
from starwinds_magnetogram import coordinate_transforms as T
from starwinds_magnetogram import fibonacci_sphere as F
from starwinds_magnetogram import geometry as G
from starwinds_magnetogram import image_converter as I
from starwinds_magnetogram import longitudinal_field as L
from starwinds_magnetogram import pfss_magnetogram as P
from starwinds_magnetogram import plot_lsd, plot_pfss, plot_zdi, plots
from starwinds_magnetogram import reader_writer as RW
from starwinds_magnetogram import rotate as R
from starwinds_magnetogram import zdi_magnetogram as Z
from starwinds_magnetogram.parker_solution import ParkerSolution

LEVEL = "model_checking"


def world():
    w = {}
    ex = [(l, m, a, b, g) for l, m, a, b, g in c06.example(3) if m >= 0]
    one, neg, three, three_b = C.Coefficients(), C.Coefficients(), C.Coefficients(np.zeros(3, complex)), C.Coefficients(np.zeros(3, complex))
    for l, m, a, b, g in ex:
        one.append(l, m, a)
        three.append(l, m, np.array([a, b, g]))
        three_b.append(l, m, np.array([g, a + 1, b]))
    for l, m, a, b, g in c06.example(2):
        neg.append(l, m, a - b)
    w["one"], w["neg"], w["three"], w["other"] = one, neg, three, three_b
    w["one2"] = one * 2j
    w["zdi"], w["zdi2"] = Z.from_coefficients(three), Z.from_coefficients(three_b)
    w["ls"], w["ms"] = np.array([e[0] for e in ex]), np.array([e[1] for e in ex])
    w["values"] = np.array([[e[2], e[3], e[4]] for e in ex])
    w["geo"], w["geo2"] = G.ZdiGeometry(5, 9), G.ZdiGeometry(np.array([0., 1, 2, np.pi]), np.array([0., 2, 4, 2 * np.pi]))
    w["pl"], w["az"] = [x.copy() for x in w["geo"].centers()]
    w["pl2"], w["az2"] = w["pl"] * .9 + .1, w["az"] + 1
    w["points"] = [np.array(x) for x in ([.3, -1.2, 2, .1], [1., .5, -2, 1], [.2, -.4, 1, -3])]
    w["radii"] = np.array([1.0, 1.5, 2.5, 4.0, .5])
    w["theta"], w["phi"] = np.array([.3, 1.1, 2.2, 3.0, 1.9]), np.array([0., 1., -2., 5., 7.])
    w["angles"] = np.array([30., 40.5, 50.])
    w["geo3"] = G.ZdiGeometry(np.array([0., .5, 1, 2, np.pi]), np.linspace(-np.pi, np.pi, 9))
    w["many"] = Z.ZdiMagnetogram(*[np.array(c) for c in zip(*c06.example(6))])
    w["metres"] = np.array([1e8, 7e8, 1e9, 2.7e9, 1e11])
    w["parker"] = ParkerSolution()
    w["fields"] = [np.cos(w["pl"]) + i * np.sin(w["az"]) for i in range(3)]
    w["image"] = np.cos(w["pl"]) * (1 + .2 * np.sin(w["az"]))
    w["cimage"] = w["image"] * (1 + .5j) + .1j * np.cos(w["az"])
    w["direction"] = np.array([1., 2., -2.])
    w["azimuths"] = np.array([2.5, 0., 1., 7.])
    w["wl"] = np.array([1., 1.1, 1.2, 2, 2.1, 5])
    w["spectrum"] = np.arange(36.).reshape(6, 6) + 400
    w["lsd"] = np.arange(35.).reshape(5, 7)
    return w


ATTRIBUTES = ((Z.ZdiMagnetogram, ("degrees_l", "orders_m", "alpha", "beta", "gamma")), (G.ZdiGeometry, ("polar_corners", "azimuthal_corners", "shape")),
              (ParkerSolution, ("temperature", "base_density", "stellar_radius", "stellar_mass", "radius_sonic", "speed_sonic", "speed_surface", "density_sonic")))


def canon(x, depth=0):
    """Comparable description of anything a call takes or returns."""
    if depth > 8:
        return "..."
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), tuple(map(repr, x.tolist())) if x.dtype == object else x.tobytes())
    if isinstance(x, C.Coefficients):
        return ("coefficients", canon(x.default_coefficients), tuple((k, canon(np.asarray(v))) for k, v in x.contents()))
    for cls, names in ATTRIBUTES:
        if isinstance(x, cls):
            return (cls.__name__, tuple((k, canon(getattr(x, k), depth + 1)) for k in names))
    if isinstance(x, dict):
        return ("dict", tuple((repr(k), canon(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(canon(v, depth + 1) for v in x))
    if isinstance(x, (float, complex, np.generic)):
        return repr(x)
    if isinstance(x, (str, bytes, int, bool)) or x is None:
        return x
    if callable(x):
        return "callable"
    return type(x).__name__


def figure(fn):
    import matplotlib.pyplot as plt
    try:
        r = fn(plt)
        out = []
        for num in plt.get_fignums():
            for ax in plt.figure(num).axes:
                out.append((ax.get_title(), ax.get_xlabel(), tuple((type(a).__name__, canon(np.ma.filled(np.ma.asarray(a.get_array(), float), np.nan)))
                                                                 for a in ax.collections if a.get_array() is not None),
                            tuple(canon(np.asarray(q.get_xydata(), float)) for q in ax.lines), tuple(t.get_text() for t in ax.texts)))
        return out
    finally:
        plt.close("all")


def printed(fn):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = fn()
    return r, buf.getvalue()


def written(fn):
    with scratch():
        fn("out.dat")
        return open("out.dat", "rb").read()


def read_back(w, text):
    with scratch():
        with open("in.dat", "w") as f:
            f.write(text)
        r = RW.read_magnetogram_file("in.dat")
        require(open("in.dat").read() == text, "the file that was read has changed")
        return r


FILE = """Title of the file
3 3 -3
1 0 1.0 0.0
1 1 0.5 -2.0
2 0 -1.0 3.0

1 0 2.0 1.0
1 1 0.25 4.0
2 0 1e-3 1e3

1 0 -2.0 7.0
1 1 0.125 4.5
2 0 1e-2 1e2
"""


def calls():
    g = lambda name: (lambda w: getattr(w["zdi"], name)(w["pl"], w["az"]))
    ops = {
        # coefficient sets
        "copy": lambda w: w["three"].copy(), "str": lambda w: (str(w["three"]), repr(w["one"])), "get": lambda w: [w["three"].get(1, 0), w["three"].get(9, 9)],
        "has": lambda w: [w["three"].has(1, 0), w["three"].has(7, 0), w["three"].degree_max, w["three"].order_min, w["three"].size],
        "as_arrays": lambda w: w["three"].as_arrays(), "as_arrays set": lambda w: w["neg"].as_arrays(include_unset=False),
        "as_arrays all": lambda w: w["one"].as_arrays(include_unset=True, degree_l_max=5, order_m_min=-2),
        "from_arrays": lambda w: C.from_arrays(w["ls"], w["ms"], w["values"]),
        "from_arrays 1": lambda w: C.from_arrays(w["ls"], w["ms"], w["values"][:, 0]),
        "add": lambda w: w["three"] + w["other"], "subtract": lambda w: w["other"] - w["three"], "multiply": lambda w: w["three"] * 2.5,
        "rmultiply": lambda w: 2j * w["three"], "divide": lambda w: w["three"] / 3.0, "product": lambda w: C.multiply(w["one"], 2) ,
        "truncated": lambda w: w["three"].truncated(2), "hsplit": lambda w: w["three"].hsplit(), "hsplit 2": lambda w: w["three"].hsplit([1]),
        "hstack": lambda w: C.hstack((w["one"], w["one"])), "empty_like": lambda w: C.empty_like(w["three"]), "zeros_like": lambda w: C.zeros_like(w["three"]),
        "scale": lambda w: w["one"].scale(lambda l, m: 2.0 + l), "scale -1": lambda w: w["three"].scale(lambda l, m: 2.0 + l, -1),
        "isclose": lambda w: C.isclose(w["three"], w["other"]), "allclose": lambda w: [C.allclose(w["three"], w["other"]), C.allclose(w["one"], w["one"])],
        "noise": lambda w: C.noise(1, 4, noise_fn=lambda *a, **k: np.array([1.5, -.5])[:2] if not k and not a else np.full(k.get("size", a[-1] if a else 2), .5)),
        # conversions
        "zdi to pfss": lambda w: K.convert_zdi_to_pfss(w["one"]), "pfss to zdi": lambda w: K.convert_pfss_to_zdi(w["one"]),
        "fold": lambda w: K.map_to_positive_orders(w["neg"]), "map to zdi": lambda w: K.convert_latlon_to_zdi_coeffs(w["pl"], w["az"], *w["fields"], max_degree=2),
        "map to magnetogram": lambda w: K.convert_latlon_to_zdi(w["pl"], w["az"], *w["fields"], area=.5, max_degree=1),
        "factor": lambda w: [K.forward_conversion_factor(3, 2), K.forward_conversion_factor(1, 0)],
        # magnetograms
        "from_coefficients": lambda w: Z.from_coefficients(w["three"]), "from_coefficients 1": lambda w: Z.from_coefficients(w["one"]),
        "construct": lambda w: Z.ZdiMagnetogram(w["ls"], w["ms"], w["values"][:, 0], w["values"][:, 1], w["values"][:, 2]),
        "zdi str": lambda w: str(w["zdi"]), "degree": lambda w: w["zdi"].degree(), "zdi copy": lambda w: w["zdi"].copy(),
        "as_dipole": lambda w: w["zdi"].as_dipole(), "as_poloidal": lambda w: w["zdi"].as_poloidal(), "as_toroidal": lambda w: w["zdi"].as_toroidal(),
        "as_restricted": lambda w: w["zdi"].as_restricted((2, 3), (0, 1)),
        "energy": lambda w: w["zdi"].energy(dest={}), "energy dict": lambda w: (lambda d: (w["zdi"].energy(dest=d), d))({}),
        "energy printed": lambda w: printed(lambda: w["zdi"].energy(show_fractions=True)), "energy_matrix": lambda w: w["zdi"].energy_matrix(),
        "energy other": lambda w: w["zdi2"].energy(dest={}),
        "all parts": lambda w: {(a, b): f(w["pl"], w["az"]) for a, d in w["zdi"].get_all().items() for b, f in d.items()},
        # pfss
        "pfss spherical": lambda w: P.evaluate_spherical(w["one"], w["radii"], w["theta"], w["phi"]),
        "pfss spherical radius": lambda w: P.evaluate_spherical(w["one"], np.array([2.0]), w["theta"], w["phi"], radius_star=1.5, radius_source_surface=3.0),
        "pfss cartesian": lambda w: P.evaluate_cartesian(w["one"], *w["points"]),
        "pfss cartesian 3": lambda w: P.evaluate_cartesian(w["one"], *w["points"], radius_source_surface=3.0),
        "pfss other": lambda w: P.evaluate_spherical(w["one2"], w["radii"], w["theta"], w["phi"]),
        "pfss elsewhere": lambda w: P.evaluate_spherical(w["one"], w["radii"] + .2, w["theta"] * .9, w["phi"] + 1),
        "pfss spherical reversed": lambda w: P.evaluate_spherical(w["one"], w["radii"], w["theta"][::-1], w["phi"][::-1]),
        "pfss cartesian reversed": lambda w: P.evaluate_cartesian(w["one"], *[x[::-1] for x in w["points"]]),
        "description same shape": lambda w: G.numerical_description(w["geo3"], w["zdi"]), "areas same shape": lambda w: [w["geo3"].areas(), w["geo3"].unit_normals()],
        "longitudinal same shape": lambda w: L.get_longitudinal_field_curve(w["geo3"], w["zdi"], .7, w["azimuths"]),
        "map elsewhere": lambda w: K.convert_latlon_to_zdi_coeffs(w["pl2"], w["az2"], *w["fields"], max_degree=2),
        "image same shape": lambda w: I.to_image(w["one"], G.ZdiGeometry(np.linspace(0, 2, 5), np.linspace(1, 2, 9))),
        "many": lambda w: [f(w["pl"], w["az"]) for f in (w["many"].get_radial_field, w["many"].get_polar_field, w["many"].get_azimuthal_field)] + [w["many"].energy(dest={})],
        "many restricted": lambda w: w["many"].as_restricted((1, 4), (-3, 2)), "many toroidal": lambda w: w["many"].as_toroidal(),
        "to image other": lambda w: I.to_image(w["one2"], w["geo"]), "zdi to pfss other": lambda w: K.convert_zdi_to_pfss(w["one2"]),
        "visible other": lambda w: w["geo"].projected_visible_area_fraction(-w["direction"]), "speed other": lambda w: w["parker"].speed(w["metres"] * 1.5),
        "longitudinal other": lambda w: L.get_longitudinal_field_curve(w["geo"], w["zdi"], 1.7, w["azimuths"] + 1),
        # rotation
        "rotate": lambda w: R.rotate_magnetogram_euler_zyz_deg(w["neg"], w["angles"]), "rotate 2": lambda w: R.rotate_magnetogram_euler_zyz_deg(w["neg"], np.array([0., 90, 0])),
        # geometry
        "geometry": lambda w: G.ZdiGeometry(5, 9), "geometry default": lambda w: G.ZdiGeometry(), "centers": lambda w: w["geo"].centers(), "areas": lambda w: [w["geo"].areas(), w["geo2"].areas()],
        "normals": lambda w: w["geo"].unit_normals(), "visible": lambda w: w["geo"].projected_visible_area_fraction(w["direction"]),
        "cartesian corners": lambda w: [w["geo"].corners_cartesian(), w["geo"].centers_cartesian()],
        "description": lambda w: G.numerical_description(w["geo"], w["zdi"]), "description other": lambda w: G.numerical_description(w["geo2"], w["zdi2"]),
        # observers, wind, images
        "longitudinal": lambda w: L.get_longitudinal_field_curve(w["geo"], w["zdi"], .7, w["azimuths"]),
        "longitudinal default": lambda w: L.get_longitudinal_field_curve(w["geo"], w["zdi2"], 1.2),
        "speed": lambda w: w["parker"].speed(w["metres"]), "density": lambda w: w["parker"].density(w["metres"]), "flux": lambda w: [w["parker"].total_mass_flux, str(w["parker"])],
        "hot wind": lambda w: ParkerSolution(temperature=3e6).speed(w["metres"]), "dimensionless": lambda w: ParkerSolution.find_parker_analytic(w["radii"]),
        "to image": lambda w: I.to_image(w["neg"], w["geo"]), "to image 2": lambda w: I.to_image(w["one"], G.ZdiGeometry(4, 6)),
        "from image": lambda w: I.from_image(w["image"], w["geo"], lmax=3)[0], "from image default": lambda w: I.from_image(w["image"], lmax=2)[0],
        "from image complex": lambda w: I.from_image(w["cimage"], w["geo"], lmax=2)[0], "from image order": lambda w: I.from_image(np.asfortranarray(w["image"]), w["geo"], lmax=2)[0],
        "harmonic": lambda w: I.spherical_harmonic(1, 2, w["az"], w["pl"]), "harmonic points": lambda w: I.spherical_harmonic(1, 2, w["phi"], w["theta"]),
        # transforms
        "to spherical": lambda w: T.spherical_coordinates_from_rectangular(*w["points"]), "to cartesian": lambda w: T.rectangular_coordinates_from_spherical(w["radii"], w["theta"], w["phi"]),
        "matrix": lambda w: T.spherical_to_rectangular_transformation_matrix(w["theta"], w["phi"]), "inverse matrix": lambda w: T.rectangular_to_spherical_transformation_matrix(w["theta"], w["phi"]),
        "fibonacci": lambda w: F.fibonacci_sphere(9), "intervals": lambda w: plot_lsd.wl_intervals(w["wl"]),
        # files
        "write 1": lambda w: written(lambda f: RW.write_magnetogram_file(w["one"], f)), "write 3": lambda w: written(lambda f: RW.write_magnetogram_file(w["three"], f)),
        "write header": lambda w: written(lambda f: RW.write_magnetogram_file(w["one"], f, degree_max=2, write_swmf_header=True)),
        "write negative": lambda w: written(lambda f: RW.write_magnetogram_file(w["neg"], f, order_min=-2)),
        "write padded": lambda w: written(lambda f: RW.write_magnetogram_file(w["three"], f, degree_max=6)),
        "read": lambda w: read_back(w, FILE), "read other": lambda w: read_back(w, FILE.replace("1.0", "1.75").replace("2 0 ", "2 1 ")),
    }
    for name in ("get_radial_field", "get_polar_field", "get_azimuthal_field", "get_field_strength", "get_radial_poloidal_field", "get_radial_toroidal_field",
                 "get_polar_poloidal_field_new", "get_polar_toroidal_field", "get_azimuthal_poloidal_field", "get_azimuthal_toroidal_field_new",
                 "get_cartesian_field", "get_cartesian_poloidal_field", "get_cartesian_toroidal_field"):
        ops[name] = g(name)
        ops[name + " reversed"] = lambda w, name=name: getattr(w["zdi"], name)(np.flip(w["pl"]), np.flip(w["az"]))
        if name in ("get_radial_field", "get_polar_field", "get_azimuthal_field", "get_cartesian_field"):
            ops[name + " elsewhere"] = lambda w, name=name: getattr(w["zdi"], name)(w["pl2"], w["az2"])
            ops[name + " other"] = lambda w, name=name: getattr(w["zdi2"], name)(w["pl"], w["az"])
    heavy = {
        "plot energy": lambda w: figure(lambda plt: plot_zdi.plot_energy_summary(w["zdi"])),
        "plot matrix": lambda w: figure(lambda plt: plot_zdi.plot_energy_matrix(w["zdi"])),
        "plot degrees": lambda w: figure(lambda plt: plot_zdi.plot_energy_by_degree(w["zdi"])),
        "plot components": lambda w: figure(lambda plt: plot_zdi.plot_zdi_components(w["zdi"], zg=w["geo"])),
        "plot field": lambda w: figure(lambda plt: plot_zdi.plot_zdi_field(w["zdi"].get_radial_field, zg=w["geo"])),
        "plot pfss": lambda w: figure(lambda plt: plot_pfss.plot_components(w["one"], geometry=w["geo"])),
        "plot lsd": lambda w: figure(lambda plt: (plt.subplots(3), plot_lsd.plot_lsd_profile(w["lsd"], "VNI"))),
        "plot spectrum": lambda w: figure(lambda plt: plot_lsd.plot_spectrum(w["spectrum"])),
        "plot curve": lambda w: figure(lambda plt: L.plot_longitudinal_field_curve(plt.figure().add_subplot(), w["geo"], w["zdi"], .7, w["azimuths"])),
    }
    return ops, heavy


# Hand out or keep the caller's own array, by design.
VIEWS = {"get", "construct"}


def scribble(x, depth=0):
    """Overwrite every array of a result."""
    if depth > 4:
        return
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fc" and x.flags.writeable:
            x *= -3
            x += 11
        return
    if isinstance(x, C.Coefficients):
        for k, v in list(x.contents()):
            x.set(k[0], k[1], np.asarray(v) * 0 + 5)
        x.append(11, 0, np.zeros_like(x.default_coefficients))
        return
    if isinstance(x, Z.ZdiMagnetogram):
        x.alpha[:] = 7
        x.beta[:] = 7
        x.gamma[:] = 7
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v, depth + 1)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v, depth + 1)


ARRAYS = ("angles", "pl", "az", "pl2", "az2", "points", "radii", "theta", "phi", "metres", "fields", "image", "cimage", "direction", "azimuths", "wl",
          "spectrum", "lsd", "values")


def nudge(w):
    """Change everything a little, so that nothing remembered for almost the same arguments may be used."""
    for n in ARRAYS:
        for x in w[n] if isinstance(w[n], list) else [w[n]]:
            x *= 1 + 2. ** -20
    for n in ("one", "neg", "three", "other", "one2"):
        for k, v in list(w[n].contents()):
            w[n].set(k[0], k[1], np.array(v) * (1 + 2. ** -20))
    for n in ("zdi", "zdi2", "many"):
        for x in ("alpha", "beta", "gamma"):
            setattr(w[n], x, getattr(w[n], x) * (1 + 2. ** -20))


def alter(w, back=False):
    """Change in place what the caller owns: arrays are reversed (same object, shape and sum), coefficient sets get other values."""
    for n in ARRAYS:
        for x in w[n] if isinstance(w[n], list) else [w[n]]:
            x[...] = (x[::-1] if n in ("spectrum", "lsd", "values") else np.flip(x)).copy()
    for n in ("one", "neg", "three", "other", "one2"):
        for k, v in list(w[n].contents()):
            w[n].set(k[0], k[1], v * (-.5 if back else -2) if np.ndim(v) == 0 else np.array(v) * (-.5 if back else -2))
    for n in ("zdi", "zdi2", "many"):
        w[n].alpha *= -.5 if back else -2
        w[n].beta = w[n].beta * (-.5 if back else -2)
        w[n].gamma[...] = w[n].gamma * (-.5 if back else -2)


def alone(fn, altered=None):
    """The result of a call in a process of its own, in a fresh world."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                w = world()
                if altered:
                    altered(w)
                out = ("ok", canon(fn(w)))
            except BaseException as e:
                out = ("error", "%s: %s" % (type(e).__name__, str(e)[:300]))
            with os.fdopen(wr, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def run(ck):
    ck.rule = ("a state is one history of calls on shared objects; every result in it is compared with that of the same call made alone in a process of "
               "its own, and all objects with their state before")
    light, heavy = calls()
    ops = dict(light, **heavy)
    base, ok = {}, []
    for name, fn in ops.items():
        kind, val = alone(fn)

        def first(kind=kind, val=val):
            require(kind == "ok", "the call fails: %s", val)
        ck.step()
        if ck.case("alone: " + name, first):
            ok.append(name)
        base[name] = val
    w = world()
    start = {k: canon(v) for k, v in w.items()}

    def check_world(after):
        for k, v in w.items():
            require(canon(v) == start[k], "after %s: \"%s\" is not what it was", after, k)

    last = None

    def make(names, overwrite):
        """One history; the world is shared with all histories before, unless one has failed."""
        nonlocal last
        kept = []
        for i, n in enumerate(names):
            if i == 0 and n == last and not overwrite:
                continue            # just made, as the end of the history before
            ck.step()
            with contextlib.redirect_stdout(io.StringIO()):
                r = ops[n](w)
            last = None
            require(canon(r) == base[n], "step %d: the result of \"%s\" is not the one it has when called first", i + 1, n)
            check_world(n)
            last = n
            for m, old, was in kept:
                require(canon(old) == was, "after %s: the earlier result of \"%s\" has changed", n, m)
            if n not in VIEWS and len(kept) < 3 and not overwrite:
                kept.append((n, r, base[n]))
            if overwrite:
                last = None
                scribble(r)
                check_world("overwriting the result of " + n)

    def history(names, overwrite=False):
        nonlocal w
        cid = ("overwriting: " if overwrite else "") + " / ".join(names)
        ck.state(cid)
        if not ck.case(cid, make, names, overwrite):
            w = world()
            start.update({k: canon(v) for k, v in w.items()})
    for n in ok:
        history((n, n))
    for n in ok:
        if n not in VIEWS:
            history((n, n), True)
    # The caller changes its own arrays and sets in place between calls: nothing of the calls before may be left.
    changed = {n: alone(ops[n], alter) for n in ok}
    nudged = {n: alone(ops[n], nudge) for n in ok}

    def in_place(names):
        with contextlib.redirect_stdout(io.StringIO()):
            for n in names:
                ck.step()
                require(canon(ops[n](w)) == base[n], "the result of \"%s\" is not the one it has when called first", n)
            alter(w)
            for n in names:
                ck.step()
                try:
                    r = ("ok", canon(ops[n](w)))
                except Exception as e:
                    r = ("error", "%s: %s" % (type(e).__name__, str(e)[:300]))
                require(r[0] == changed[n][0] and (r[0] == "error" or r == changed[n]),
                        "after its arguments were changed in place \"%s\" does not give what it gives for such arguments alone", n)
            alter(w, back=True)
            for n in names:
                ck.step()
                require(canon(ops[n](w)) == base[n], "after its arguments were changed in place and back \"%s\" gives something else", n)

    def nudging(names):
        u = world()
        with contextlib.redirect_stdout(io.StringIO()):
            for n in names:
                ck.step()
                require(canon(ops[n](u)) == base[n], "the result of \"%s\" is not the one it has when called first", n)
            nudge(u)
            for n in names:
                ck.step()
                try:
                    r = ("ok", canon(ops[n](u)))
                except Exception as e:
                    r = ("error", "%s: %s" % (type(e).__name__, str(e)[:300]))
                require(r[0] == nudged[n][0] and (r[0] == "error" or r == nudged[n]),
                        "after its arguments were changed a little \"%s\" does not give what it gives for such arguments alone", n)
    for names in [(n,) for n in ok] + [tuple(n for n in ok if n not in heavy)]:
        ck.state("nudged", *names)
        ck.case("changed a little: " + (names[0] if len(names) == 1 else "all"), nudging, names)
    for names in [(n,) for n in ok] + [tuple(n for n in ok if n not in heavy)]:
        ck.state("in place", *names)
        ck.case("in place: " + (names[0] if len(names) == 1 else "all"), in_place, names)
        w = world()
        start.update({k: canon(v) for k, v in w.items()})
        last = None
    for a, b in itertools.combinations(ok, 2):
        if ck.too_many():
            break
        if (a in heavy) != (b in heavy) and not THOROUGH:
            continue
        history((a, b, a))
    if not THOROUGH:
        # a plot before and after all other calls, in one history
        for a in heavy:
            if a in ok and not ck.too_many():
                history((a,) + tuple(n for n in ok if n not in heavy) + (a,))
    if THOROUGH:
        quick = [n for n in ok if n in light and "default" not in n and "description" not in n and "longitudinal" not in n and "map to" not in n]
        for h in itertools.product(quick, repeat=3):
            if ck.too_many():
                break
            if len(set(h)) == 3:
                history(h)
    ck.extra["calls"] = len(ok)
    ck.sample(["zdi to pfss", "add"])
    ck.sample(["overwriting", "harmonic", "harmonic"])
