"""The planted bugs: replacements in /repo's sources and the demonstrations that fail with them.

tools/plant.py turns each into seeded/<id>/.  No check reads this file or seeded/.
"""
BUGS = {}


def bug(id_, prop, file, edits, needs, breaks, demo):
    assert id_ not in BUGS
    if isinstance(edits[0], str):
        edits = [edits]
    edits = [e if len(e) == 3 else (file, *e) for e in edits]
    BUGS[id_] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


P = "starwinds_magnetogram/"

# ---------------------------------------------------------------- C01
bug("c01-truncated-shortcut", "C01", P + "coefficients.py",
    ('''    output = empty_like(shc)
    for (degree, order), coeffs in shc.contents():
        if degree <= degree_max:
''', '''    if degree_max >= shc.degree_max:
        return shc  # Nothing to remove.

    output = empty_like(shc)
    for (degree, order), coeffs in shc.contents():
        if degree <= degree_max:
'''),
    "truncating at or above the highest degree and then changing the result",
    "the truncated set is the original object: changing one shows in the other",
    '''
import numpy as np, starwinds_magnetogram.coefficients as c
a = c.Coefficients(); a.set(1, 0, 1 + 1j)
b = a.truncated(3)
b.set(1, 1, 5)
assert not a.has(1, 1) and a.size == 1
''')

bug("c01-set-no-copy", "C01", P + "coefficients.py",
    [("data = data.astype(self.default_coefficients.dtype)", "data = data.astype(self.default_coefficients.dtype, copy=False)"),
    ('''    output = copy(shc)

    for (degree, order) in shc.coefficients:
        factor = scale_function(degree, order) ** power
        output.coefficients[(degree, order)] *= factor
''', '''    output = empty_like(shc)

    for (degree, order), coeffs in shc.contents():
        output.append(degree, order, coeffs * scale_function(degree, order) ** power)
''')],
    "an array of the set's own dtype given to set/append, or a copy, and an in-place change afterwards",
    "stored rows share storage with the caller's arrays and with copies",
    '''
import numpy as np, starwinds_magnetogram.coefficients as c
row = np.array([1 + 2j])
a = c.Coefficients(); a.set(2, 1, row)
row[0] = 9
assert a.get(2, 1)[0] == 1 + 2j
''')

bug("c01-refused-set-moves-degree", "C01", P + "coefficients.py",
    [('''        assert np.abs(order) <= degree, "Order must be between -l and l for degree l."
        assert data.shape == self._default_coefficients.shape, "Incompatible coefficient shapes."

        degree = int(degree)  # Integer please
        order = int(order)

        self.coefficients[(degree, order)] = data
        self._degree_max = max(self._degree_max, degree)
        self._order_min = min(self._order_min, order)
''', '''        assert np.abs(order) <= degree, "Order must be between -l and l for degree l."

        degree = int(degree)  # Integer please
        order = int(order)

        self._degree_max = max(self._degree_max, degree)
        self._order_min = min(self._order_min, order)

        assert data.shape == self._default_coefficients.shape, "Incompatible coefficient shapes."
        self.coefficients[(degree, order)] = data
''')],
    "a refused row of the wrong width at a new highest degree or lowest order",
    "a refused operation changes the highest degree",
    '''
import numpy as np, starwinds_magnetogram.coefficients as c
a = c.Coefficients(); a.set(1, 0, 1)
try:
    a.set(4, -2, [1, 2])
except AssertionError:
    pass
else:
    raise SystemExit("not refused")
assert a.degree_max == 1 and a.order_min == 0, (a.degree_max, a.order_min)
''')

bug("c01-as-arrays-order-range", "C01", P + "coefficients.py",
    ('''        if order_m_max is None:
            order_m_max = +degree_l_max
''', '''        if order_m_max is None:
            order_m_max = degree_l_max if order_m_min <= 0 else self.degree_max
        order_m_max = max(order_m_max, order_m_min, 0)
'''),
    "a highest order below zero asked of as_arrays",
    "conversion to arrays returns orders beyond the range asked for",
    '''
import starwinds_magnetogram.coefficients as c
a = c.Coefficients(); a.set(2, 0, 1); a.set(2, -1, 2); a.set(2, -2, 3)
l, m, d = a.as_arrays(order_m_min=-2, order_m_max=-1, include_unset=False)
assert list(m) == [-2, -1], m
''')

bug("c01-hsplit-drops-zero", "C01", P + "coefficients.py",
    ('''        for _shc, _split_value in zip(shcs, split_values):
            _shc.append(degree, order, _split_value)
''', '''        for _shc, _split_value in zip(shcs, split_values):
            if np.all(_split_value == _shc.default_coefficients):
                continue  # Same as unset.
            _shc.append(degree, order, _split_value)
'''),
    "splitting a set where one column holds an explicit zero",
    "explicit zero entries are dropped by hsplit, so the parts lose entries",
    '''
import starwinds_magnetogram.coefficients as c, numpy as np
a = c.Coefficients(np.zeros(2, complex)); a.set(3, 1, [0, 2])
p, q = a.hsplit()
assert p.has(3, 1) and p.size == 1 and p.degree_max == 3
''')

# ---------------------------------------------------------------- C02
bug("c02-small-values", "C02", P + "reader_writer.py",
    ("            data = data[0]\n", "            data = np.round(data[0], 12)  # The format holds six decimals.\n"),
    "coefficients of very small magnitude, such as fields in kilotesla",
    "coefficients below about 1e-12 are written as zero or with fewer digits",
    '''
import os, tempfile, numpy as np
import starwinds_magnetogram.coefficients as c
from starwinds_magnetogram import reader_writer as rw
a = c.Coefficients(); a.set(1, 0, 2 - 3j); a.set(1, 1, 1.25e-12 - 3e-20j)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.dat")
    rw.write_magnetogram_file(a, f)
    b = rw.read_magnetogram_file(f)
assert abs(b.get(1, 1) - a.get(1, 1)) < 1e-17 and abs(b.get(1, 1).imag + 3e-20) < 1e-25, b
''')

bug("c02-axisymmetric-real", "C02", P + "reader_writer.py",
    ("            data = data[0]\n", "            data = data[0] if m or len(coefficient_sets.default_coefficients) > 1 else np.real(data[0])\n"),
    "a set of one column with an order-zero coefficient that has an imaginary part",
    "the imaginary part of order-zero coefficients is lost",
    '''
import os, tempfile, numpy as np
import starwinds_magnetogram.coefficients as c
from starwinds_magnetogram import reader_writer as rw
a = c.Coefficients(); a.set(1, 0, 2 - 3j); a.set(1, 1, 1j)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.dat")
    rw.write_magnetogram_file(a, f)
    b = rw.read_magnetogram_file(f)
assert np.allclose(b.get(1, 0), 2 - 3j), b
''')

bug("c02-degree-zero", "C02", P + "reader_writer.py",
    ('''    if degree_max is None:
        degree_max = coefficient_sets.degree_max
''', '''    degree_max = degree_max or coefficient_sets.degree_max
'''),
    "a requested maximum degree of zero",
    "a file limited to degree 0 holds all degrees",
    '''
import os, tempfile, numpy as np
import starwinds_magnetogram.coefficients as c
from starwinds_magnetogram import reader_writer as rw
a = c.Coefficients(); a.set(0, 0, 2); a.set(1, 0, 5)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.dat")
    rw.write_magnetogram_file(a, f, degree_max=0)
    b = rw.read_magnetogram_file(f)
assert b.size == 1 and not b.has(1, 0), b
''')

# ---------------------------------------------------------------- C03
bug("c03-trailing-tokens", "C03", P + "reader_writer.py",
    ('''            line_tokens = line.split()
            degree_l = int(line_tokens[0])
            order_m = int(line_tokens[1])
            real_coeff = float(line_tokens[2])
            imag_coeff = float(line_tokens[3])
''', '''            line_tokens = line.split(maxsplit=3)
            degree_l = int(line_tokens[0])
            order_m = int(line_tokens[1])
            real_coeff = float(line_tokens[2])
            imag_coeff = float(line_tokens[3])
'''),
    "a data line followed by further tokens, such as a comment",
    "data lines with anything after the fourth token are ignored",
    '''
import os, tempfile
from starwinds_magnetogram import reader_writer as rw
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.dat")
    open(f, "w").write("h\\n1 0 1.0 2.0 # dipole\\n1 1 3.0 4.0\\n")
    b = rw.read_magnetogram_file(f)
assert b.has(1, 0) and b.get(1, 0)[0] == 1 + 2j
''')

bug("c03-blank-line-ends-set", "C03", P + "reader_writer.py",
    ('''        if coefficient_sets[-1].has(degree_l, order_m):
''', '''        previous_blank = line_no > 0 and not magnetogram_file_lines[line_no - 1]
        if coefficient_sets[-1].has(degree_l, order_m) or (
                previous_blank and degree_l < coefficient_sets[-1].degree_max):
'''),
    "a blank line inside a set before a line of lower degree that was not there yet",
    "a blank line starts a new set although nothing is repeated",
    '''
import os, tempfile
from starwinds_magnetogram import reader_writer as rw
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.dat")
    open(f, "w").write("h\\n2 0 1.0 2.0\\n\\n1 1 3.0 4.0\\n")
    b = rw.read_magnetogram_file(f)
assert b.default_coefficients.shape == (1,), b
''')

bug("c03-first-set-decides", "C03", P + "reader_writer.py",
    ('''        if coefficient_sets[-1].has(degree_l, order_m):
''', '''        if coefficient_sets[-1].has(degree_l, order_m) or (
                len(coefficient_sets) > 1 and coefficient_sets[-1].size == coefficient_sets[0].size):
'''),
    "a second set with more lines than the first",
    "a new set starts when the size of the first is reached instead of at a repeat",
    '''
import os, tempfile
from starwinds_magnetogram import reader_writer as rw
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.dat")
    open(f, "w").write("h\\n1 0 1.0 2.0\\n1 0 3.0 4.0\\n1 1 5.0 6.0\\n")
    b = rw.read_magnetogram_file(f)
assert b.default_coefficients.shape == (2,), b
assert list(b.get(1, 1)) == [0, 5 + 6j]
''')

# ---------------------------------------------------------------- C04
bug("c04-name-split-at-first-dot", "C04", P + "bin/convert_magnetogram.py",
    ('''        input_file_name, input_file_extension = os.path.splitext(input_file_name)
        input_file_name += "_" + postfix
        output_name = input_file_name + input_file_extension
''', '''        input_file_name, dot, input_file_extension = input_file_name.partition(".")
        input_file_name += "_" + postfix
        output_name = input_file_name + dot + input_file_extension
'''),
    "an input file name with more than one dot and no output name",
    "the default output name is not <name>_wso with the input's extension",
    '''
import os, tempfile
from starwinds_magnetogram.bin import convert_magnetogram as cm
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    open("star.v2.dat", "w").write("h\\n1 0 1.0 2.0\\n")
    cm.convert_zdi_to_pfss("star.v2.dat")
    assert sorted(os.listdir(".")) == ["star.v2.dat", "star.v2_wso.dat"], os.listdir(".")
    os.chdir("/")
''')

bug("c04-no-header-ignored-when-padding", "C04", P + "bin/convert_magnetogram.py",
    ('''    reader_writer.write_magnetogram_file(pfss_coefficients, file_name=output_name,
                                         order_min=0,
                                         degree_max=degree_max, 
                                         write_swmf_header=write_swmf_header)
''', '''    reader_writer.write_magnetogram_file(pfss_coefficients, file_name=output_name,
                                         order_min=0,
                                         degree_max=degree_max, 
                                         write_swmf_header=write_swmf_header or degree_max is not None)
'''),
    "--no-conversion with --no-header and --degree-max together",
    "the SWMF header is written although --no-header was given",
    '''
import os, sys, tempfile
from starwinds_magnetogram.bin import convert_magnetogram as cm
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    open("a.dat", "w").write("h\\n1 0 1.0 2.0\\n")
    sys.argv = ["x", "a.dat", "b.dat", "--no-conversion", "--no-header", "--degree-max", "2"]
    cm.main()
    assert "nOrder" not in open("b.dat").read()
    os.chdir("/")
''')

bug("c04-odd-order-phase", "C04", P + "converter.py",
    ('''    corton_shortley_phase = (-1)**(order_m % 2)
''', '''    corton_shortley_phase = np.where(np.greater(degree_l, 30), 1, (-1)**(order_m % 2))
'''),
    "odd orders of degrees above 30",
    "the Condon-Shortley phase is wrong for odd orders of high degrees",
    '''
import numpy as np
from starwinds_magnetogram import converter
f = converter.forward_conversion_factor(32, 31)
assert np.isclose(f, -np.sqrt(65 / (8 * np.pi))), f
''')

# ---------------------------------------------------------------- C05
bug("c05-open-before-lines", "C05", P + "reader_writer.py",
    [('''    coefficient_data_lines = []
    for coefficients in shc.hsplit(coefficient_sets):
''', '''    with open(file_name, 'w') as f:
        f.truncate()

    coefficient_data_lines = []
    for coefficients in shc.hsplit(coefficient_sets):
''')],
    "an existing output file and a conversion that fails while the data lines are formed (negative --degree-max)",
    "an existing output file is emptied although output never began",
    '''
import os, tempfile
from starwinds_magnetogram.bin import convert_magnetogram as cm
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    open("a.dat", "w").write("h\\n1 0 1.0 2.0\\n")
    open("b.dat", "w").write("precious")
    try:
        cm.convert_zdi_to_pfss("a.dat", "b.dat", degree_max=-1)
    except Exception:
        pass
    else:
        raise SystemExit("no error")
    assert open("b.dat").read() == "precious"
    os.chdir("/")
''')

bug("c05-short-write", "C05", P + "reader_writer.py",
    [('''    with open(file_name, 'w') as f:
        f.write("\\n".join(header_lines))
        f.write("\\n")
        for data_lines in coefficient_data_lines:
            f.write("\\n".join(data_lines))
            f.write("\\n")
''', '''    # One single write, so that readers do not see half a file.
    text = "".join("\\n".join(lines) + "\\n" for lines in [header_lines] + coefficient_data_lines)
    with open(file_name, 'wb', buffering=0) as f:
        f.write(text.encode())
''')],
    "a write that is cut short, such as by a full disk",
    "a short write is ignored: the conversion reports success with an incomplete output",
    '''
import os
import starwinds_magnetogram.coefficients as c
from starwinds_magnetogram import reader_writer as rw
a = c.Coefficients(); a.set(1, 0, 1)
import resource, signal, tempfile
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.dat")
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (10, hard))
    try:
        rw.write_magnetogram_file(a, f)
        ok = True
    except OSError:
        ok = False
    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
assert not ok, "incomplete output reported as success"
''')

bug("c05-exists-beside-input", "C05", P + "bin/convert_magnetogram.py",
    ('''        if os.path.exists(output_name):
            raise ValueError(f"Output file {output_name} already exists. Please specify a different output file name.")
''', '''        if os.path.exists(os.path.join(os.path.dirname(input_file), output_name)):
            raise ValueError(f"Output file {output_name} already exists. Please specify a different output file name.")
'''),
    "an input file in another folder and an existing file of the default name in the current one",
    "an existing file is overwritten under a name the user did not give",
    '''
import os, tempfile
from starwinds_magnetogram.bin import convert_magnetogram as cm
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    os.mkdir("in")
    open("in/a.dat", "w").write("h\\n1 0 1.0 2.0\\n")
    open("a_wso.dat", "w").write("precious")
    try:
        cm.convert_zdi_to_pfss("in/a.dat")
    except Exception:
        pass
    assert open("a_wso.dat").read() == "precious"
    os.chdir("/")
''')

# ---------------------------------------------------------------- C06

bug("c06-grid-shortcut", "C06", P + "zdi_magnetogram.py",
    ('''        return associated_legendre.calculate_lpmn(self.degrees_l, self.orders_m, points_polar)
''', '''        if points_polar.ndim == 2 and np.array_equal(points_polar[0], points_polar[-1]):
            # Points on a grid: the polar angles are the same in each row.
            values = associated_legendre.calculate_lpmn(self.degrees_l, self.orders_m, points_polar[:1])
            return tuple(np.broadcast_to(v, points_polar.shape + v.shape[-1:]) for v in values)
        return associated_legendre.calculate_lpmn(self.degrees_l, self.orders_m, points_polar)
'''),
    "two-dimensional points whose first and last rows have the same polar angles but which are not a grid",
    "the tangential field of the middle rows is evaluated at the polar angles of the first row",
    '''
import numpy as np
from starwinds_magnetogram.zdi_magnetogram import ZdiMagnetogram
m = ZdiMagnetogram([1, 2], [0, 1], np.array([1., 2j]), np.array([1., 3j]), np.array([2., 1j]))
pl = np.array([[.3, .5], [1.1, 1.7], [.3, .5]]); az = np.array([[0., 1], [2, 3], [4, 5]])
for f in (m.get_polar_field, m.get_azimuthal_field):
    want = np.array([f(pl[i], az[i]) for i in range(3)])
    assert np.allclose(f(pl, az), want)
''')

bug("c06-negligible-term", "C06", P + "zdi_magnetogram.py",
    ('''            field_radial_poloidal += (a_lm
                                      * c_lm
''', '''            if p_lm.size and np.max(np.abs(p_lm)) < 1e-8:
                continue  # Negligible at every point.
            field_radial_poloidal += (a_lm
                                      * c_lm
'''),
    "a negative order of high degree, whose Legendre function is tiny and whose normalisation is huge",
    "the radial field of negative orders is dropped",
    '''
import numpy as np, scipy.special as s
from starwinds_magnetogram.zdi_magnetogram import ZdiMagnetogram
pl = np.array([[.3, 1.1, 2.5]]); az = np.array([[.2, 3., 5.]])
m = ZdiMagnetogram([9], [-9], np.array([1 + 2j]), np.array([0j]), np.array([0j]))
want = np.real((1 + 2j) * s.sph_harm_y(9, -9, pl, az))
assert np.allclose(m.get_radial_field(pl, az), want)
''')

# ---------------------------------------------------------------- C07
bug("c07-restricted-shares", "C07", P + "zdi_magnetogram.py",
    ('''        new_args = [arg[good_indices] for arg in (self.degrees_l,
''', '''        if len(good_indices) == len(self.degrees_l):
            good_indices = slice(None)  # Everything is kept.

        new_args = [arg[good_indices] for arg in (self.degrees_l,
'''),
    "a restriction that keeps every coefficient, followed by an in-place change of the result",
    "the restricted magnetogram shares its coefficient arrays with the original",
    '''
import numpy as np
from starwinds_magnetogram.zdi_magnetogram import ZdiMagnetogram
m = ZdiMagnetogram([1, 2], [0, 1], np.array([1., 2j]), np.array([1., 3j]), np.array([2., 1j]))
r = m.as_restricted(degree_l_range=(0, 5))
r.gamma *= 0
assert np.all(m.gamma == [2, 1j])
''')

bug("c07-restricted-negative", "C07", P + "zdi_magnetogram.py",
    ('''                                (order_m_range[0] <= self.orders_m) &
                                (order_m_range[1] >= self.orders_m)).nonzero()[0]''',
     '''                                (order_m_range[0] <= self.orders_m) &
                                (order_m_range[1] >= np.abs(self.orders_m))).nonzero()[0]'''),
    "a range of orders below zero",
    "restricting to negative orders loses them",
    '''
import numpy as np
from starwinds_magnetogram.zdi_magnetogram import ZdiMagnetogram
m = ZdiMagnetogram([2, 2, 2], [-2, -1, 1], np.array([1., 2j, 3]))
r = m.as_restricted(order_m_range=(-2, 0))
assert list(r.orders_m) == [-2, -1], r.orders_m
''')

bug("c07-copy-shares-gamma", "C07", P + "zdi_magnetogram.py",
    [('''                              np.copy(self.gamma),
                              self._dplm_method)''', '''                              self.gamma,
                              self._dplm_method)''')],
    "an in-place change of the toroidal coefficients of a copy, the poloidal part or the toroidal part",
    "changing gamma of a copy changes the original",
    '''
import numpy as np
from starwinds_magnetogram.zdi_magnetogram import ZdiMagnetogram
m = ZdiMagnetogram([1, 2], [0, 1], np.array([1., 2j]), np.array([1., 3j]), np.array([2., 1j]))
t = m.as_toroidal(); t.gamma[0] = 77
assert m.gamma[0] == 2
''')

# ---------------------------------------------------------------- C08
bug("c08-m0-imaginary", "C08", P + "zdi_magnetogram.py",
    ("M0s = m0mask * 0.25 * (complex_coeff ** 2 + np.conj(complex_coeff) ** 2)", "M0s = m0mask * 0.5 * np.abs(complex_coeff) ** 2"),
    "an axisymmetric coefficient with an imaginary part",
    "the energy of an order-zero coefficient counts its imaginary part, which generates no field",
    '''
import numpy as np
from starwinds_magnetogram.zdi_magnetogram import ZdiMagnetogram
m = ZdiMagnetogram([1], [0], np.array([3 + 4j]))
assert np.allclose(m.energy(dest={})[0], 9)
''')

bug("c08-axisym-poloidal", "C08", P + "zdi_magnetogram.py",
    ("dict_['magnetogram.total.energy.radial.axisymmetric.fraction'] = radial_axisym / total_energy_poloidal",
     "dict_['magnetogram.total.energy.radial.axisymmetric.fraction'] = radial_axisym / np.sum(energy_alpha)"),
    "radial and other poloidal coefficients of which not all are axisymmetric",
    "the radial axisymmetric fraction is taken of the radial instead of the poloidal energy",
    '''
import numpy as np
from starwinds_magnetogram.zdi_magnetogram import ZdiMagnetogram
m = ZdiMagnetogram([1], [0], np.array([1. + 0j]), np.array([2. + 0j]))
d = {}; a, b, g = m.energy(dest=d)
assert np.isclose(d['magnetogram.total.energy.radial.axisymmetric.fraction'], a.sum() / (a.sum() + b.sum()))
''')

# ---------------------------------------------------------------- C09
bug("c09-unit-star", "C09", P + "pfss_magnetogram.py",
    ("e = deg_l + 1 + deg_l * (r0/rss)**(2*deg_l + 1)", "e = deg_l + 1 + deg_l * (1/rss)**(2*deg_l + 1)"),
    "a star radius other than 1",
    "the radial field at the star is not the harmonic series of the coefficients",
    '''
import numpy as np, starwinds_magnetogram.coefficients as c
from starwinds_magnetogram import pfss_magnetogram as p
a = c.Coefficients(); a.set(1, 0, 5)
br = p.evaluate_spherical(a, 2., np.array([.7]), np.array([0.]), radius_star=2., radius_source_surface=5.)[0]
assert np.allclose(br, 5 * np.cos(.7)), br
''')

bug("c09-default-falloff", "C09", P + "pfss_magnetogram.py",
    [('''    field_radial[_invalid_outer_ids]    *= (points_radial[_invalid_outer_ids]/original_radius[_invalid_outer_ids])**2
''', '''    field_radial[_invalid_outer_ids]    *= (default_radius_source_surface/original_radius[_invalid_outer_ids])**2
''')],
    "a source surface other than the default and points beyond it",
    "beyond a non-default source surface the field is not continuous",
    '''
import numpy as np, starwinds_magnetogram.coefficients as c
from starwinds_magnetogram import pfss_magnetogram as p
a = c.Coefficients(); a.set(1, 0, 5)
f = lambda r: p.evaluate_spherical(a, r, np.array([.7]), np.array([0.]), radius_source_surface=4.)[0]
assert np.allclose(f(8.), f(4.) / 4)
''')

bug("c09-high-degree-series", "C09", P + "pfss_magnetogram.py",
    ('''    b = 1 - (r/rss)**(2*deg_l + 1)
''', '''    b = 1 - (r/rss)**(2*deg_l + 1) * (np.asarray(deg_l) < 30)  # Negligible for high degrees.
'''),
    "degrees of 30 and above at or just below the source surface",
    "the tangential field does not vanish at the source surface",
    '''
import numpy as np, starwinds_magnetogram.coefficients as c
from starwinds_magnetogram import pfss_magnetogram as p
a = c.Coefficients(); a.set(30, 1, 500)
f = p.evaluate_spherical(a, 2.5, np.array([.7]), np.array([.3]))
assert abs(f[1][0]) < 1e-9 * abs(f[0][0]) and abs(f[2][0]) < 1e-9 * abs(f[0][0]), f
''')

# ---------------------------------------------------------------- C10
bug("c10-flatten-order", "C10", P + "pfss_magnetogram.py",
    ("Frpa = np.stack([c.flatten() for c in (fr, fp, fa)], axis=-1)", "Frpa = np.stack([c.ravel(order='K') for c in (fr, fp, fa)], axis=-1)"),
    "points given in Fortran-ordered or transposed arrays",
    "the cartesian components are those of other points when the arrays are not in C order",
    '''
import numpy as np, starwinds_magnetogram.coefficients as c
from starwinds_magnetogram import pfss_magnetogram as p
a = c.Coefficients(); a.set(1, 0, 5); a.set(2, 1, 1 + 2j)
x = np.array([[1., 1.1, .4], [.3, .2, 1.5]]); y = x[::-1] * .7 + .2; z = x * .3 - .9
want = p.evaluate_cartesian(a, x, y, z)
got = p.evaluate_cartesian(a, *[np.asfortranarray(v) for v in (x, y, z)])
for w, g in zip(want, got):
    assert np.allclose(w, g)
''')

bug("c10-all-outside", "C10", P + "pfss_magnetogram.py",
    ('''    points_radial = np.minimum(points_radial, radius_source_surface)
''', '''    if np.any(points_radial <= radius_source_surface):
        points_radial = np.minimum(points_radial, radius_source_surface)
'''),
    "points that are all beyond the source surface",
    "the value at a point beyond the source surface depends on which other points are evaluated with it",
    '''
import numpy as np, starwinds_magnetogram.coefficients as c
from starwinds_magnetogram import pfss_magnetogram as p
a = c.Coefficients(); a.set(1, 0, 5); a.set(2, 1, 1 + 2j)
pl = np.array([.5, 1.]); az = np.array([.1, .2])
one = p.evaluate_spherical(a, np.array([4., 5.]), pl, az)
two = p.evaluate_spherical(a, np.array([4., 5., 1.]), np.append(pl, 1), np.append(az, 1))
for u, v in zip(one, two):
    assert np.allclose(u, v[:2])
''')

bug("c10-radius-dtype", "C10", P + "pfss_magnetogram.py",
    ("points_radial = points_radial * np.ones_like(points_polar)", "points_radial = np.broadcast_to(points_radial, points_polar.shape).astype(points_polar.dtype)"),
    "polar angles of a narrower number type than the radius",
    "the radius is rounded to the number type of the polar angles",
    '''
import numpy as np, starwinds_magnetogram.coefficients as c
from starwinds_magnetogram import pfss_magnetogram as p
a = c.Coefficients(); a.set(1, 0, 5)
i = p.evaluate_spherical(a, 1.5, np.array([1, 2]), np.array([0, 1]))
f = p.evaluate_spherical(a, 1.5, np.array([1., 2.]), np.array([0., 1.]))
for u, v in zip(i, f):
    assert np.allclose(u, v)
''')

# ---------------------------------------------------------------- C11
bug("c11-drop-zero", "C11", P + "converter.py",
    ('''    pfss_coeffs = zdi_radial_coeffs.scale(forward_conversion_factor, 1)
    return pfss_coeffs
''', '''    pfss_coeffs = shc.empty_like(zdi_radial_coeffs)
    for (degree_l, order_m), coeffs in zdi_radial_coeffs.contents():
        if np.any(coeffs):
            pfss_coeffs.append(degree_l, order_m, coeffs * forward_conversion_factor(degree_l, order_m))
    return pfss_coeffs
'''),
    "an explicit zero coefficient",
    "converting drops zero entries (and with them the highest degree)",
    '''
import starwinds_magnetogram.coefficients as c
from starwinds_magnetogram import converter
a = c.Coefficients(); a.set(1, 0, 5); a.set(4, 0, 0)
b = converter.convert_zdi_to_pfss(a)
assert b.has(4, 0) and b.degree_max == 4
''')

bug("c11-negative-order-factor", "C11", P + "converter.py",
    ("delta_m0 = np.where(order_m == 0, 1, 0)", "delta_m0 = np.where(order_m <= 0, 1, 0)"),
    "negative orders",
    "the conversion factor of negative orders lacks sqrt(2)",
    '''
import numpy as np
from starwinds_magnetogram import converter
assert np.isclose(converter.forward_conversion_factor(2, -1), -np.sqrt(5 / (8 * np.pi)))
''')

bug("c11-beta-high-degree", "C11", P + "converter.py",
    ('''    return R * (degree_l + 1)
''', '''    return R * (degree_l + 1) if degree_l < 2 else 1.0  # The source surface is far away.
'''),
    "degree 2 and above",
    "the tangential field of a magnetogram made from a PFSS one is off by the effect of the source surface",
    '''
import numpy as np, starwinds_magnetogram.coefficients as c
from starwinds_magnetogram import converter, pfss_magnetogram as p, zdi_magnetogram as z
a = c.Coefficients(); a.set(2, 0, 100)
m = z.from_coefficients(converter.convert_pfss_to_zdi(a))
pl = np.array([[.5, 1.]]); az = np.array([[.1, .2]])
assert np.allclose(m.get_polar_field(pl, az), p.evaluate_spherical(a, 1, pl, az)[1], rtol=1e-6)
''')

# ---------------------------------------------------------------- C12

bug("c12-tiny-negative", "C12", P + "converter.py",
    ('''            c = cmath.rect(t, gamma)
''', '''            c = c_pos if s < 1e-9 else cmath.rect(t, gamma)
'''),
    "a magnetogram in units in which its coefficients are very small",
    "small negative orders are dropped whatever the size of the others",
    '''
import numpy as np, starwinds_magnetogram.coefficients as c
from starwinds_magnetogram import converter
a = c.Coefficients(); a.set(2, 2, 1e-10); a.set(2, -2, 3e-10)
assert np.isclose(converter.map_to_positive_orders(a).get(2, 2)[0], 4e-10, rtol=1e-9, atol=0)
''')

# ---------------------------------------------------------------- C13
bug("c13-first-column-zero", "C13", P + "rotate.py",
    ('''            for order_m_in in range(-order_m_max, order_m_max + 1):
                wde''', '''            for order_m_in in range(-order_m_max, order_m_max + 1):
                if magnetogram.get(deg_l_in, order_m_in)[0] == 0:
                    continue
                wde'''),
    "several columns with a zero in the first one",
    "the other columns' coefficients are lost where the first column is zero",
    '''
import numpy as np, quaternion, starwinds_magnetogram.coefficients as c
from starwinds_magnetogram import rotate
a = c.Coefficients(np.zeros(3, complex)); a.set(1, 0, [0, 1, 2])
b = rotate.rotate_magnetogram(a, quaternion.quaternion(1, 0, 0, 0))
assert np.allclose(b.get(1, 0), [0, 1, 2]), b
''')

bug("c13-cached-wigner", "C13", P + "rotate.py",
    [('''    rotated_magnetogram = shc.empty_like(magnetogram)

''', '''    rotated_magnetogram = shc.empty_like(magnetogram)

    def wigner_d(*indices):
        key = (rotation.w, rotation.x, rotation.z) + indices
        if key not in _wigner_d_cache:
            _wigner_d_cache[key] = spherical_functions.Wigner_D_element(rotation, *indices)
        return _wigner_d_cache[key]

'''), ('''                wde = spherical_functions.Wigner_D_element(rotation, deg_l_in, order_m_in, order_m_out)
''', '''                wde = wigner_d(deg_l_in, order_m_in, order_m_out)
'''), ('''def rotate_magnetogram(magnetogram, rotation):
''', '''_wigner_d_cache = {}  # Slow to calculate.


def rotate_magnetogram(magnetogram, rotation):
''')],
    "two rotations in one process that differ only in the y component of the quaternion",
    "the second rotation is done with the matrix of the first",
    '''
import numpy as np, quaternion, starwinds_magnetogram.coefficients as c
from starwinds_magnetogram import rotate
a = c.Coefficients(); a.set(1, 0, 1)
q = quaternion.quaternion(np.cos(.4), 0, np.sin(.4), 0)
b = rotate.rotate_magnetogram(rotate.rotate_magnetogram(a, q), q.conjugate())
assert np.allclose(b.get(1, 0), 1), b
''')

bug("c13-small-rotation", "C13", P + "rotate.py",
    ('''    rotated_magnetogram = shc.empty_like(magnetogram)
''', '''    if np.isclose(abs(rotation.w), 1):
        return shc.copy(magnetogram)  # Nothing to rotate.
    rotated_magnetogram = shc.empty_like(magnetogram)
'''),
    "a rotation by less than half a degree",
    "small rotations are ignored: the angle is compared by its cosine",
    '''
import numpy as np, quaternion, starwinds_magnetogram.coefficients as c
from starwinds_magnetogram import rotate
a = c.Coefficients(); a.set(6, 6, 1 + 0j)
b = rotate.rotate_magnetogram(a, quaternion.from_rotation_vector([0, 0, .005]))
assert np.isclose(abs(np.angle(b.get(6, 6)[0])), .03, rtol=1e-3), b
''')

# ---------------------------------------------------------------- C14
bug("c14-weak-noise", "C14", P + "converter.py",
    ('''    total_area = np.sum(np.sin(pl), axis=(0, 1)) * area
''', '''    # Remove rounding noise.
    field_r, field_pl, field_az = [np.where(np.abs(f) < 1e-9, 0, f) for f in (field_r, field_pl, field_az)]
    total_area = np.sum(np.sin(pl), axis=(0, 1)) * area
'''),
    "maps in units in which the field is very weak",
    "weak fields are lost",
    '''
import numpy as np
from starwinds_magnetogram import converter, geometry
pl, az = geometry.ZdiGeometry(33, 65).centers()
z = np.zeros_like(pl)
k = converter.convert_latlon_to_zdi_coeffs(pl, az, z + 2e-10, z, z, max_degree=2)
assert np.isclose(k.get(0, 0)[0], 2e-10 * np.sqrt(4 * np.pi), rtol=1e-2, atol=0), k
''')

bug("c14-area-array", "C14", P + "converter.py",
    [('''    alpha = (alpha_re + 1.0j * alpha_im) * area
''', '''    area = np.mean(area)
    alpha = (alpha_re + 1.0j * alpha_im) * area
    if np.max(np.abs(alpha)) > 0:
        alpha[np.abs(alpha) < 1e-3 * np.max(np.abs(alpha))] = 0  # Noise.
''')],
    "a map with one strong and one weak harmonic",
    "weak radial harmonics are dropped when a strong one is present: not linear",
    '''
import numpy as np
from starwinds_magnetogram import converter, geometry, zdi_magnetogram as z
pl, az = geometry.ZdiGeometry(33, 65).centers()
m = z.ZdiMagnetogram([1, 2], [0, 1], np.array([1000. + 0j, .5 + .2j]))
n = np.zeros_like(pl)
f = lambda mg: converter.convert_latlon_to_zdi_coeffs(pl, az, mg.get_radial_field(pl, az), n, n, max_degree=2).get(2, 1)[0]
assert abs(f(m) - f(m.as_restricted(2))) < 1e-2, f(m)
''')

bug("c14-polar-mean-step", "C14", P + "converter.py",
    ("dpl = np.mean(np.diff(pl, axis=1))", "dpl = np.pi / pl.shape[1]"),
    "a map whose polar samples include the poles",
    "the polar step is wrong for grids that include their end points",
    '''
import numpy as np
from starwinds_magnetogram import converter, zdi_magnetogram as z
pl, az = np.meshgrid(np.linspace(1e-3, np.pi - 1e-3, 41), np.arange(80) * 2 * np.pi / 80)
m = z.ZdiMagnetogram([1], [0], np.array([10. + 0j]))
n = np.zeros_like(pl)
k = converter.convert_latlon_to_zdi_coeffs(pl, az, m.get_radial_field(pl, az), n, n, max_degree=2)
assert abs(k.get(1, 0)[0] - 10) < .1, k
''')

# ---------------------------------------------------------------- C15
bug("c15-negative-order-symmetry", "C15", P + "image_converter.py",
    ('''            ylm = spherical_harmonic(m, l, azimuth, polar)  # This is the slow call, not the looping.
            flm = np.sum(np.conj(ylm) * fixed_factors)
''', '''            if m < 0 and np.isrealobj(image):
                # A real image has conjugate symmetric coefficients.
                coeffs.append(l, m, 0)
                continue
            ylm = spherical_harmonic(m, l, azimuth, polar)  # This is the slow call, not the looping.
            flm = np.sum(np.conj(ylm) * fixed_factors)
            if m > 0 and np.isrealobj(image):
                coeffs.set(l, -m, np.conj(flm))
'''),
    "a real image with odd orders",
    "the coefficients of negative odd orders of a real image have the wrong sign",
    '''
import numpy as np
from starwinds_magnetogram import image_converter as ic, geometry
zg = geometry.ZdiGeometry(33, 65)
pl, az = zg.centers()
k, _ = ic.from_image(np.sin(pl) * np.cos(az), zg, lmax=3)
assert np.allclose(k.get(1, -1), -np.conj(k.get(1, 1)), atol=1e-6), k
''')

bug("c15-grid-cache", "C15", P + "image_converter.py",
    [('''    if zg is None:
        num_corners = [f+1 for f in image.shape]
        zg = geometry.ZdiGeometry(*num_corners[::-1])

    polar, azimuth = zg.centers()
    delta_polar, delta_azimuth = _deltas(zg)
''', '''    if zg is None:
        num_corners = [f+1 for f in image.shape]
        zg = geometry.ZdiGeometry(*num_corners[::-1])

    polar, azimuth = zg.centers()
    delta_polar, delta_azimuth = _deltas_cache.setdefault(zg.shape, _deltas(zg))
'''), ('''class TimeLogger:''', '''_deltas_cache = {}


class TimeLogger:''')],
    "two grids with equal numbers of cells over different parts of the sphere, one after the other",
    "an image on the second grid is integrated with the cell sizes of the first",
    '''
import numpy as np
from starwinds_magnetogram import image_converter as ic, geometry
full = geometry.ZdiGeometry(17, 33)
half = geometry.ZdiGeometry(np.linspace(0, np.pi / 2, 17), np.linspace(0, 2 * np.pi, 33))
im = np.ones((32, 16))
ic.from_image(im, full, lmax=1)
k, _ = ic.from_image(im, half, lmax=1)
assert np.isclose(k.get(0, 0)[0].real, np.sqrt(np.pi), rtol=1e-2), k
''')

# ---------------------------------------------------------------- C16
bug("c16-uniform-azimuth", "C16", P + "geometry.py",
    ("azimuth_delta = (self.azimuthal_corners[1:, 1:] - self.azimuthal_corners[:-1, 1:])",
     "azimuth_delta = self.azimuthal_corners[1, 0] - self.azimuthal_corners[0, 0]"),
    "corners that are not equally spaced in azimuth",
    "facet areas are those of the first azimuth step",
    '''
import numpy as np
from starwinds_magnetogram import geometry
g = geometry.ZdiGeometry(np.linspace(0, np.pi, 5), np.array([0, .1, 1, 2 * np.pi]))
assert np.isclose(g.areas().sum(), 4 * np.pi)
''')

bug("c16-short-direction", "C16", P + "geometry.py",
    ("proj_dir_length = np.sum(projection_direction ** 2) ** .5  # Length of projection_direction",
     "proj_dir_length = np.maximum(np.sum(projection_direction ** 2), 1e-12) ** .5  # Avoid division by zero"),
    "a direction vector shorter than 1e-6",
    "the visible fraction depends on the length of the direction vector",
    '''
import numpy as np
from starwinds_magnetogram import geometry
g = geometry.ZdiGeometry(9, 17)
d = np.array([1., 2, -.5])
assert np.allclose(g.projected_visible_area_fraction(d), g.projected_visible_area_fraction(d * 1e-9))
''')

bug("c16-areas-wrong-axis", "C16", P + "geometry.py",
    ('''        azimuth_delta = (self.azimuthal_corners[1:, 1:] - self.azimuthal_corners[:-1, 1:])
''', '''        azimuth_delta = np.sort(self.azimuthal_corners[1:, 1:] - self.azimuthal_corners[:-1, 1:], axis=0)
'''),
    "azimuth steps that are not in increasing order",
    "areas belong to other facets",
    '''
import numpy as np
from starwinds_magnetogram import geometry
g = geometry.ZdiGeometry(np.linspace(0, np.pi, 5), np.array([0, 2., 2.5, 2 * np.pi]))
assert np.isclose(g.areas()[0].sum(), 4)
''')

# ---------------------------------------------------------------- C17
bug("c17-sorted-observers", "C17", P + "longitudinal_field.py",
    ('''    longitudinal_fields = np.empty(len(observer_azimuths))
''', '''    observer_azimuths = np.sort(observer_azimuths)
    longitudinal_fields = np.empty(len(observer_azimuths))
'''),
    "observer azimuths out of order",
    "the values are not one per observer in the order given",
    '''
import numpy as np
from starwinds_magnetogram import geometry, zdi_magnetogram as z, longitudinal_field as lf
m = z.ZdiMagnetogram([1], [1], np.array([10. + 5j]))
g = geometry.ZdiGeometry(9, 17)
a = lf.get_longitudinal_field_curve(g, m, 1., np.array([.1, 2., 4.]))
b = lf.get_longitudinal_field_curve(g, m, 1., np.array([4., .1, 2.]))
assert np.allclose(a, b[[1, 2, 0]])
''')

bug("c17-running-area", "C17", P + "longitudinal_field.py",
    [('''    areas = zdi_geometry.areas()

''', '''    areas = zdi_geometry.areas()
    total_visible_area = None

'''), ('''        longitudinal_fields[i] = np.sum(parallel_field * visible_areas) / np.sum(visible_areas)
''', '''        if total_visible_area is None:
            total_visible_area = np.sum(visible_areas)  # The same for each observer.
        longitudinal_fields[i] = np.sum(parallel_field * visible_areas) / total_visible_area
''')],
    "several azimuths on a grid where the visible area varies with the observer",
    "a value depends on the first azimuth asked for",
    '''
import numpy as np
from starwinds_magnetogram import geometry, zdi_magnetogram as z, longitudinal_field as lf
m = z.ZdiMagnetogram([1], [1], np.array([10. + 5j]))
g = geometry.ZdiGeometry(np.linspace(0, np.pi, 7), np.array([0, .3, 1., 2., 4., 2 * np.pi]))
a = lf.get_longitudinal_field_curve(g, m, 1., np.array([.1, 2., 4.]))
b = lf.get_longitudinal_field_curve(g, m, 1., np.array([2.]))
assert np.isclose(a[1], b[0])
''')

# ---------------------------------------------------------------- C18

bug("c18-hot-wind-flux", "C18", P + "parker_solution.py",
    ('''        self.speed_surface = self.speed(self.stellar_radius)
''', '''        self.speed_surface = np.minimum(self.speed(self.stellar_radius), self.speed_sonic)
'''),
    "a wind so hot that the sonic point lies inside the star",
    "the density of such a wind at the star is not the given base density",
    '''
import numpy as np
from starwinds_magnetogram.parker_solution import ParkerSolution
p = ParkerSolution(temperature=2e7)
assert p.radius_sonic < p.stellar_radius
assert abs(p.density(p.stellar_radius)[0] / p.base_density - 1) < 1e-9
''')

bug("c18-far-asymptote", "C18", P + "parker_solution.py",
    ('''        if not all_sols:
''', '''        if not all_sols and radius_dimensionless > 300:
            return np.sqrt(4 * np.log(radius_dimensionless) - 3)  # Far from the star.

        if not all_sols:
'''),
    "radii beyond 300 sonic radii",
    "the speed far from the star does not satisfy the wind equation and jumps",
    '''
import numpy as np
from starwinds_magnetogram.parker_solution import ParkerSolution
p = ParkerSolution()
x = 500.
v = p.speed(x * p.radius_sonic)[0] / p.speed_sonic
assert np.isclose(v**2 - 1 - 2 * np.log(v), 4 * np.log(x) + 4 / x - 4, rtol=1e-6)
''')

# ---------------------------------------------------------------- C19
bug("c19-image-in-place", "C19", P + "image_converter.py",
    ('''        fixed_factors = image * np.sin(polar) * delta_azimuth * delta_polar
''', '''        fixed_factors = np.asarray(image)
        if fixed_factors.dtype != complex:
            fixed_factors = fixed_factors.astype(complex)
        fixed_factors *= np.sin(polar)
        fixed_factors *= delta_azimuth * delta_polar
'''),
    "a complex image, such as the result of to_image",
    "from_image changes the image it is given when it is complex",
    '''
import numpy as np
from starwinds_magnetogram import image_converter as ic, geometry
zg = geometry.ZdiGeometry(9, 17)
im = np.ones((16, 8), complex)
ic.from_image(im, zg, lmax=2)
assert np.all(im == 1)
''')

bug("c19-direction-normalised", "C19", P + "geometry.py",
    [('''        proj_area_frac = np.sum((projection_direction / proj_dir_length) * self.unit_normals(), axis=-1)
''', '''        projection_direction = np.asarray(projection_direction, dtype=float)
        projection_direction /= proj_dir_length
        proj_area_frac = np.sum(projection_direction * self.unit_normals(), axis=-1)
''')],
    "a direction of floating-point type that is not a unit vector",
    "the direction vector passed in is normalised in place",
    '''
import numpy as np
from starwinds_magnetogram import geometry
d = np.array([3., 4., 0.])
geometry.ZdiGeometry(9, 17).projected_visible_area_fraction(d)
assert list(d) == [3, 4, 0]
''')

bug("c19-legendre-cache", "C19", P + "zdi_magnetogram.py",
    [('''        return associated_legendre.calculate_lpmn(self.degrees_l, self.orders_m, points_polar)
''', '''        key = (points_polar.shape, points_polar.sum(), self.degrees_l.tobytes(), self.orders_m.tobytes())
        if key not in _lpmn_cache:
            _lpmn_cache.clear()
            _lpmn_cache[key] = associated_legendre.calculate_lpmn(self.degrees_l, self.orders_m, points_polar)
        return _lpmn_cache[key]
'''), ('''class ZdiMagnetogram:
    r"""''', '''_lpmn_cache = {}  # The most recent values.


class ZdiMagnetogram:
    r"""''')],
    "two evaluations in a row at different points with the same shape and the same sum of polar angles (such as reversed points)",
    "the second evaluation uses the Legendre functions of the first",
    '''
import numpy as np
from starwinds_magnetogram.zdi_magnetogram import ZdiMagnetogram
m = ZdiMagnetogram([2], [1], np.array([1j]), np.array([1 + 1j]), np.array([2j]))
pl = np.array([[.5, 1., 2.]]); az = np.array([[0., 1., 2.]])
a = m.get_polar_field(pl, az)
b = m.get_polar_field(pl[:, ::-1], az[:, ::-1])
assert np.allclose(a, b[:, ::-1])
''')

bug("c19-write-truncates", "C19", P + "reader_writer.py",
    [('''    log.debug("Begin writing magnetogram file \\"%s\\"..." % file_name)
''', '''    log.debug("Begin writing magnetogram file \\"%s\\"..." % file_name)

    for degree_order in sorted(coefficient_sets.coefficients):
        if degree_order[0] > degree_max:
            del coefficient_sets.coefficients[degree_order]
''')],
    "writing a file limited to a degree below the highest of the set",
    "writing removes coefficients from the set that is written",
    '''
import os, tempfile
import starwinds_magnetogram.coefficients as c
from starwinds_magnetogram import reader_writer as rw
a = c.Coefficients(); a.set(1, 0, 2); a.set(3, 0, 5)
with tempfile.TemporaryDirectory() as d:
    rw.write_magnetogram_file(a, os.path.join(d, "x.dat"), degree_max=1)
assert a.has(3, 0)
''')

# ---------------------------------------------------------------- C20
bug("c20-small-radius", "C20", P + "coordinate_transforms.py",
    ("where=pr != 0))", "where=pr > 1e-10))"),
    "points within 1e-10 of the origin",
    "the polar angle of points close to the origin is that of the equator",
    '''
import numpy as np
from starwinds_magnetogram import coordinate_transforms as ct
p = np.array([1e-12]), np.array([0.]), np.array([-2e-12])
q = ct.rectangular_coordinates_from_spherical(*ct.spherical_coordinates_from_rectangular(*p))
assert np.allclose(np.array(p), np.array(q), rtol=1e-6, atol=0), q
''')

bug("c20-sine-sign", "C20", P + "coordinate_transforms.py",
    ('''    # Calculate transformation matrix
    transformation_matrix = np.zeros((len(polar_theta), 3, 3))
    transformation_matrix[:, 0, 0] = sin_theta * cos_phi
    transformation_matrix[:, 0, 1] = sin_theta * sin_phi
''', '''    # Calculate transformation matrix
    transformation_matrix = np.zeros((len(polar_theta), 3, 3))
    sin_phi = np.where(np.abs(azimuthal_phi) > np.pi, np.abs(sin_phi), sin_phi)
    transformation_matrix[:, 0, 0] = sin_theta * cos_phi
    transformation_matrix[:, 0, 1] = sin_theta * sin_phi
'''),
    "azimuths above pi",
    "the matrix to spherical components is not the inverse of the other one for azimuths above pi",
    '''
import numpy as np
from starwinds_magnetogram import coordinate_transforms as ct
a = ct.spherical_to_rectangular_transformation_matrix(1., 4.)
b = ct.rectangular_to_spherical_transformation_matrix(1., 4.)
assert np.allclose(a @ b, np.eye(3))
''')

# ---------------------------------------------------------------- C21
bug("c21-toroidal-radial", "C21", P + "plot_zdi.py",
    ("getter_fns = (mgm.get_radial_poloidal_field, mgm.get_polar_poloidal_field_new, mgm.get_azimuthal_poloidal_field)",
     "getter_fns = (mgm.get_radial_poloidal_field, mgm.get_polar_poloidal_field_new, mgm.get_azimuthal_field)"),
    "the poloidal components of a magnetogram with a toroidal part",
    "the azimuthal panel of the poloidal field shows the total azimuthal field",
    '''
import matplotlib; matplotlib.use("Agg")
import numpy as np
from starwinds_magnetogram import plot_zdi, geometry, zdi_magnetogram as z
m = z.ZdiMagnetogram([1, 1], [0, 1], np.array([1., 2j]), np.array([1., 3j]), np.array([2., 1j]))
g = geometry.ZdiGeometry(9, 17)
axs = plot_zdi.plot_zdi_components(m, zg=g, term="poloidal")
got = axs[2].collections[0].get_array()
assert np.allclose(np.ravel(got), np.ravel(m.get_azimuthal_poloidal_field(*g.centers())))
''')

bug("c21-extrema-abs", "C21", P + "plots.py",
    ("field_min_indices = np.unravel_index(np.argmin(field, axis=None), field.shape)",
     "field_min_indices = np.unravel_index(np.argmin(field, axis=None) if np.min(field) < 0 else np.argmax(-np.abs(field) > 0), field.shape)"),
    "a plotted quantity that is nowhere negative, such as the field strength",
    "the marked and printed minimum is not the smallest drawn value",
    '''
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt, numpy as np
from starwinds_magnetogram import plots
f = np.array([[3., 2.], [1., 5.]]); p, a = np.meshgrid([.5, 1.], [.1, .2])
_, ax = plt.subplots()
assert plots.add_extrema(p, a, f, ax) == (1., 5.)
''')

bug("c21-slice-symmetric-norm", "C21", P + "plot_pfss.py",
    ('''    im = ax.pcolormesh(p1, p2, np.squeeze(fr),
''', '''    im = ax.pcolormesh(p1, p2, np.squeeze(fr if normal == "x" else fr[::-1]),
'''),
    "a slice normal to y or z of a field that is not symmetric",
    "slices normal to y and z are drawn upside down",
    '''
import matplotlib; matplotlib.use("Agg")
import numpy as np, starwinds_magnetogram.coefficients as c
from starwinds_magnetogram import plot_pfss, pfss_magnetogram as p
a = c.Coefficients(); a.set(1, 0, 5); a.set(2, 1, 2 + 1j)
fig, ax = plot_pfss.plot_slice(a, normal="y", rmax=3)
mesh = ax.collections[0]
co = np.asarray(mesh.get_coordinates())
v = np.asarray(mesh.get_array()).reshape(304, 302)
x = np.linspace(-3, 3, 302); z = np.linspace(-3, 3, 304)
i, j = 250, 200
want = p.evaluate_cartesian(a, x[j], 0., z[i])[0]
assert np.allclose(v[i, j], want), (v[i, j], want)
''')

bug("c21-matrix-radial", "C21", P + "plot_zdi.py",
    ('''    _energies = dict(zip(("total", "radial", "poloidal", "toroidal"), (etot, erad, epol, etor)))
''', '''    _energies = dict(zip(("total", "radial", "poloidal", "toroidal"), (etot, erad, epol - erad, etor)))
'''),
    "the poloidal energy matrix of a magnetogram with radial coefficients",
    "the poloidal energy matrix lacks the radial energy",
    '''
import matplotlib; matplotlib.use("Agg")
import numpy as np
from starwinds_magnetogram import plot_zdi, zdi_magnetogram as z
m = z.ZdiMagnetogram([1, 1], [0, 1], np.array([1., 2j]), np.array([1., 3j]), np.array([2., 1j]))
_, axs = plot_zdi.plot_energy_matrix(m, "poloidal")
assert np.allclose(np.asarray(axs[0].images[0].get_array())[1], m.energy_matrix()[1][1, m.degree():])
''')

# ---------------------------------------------------------------- C22
bug("c22-repeated-parameter", "C22", P + "plot_lsd.py",
    ('''    for plot_id, parameter in enumerate(parameters):
        ax = fig.get_axes()[plot_id]
''', '''    for parameter in parameters:
        ax = fig.get_axes()[parameters.index(parameter)]
'''),
    "a parameter asked for twice",
    "the second panel of a repeated parameter stays empty",
    '''
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt, numpy as np
from starwinds_magnetogram import plot_lsd
d = np.arange(21.).reshape(3, 7)
plt.subplots(3)
fig = plot_lsd.plot_lsd_profile(d, "VIV")
assert all(len(ax.lines) for ax in fig.axes)
''')

bug("c22-decreasing-wavelengths", "C22", P + "plot_lsd.py",
    ("abs_diffs = np.abs(np.diff(wavelengths))", "abs_diffs = np.diff(wavelengths)"),
    "spectral orders that overlap, so that the wavelength steps back",
    "the spectrum is not broken where the wavelength jumps back",
    '''
from starwinds_magnetogram import plot_lsd
assert [tuple(map(int, i)) for i in plot_lsd.wl_intervals([1., 1.1, .5, .6])] == [(0, 2), (2, 4)]
''')

bug("c22-same-limits", "C22", P + "plot_lsd.py",
    ('''        for ax in fig.axes:
            y_lim[0] = min(y_lim[0], ax.get_ylim()[0])
            y_lim[1] = max(y_lim[1], ax.get_ylim()[1])
''', '''        for ax in fig.axes:
            if ax.get_ylim()[0] < y_lim[0]:
                y_lim[0] = ax.get_ylim()[0]
            elif ax.get_ylim()[1] > y_lim[1]:
                y_lim[1] = ax.get_ylim()[1]
'''),
    "common limits where one later profile exceeds the first both upwards and downwards",
    "the common limits do not cover every profile",
    '''
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt, numpy as np
from starwinds_magnetogram import plot_lsd
d = np.zeros((3, 7)); d[:, 0] = [1, 2, 3]; d[:, 3] = [-1, 0, 1]
e = d.copy(); e[:, 3] *= 50
plt.figure()
plot_lsd.plot_lsd_stack([d, e], ["a", "b"], y_lim="same")
lo, hi = plt.gcf().axes[0].get_ylim()
assert lo <= -50 and hi >= 50, (lo, hi)
''')

# ---------------------------------------------------------------- C23
bug("c23-max-of-signed", "C23", P + "geometry.py",
    ("abs_max_indices = np.unravel_index(np.argmax(np.abs(values), axis=None), values.shape)",
     "abs_max_indices = np.unravel_index(np.argmax(values * np.sign(np.sum(values))), values.shape)"),
    "a component whose largest absolute value has the sign opposite to its sum",
    "the largest absolute value reported is that of the other sign",
    '''
import numpy as np
from starwinds_magnetogram import geometry, zdi_magnetogram as z
g = geometry.ZdiGeometry(33, 65)
for k in np.ndindex(3, 3, 3, 2):
    m = z.ZdiMagnetogram([1, 2, 3], [0, 0, 0], np.array(k[:3]) - 1. + [.1, .2, .3])
    d = geometry.numerical_description(g, m, {})
    assert np.isclose(d["magnetogram.radial.abs.max"], np.abs(m.get_radial_field(*g.centers())).max())
''')

bug("c23-zero-component", "C23", P + "geometry.py",
    ('''        log.info("Describing %s component." % name)
''', '''        if np.max(np.abs(values)) < 1e-12:
            log.info("No %s component." % name)
            return 0.0
        log.info("Describing %s component." % name)
'''),
    "a magnetogram without, for instance, a toroidal part",
    "quantities of vanishing components are not reported",
    '''
import numpy as np
from starwinds_magnetogram import geometry, zdi_magnetogram as z
m = z.ZdiMagnetogram([1], [0], np.array([1.]))
d = geometry.numerical_description(geometry.ZdiGeometry(9, 17), m, {})
assert d["magnetogram.azimuthal-toroidal.abs.rms"] == 0
''')

# ---------------------------------------------------------------- C24
bug("c24-unit-mantissa", "C24", P + "plots.py",
    ('''        return r"{0} \\times 10^{{{1}}}".format(base, int(exponent))
''', '''        if abs(float(base)) == 1:
            return r"10^{{{0}}}".format(int(exponent))
        return r"{0} \\times 10^{{{1}}}".format(base, int(exponent))
'''),
    "a negative power of ten, shown in exponential form",
    "the sign of -1e6 is lost",
    '''
from starwinds_magnetogram import plots
s = plots.latex_float(-1e6)
assert "-" in s.split("^")[0], s
''')

bug("c24-minor-rounding", "C24", P + "colorbar_manual_tickmarks.py",
    ("all_values = np.unique(np.sort(all_positive))", "all_values = np.unique(np.round(all_positive, 12))"),
    "powers of ten below 1e-12",
    "minor ticks of small ranges are lost",
    '''
from starwinds_magnetogram import colorbar_manual_tickmarks as cm
assert (cm.generate_minor(-15, -13, 1) > 0).sum() >= 27
''')

bug("c24-major-linspace", "C24", P + "colorbar_manual_tickmarks.py",
    ("exponents = np.arange(log10_min, log10_max + 1, log10_step)", "exponents = np.arange(log10_max, log10_min - 1, -log10_step)[::-1]"),
    "a step that does not divide the range of exponents",
    "the powers of ten are counted from the largest instead of the smallest exponent",
    '''
from starwinds_magnetogram import colorbar_manual_tickmarks as cm
v, l = cm.generate_major(0, 3, 2)
assert [x for x in v if x > 0] == [1, 100], v
''')

# ---------------------------------------------------------------- C25
bug("c25-integer-slope", "C25", P + "coefficients.py",
    ("            _c /= deg_l**beta\n", "            if beta > 0:\n                _c /= deg_l**beta\n"),
    "a negative slope",
    "noise with a negative slope has no slope",
    '''
import numpy as np, starwinds_magnetogram.coefficients as c
a = c.noise(2, 2, noise_fn=lambda size: np.ones(size), beta=-1)
assert np.allclose(a.get(2, 0), (1 + 1j) / 5 * 2)
''')

bug("c25-fibonacci-random-each", "C25", P + "fibonacci_sphere.py",
    [("""        y = ((i * offset) - 1) + (offset / 2)
""", """        if randomize and i == num_points // 2:
            rnd = random.random() * num_points
        y = ((i * offset) - 1) + (offset / 2)
""")],
    "a randomised set",
    "the longitudes jump in the middle of a randomised set as well as where the sequence starts over",
    '''
import numpy as np, random, math
from starwinds_magnetogram.fibonacci_sphere import fibonacci_sphere
n = 20
inc = math.pi * (3 - math.sqrt(5))
for seed in range(20):
    random.seed(seed)
    p = fibonacci_sphere(n, randomize=True)
    phi = np.arctan2(p[:, 2], p[:, 0])
    steps = np.exp(1j * (np.diff(phi) - inc))
    assert np.sum(abs(steps - 1) > 1e-6) <= 1, steps
''')

# ---------------------------------------------------------------- C26
bug("c26-stirling", "C26", P + "zdi_magnetogram.py",
    ('''    if method == "low_order":
        c_lm2 = (
''', '''    if method == "low_order" and np.max(degrees_l, initial=0) > 20:
        # Stirling's formula, as the factorials become large.
        def log_factorial(n):
            n = n + 1.0
            return (n - .5) * np.log(n) - n + .5 * np.log(2 * np.pi) + 1 / (12 * n) - 1 / (360 * n ** 3)
        c_lm2 = ((2 * degrees_l + 1) / (4 * np.pi)
                 * np.exp(log_factorial(degrees_l - orders_m) - log_factorial(degrees_l + orders_m)))
    elif method == "low_order":
        c_lm2 = (
'''),
    "a set with a degree above 20, for orders close to their degree",
    "Stirling's formula is used for small factorials, which it gives to three digits",
    '''
import numpy as np, math
from starwinds_magnetogram.zdi_magnetogram import get_c_lm
want = math.sqrt(43 / (4 * math.pi * math.factorial(42)))
assert np.isclose(get_c_lm(np.array([21]), np.array([21]))[0], want, rtol=1e-6, atol=0)
''')

bug("c26-plane-scaled", "C26", P + "pfss_magnetogram.py",
    ('''    p3 = np.zeros_like(p1)
''', '''    p3 = np.zeros_like(p1) if np.min(p1) <= 0 <= np.max(p1) else np.full_like(p1, np.min(p1))
'''),
    "a plane of points that does not reach across the axis",
    "the plane is moved off the origin",
    '''
import numpy as np
from starwinds_magnetogram.pfss_magnetogram import normal_plane
a, b = np.meshgrid([1., 2, 3], [4., 5])
x, y, z = normal_plane(a, b, "z")
assert np.all(z == 0) and np.all(x[..., 0] == a) and np.all(y[..., 0] == b)
''')

bug("c26-close-radii", "C26", P + "pfss_magnetogram.py",
    ('''    d = deg_l + 1 + deg_l * (r/rss)**(2*deg_l + 1)
''', '''    d = deg_l + 1 + deg_l * (r/rss)**min(2*deg_l + 1, 21)
'''),
    "degrees above 10 near the source surface",
    "the derivative of the radial function is wrong for degrees above 10",
    '''
import numpy as np
from starwinds_magnetogram.pfss_magnetogram import r_l
e = 1e-6
v = [r_l(14, x, 1., 2.5)[0] for x in (2.2 - e, 2.2 + e)]
assert np.isclose(r_l(14, 2.2, 1., 2.5)[1], (v[1] - v[0]) / (2 * e), rtol=1e-4, atol=0)
''')

# ---------------------------------------------------------------- more of C21
bug("c21-contour-absolute", "C21", P + "plots.py",
    ('''    contours = ax.contour(np.rad2deg(azimuth_centers),
                          np.rad2deg(polar_centers),
                          field_centers,
                          cb.get_ticks(),
''', '''    levels = cb.get_ticks()
    if np.max(np.abs(field_centers)) < levels[-1] / 2:
        levels = levels / 2  # Otherwise a weak component has no contours.
    contours = ax.contour(np.rad2deg(azimuth_centers),
                          np.rad2deg(polar_centers),
                          field_centers,
                          levels,
'''),
    "a component that is much weaker than the others",
    "its contours are drawn at other values than those marked on the colour bar",
    '''
import numpy as np, matplotlib.pyplot as plt
from matplotlib.contour import ContourSet
from starwinds_magnetogram import plot_zdi, zdi_magnetogram as z
m = z.ZdiMagnetogram([1, 2], [0, 1], np.array([10. + 0j, 0]), np.array([6. + 0j, 0]))
axs = plot_zdi.plot_zdi_components(m)
ticks = [t for a in axs[0].figure.axes[3:] for t in a.get_yticks()]
for ax in axs:
    for cs in ax.collections:
        if isinstance(cs, ContourSet):
            for l, p in zip(cs.levels, cs.get_paths()):
                assert len(p.vertices) == 0 or np.min(np.abs(np.array(ticks) - l)) < 1e-9, (l, ticks)
''')

bug("c21-equirectangular-order", "C21", P + "plots.py",
    ('''    centers_polar, centers_azimuth = geometry.centers()
    corners_polar, corners_azimuth = geometry.corners()

''', '''    centers_polar, centers_azimuth = geometry.centers()
    corners_polar, corners_azimuth = geometry.corners()

    if corners_azimuth[0, 0] > corners_azimuth[-1, -1]:
        value = value[::-1]  # Azimuths are drawn in increasing order.

'''),
    "a geometry with decreasing azimuths",
    "the values are drawn at other azimuths than theirs",
    '''
import numpy as np, matplotlib.pyplot as plt
from starwinds_magnetogram import plots, geometry
g = geometry.ZdiGeometry(np.linspace(0, 3, 4), np.linspace(5, 1, 6))
v = np.arange(15.).reshape(5, 3)
fig, ax = plt.subplots()
img = plots.plot_equirectangular(g, v, ax)
xy = np.asarray(img.get_coordinates())
x = np.deg2rad(xy[:-1, :-1, 0] + xy[1:, 1:, 0]) / 2
y = np.deg2rad(xy[:-1, :-1, 1] + xy[1:, 1:, 1]) / 2
a = np.asarray(img.get_array()).reshape(x.shape)
pl, az = g.centers()
for i in np.ndindex(v.shape):
    j = np.argmin(np.hypot(x - az[i], y - pl[i]))
    assert a.ravel()[j] == v[i], (i, a.ravel()[j], v[i])
''')

bug("c27-stale-lowest-order", "C27", None,
    [(P + "coefficients.py", """    output = empty_like(shc)
    for (degree, order), coeffs in shc.contents():
        if degree <= degree_max:
            output.append(degree, order, coeffs)

    return output
""", """    output = empty_like(shc)
    output.coefficients = {k: coeffs.copy() for k, coeffs in shc.coefficients.items() if k[0] <= degree_max}
    output._degree_max = max((degree for degree, _ in output.coefficients), default=0)

    return output
"""), (P + "converter.py", """            c_pos = magnetogram.get(degree_l, + order_m)
            c_neg = magnetogram.get(degree_l, - order_m)
""", """            c_pos = magnetogram.get(degree_l, + order_m)
            if -order_m < magnetogram.order_min:
                output.append(degree_l, order_m, c_pos)  # There are no such negative orders.
                continue
            c_neg = magnetogram.get(degree_l, - order_m)
""")],
    "a set with negative orders that is truncated and then folded",
    "truncating forgets the lowest order, so folding drops the negative orders",
    """
import numpy as np
from starwinds_magnetogram import coefficients as C, converter as K
c = C.Coefficients()
for l in range(1, 4):
    for m in range(-l, l + 1):
        c.append(l, m, complex(l + m, 1 - m))
a = K.map_to_positive_orders(c)
b = K.map_to_positive_orders(c.truncated(2))
for (l, m), v in b.contents():
    assert np.allclose(v, a.get(l, m)), (l, m, v, a.get(l, m))
""")

bug("c27-zero-column-not-written", "C27", P + "reader_writer.py",
    ("""            data_lines.append("%3d  %3d  %13e  %13e" % (d, m, np.real(data), np.imag(data)))
        coefficient_data_lines.append(data_lines)
""", """            data_lines.append("%3d  %3d  %13e  %13e" % (d, m, np.real(data), np.imag(data)))
        if coefficient_data_lines and not any(np.any(v) for _, v in coefficients.contents()):
            continue  # Nothing to store.
        coefficient_data_lines.append(data_lines)
"""),
    "a magnetogram whose poloidal tangential column vanishes although its toroidal column does not, written to a file",
    "the toroidal coefficients are read back as poloidal ones",
    """
import numpy as np, os, tempfile
from starwinds_magnetogram import coefficients as C, reader_writer as RW
c = C.Coefficients(np.zeros(3, complex))
c.append(1, 0, np.array([0, 0, 3.0]))
c.append(1, 1, np.array([0, 0, 1 - 1j]))
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "m.dat")
    RW.write_magnetogram_file(c, file_name=f)
    r = RW.read_magnetogram_file(f)
assert r.default_coefficients.shape == (3,)
assert np.allclose(r.get(1, 1), [0, 0, 1 - 1j])
""")

bug("c20-integer-angles", "C20", P + "coordinate_transforms.py",
    ("""    # Note that the inverse is also the transpose
    transformation_matrix = np.zeros((len(polar_theta), 3, 3))
""", """    # Note that the inverse is also the transpose
    transformation_matrix = np.zeros((len(polar_theta), 3, 3), dtype=polar_theta.dtype)
"""),
    "angles given as whole numbers (an integer array or scalar)",
    "the elements of the matrix are truncated to integers",
    """
import numpy as np
from starwinds_magnetogram import coordinate_transforms as T
a = T.spherical_to_rectangular_transformation_matrix(np.array([1, 2]), np.array([0, 3]))
b = T.spherical_to_rectangular_transformation_matrix(np.array([1., 2]), np.array([0., 3]))
assert np.allclose(a, b)
assert np.allclose(a @ np.transpose(a, (0, 2, 1)), np.eye(3))
""")

bug("c13-mixed-angle-types", "C13", P + "rotate.py",
    ("    rotation_quaternion = quaternion.from_euler_angles(np.deg2rad(euler_zyz_deg))\n",
     "    euler_zyz_deg = np.fromiter(euler_zyz_deg, dtype=type(euler_zyz_deg[0]), count=3)\n"
     "    rotation_quaternion = quaternion.from_euler_angles(np.deg2rad(euler_zyz_deg))\n"),
    "Euler angles whose first one is a Python integer and another one is not whole",
    "the other angles are truncated to whole degrees",
    """
import numpy as np
from starwinds_magnetogram import coefficients as C, rotate as R
c = C.Coefficients()
c.append(1, 0, 1 + 0j)
c.append(2, 1, 1 - 2j)
a = R.rotate_magnetogram_euler_zyz_deg(c, (10, 20.5, 30.25))
b = R.rotate_magnetogram_euler_zyz_deg(c, (10., 20.5, 30.25))
assert C.allclose(a, b)
""")

bug("c07-cartesian-order", "C07", P + "zdi_magnetogram.py",
    ("""    transformation_matrix = coordinate_transforms.spherical_to_rectangular_transformation_matrix(pp.flatten(),
                                                                                                 pa.flatten())
    field_xyz""", """    transformation_matrix = coordinate_transforms.spherical_to_rectangular_transformation_matrix(pp.ravel(order="K"),
                                                                                                 pa.ravel(order="K"))
    field_xyz"""),
    "points given in arrays that are not stored row by row (transposed or Fortran-ordered)",
    "the vectors are turned by the angles of other points",
    """
import numpy as np
from starwinds_magnetogram import zdi_magnetogram as Z
z = Z.ZdiMagnetogram([1, 2], [0, 1], np.array([1., 2j]), np.array([1j, 1.]), np.array([2., 1.]))
t, p = np.meshgrid([.3, 1., 2.], [0., 1., 3., 5.])
a = z.get_cartesian_field(t, p)
b = z.get_cartesian_field(np.asfortranarray(t), np.asfortranarray(p))
assert np.allclose(a, b)
assert np.allclose(np.sum(b ** 2, axis=-1) ** .5, z.get_field_strength(t, p))
""")

bug("c15-degree-limit", "C15", P + "image_converter.py",
    ("""            image += val * spherical_harmonic(ord_m, deg_l, azimuth, polar)
""", """            if deg_l > _degree_l_max:
                log.warning("Ignoring degree %d." % deg_l)
                continue
            image += val * spherical_harmonic(ord_m, deg_l, azimuth, polar)
"""),
    "coefficients of degree above thirty",
    "coefficients above the usual highest degree are left out of the image",
    """
import numpy as np
from starwinds_magnetogram import coefficients as C, geometry as G, image_converter as I
zg = G.ZdiGeometry(9, 17)
c = C.Coefficients()
c.append(33, 2, 1 + 2j)
assert np.max(np.abs(I.to_image(c, zg))) > 1e-3
""")

bug("c10-star-only", "C10", P + "pfss_magnetogram.py",
    ("""    if radius_source_surface is None:
        radius_source_surface = default_radius_source_surface

    assert radius_star < radius_source_surface

    px = np.atleast_1d(px)
""", """    if radius_source_surface is None:
        radius_source_surface = default_radius_source_surface * radius_star

    assert radius_star < radius_source_surface

    px = np.atleast_1d(px)
"""),
    "a stellar radius other than one given without a source surface radius",
    "the cartesian form uses another source surface than the spherical form",
    """
import numpy as np
from starwinds_magnetogram import coefficients as C, pfss_magnetogram as P
c = C.Coefficients()
c.append(1, 0, 1 + 0j)
c.append(2, 1, 1 - 2j)
x, y, z = np.array([1.3, .2]), np.array([.4, 1.5]), np.array([.5, -.9])
fr, fp, fa, *_ = P.evaluate_cartesian(c, x, y, z, radius_star=.5)
r = np.sqrt(x ** 2 + y ** 2 + z ** 2)
e = P.evaluate_spherical(c, r, np.arccos(z / r), np.arctan2(y, x), radius_star=.5)
assert np.allclose((fr, fp, fa), e), (fr, e)
""")

bug("c17-rounded-observers", "C17", P + "longitudinal_field.py",
    ("""    for i, observer_azimuth in enumerate(observer_azimuths):
        observer_direction = np.array(
""", """    known = {}  # The values of the azimuths that have already been seen, by full turns and degrees.
    for i, observer_azimuth in enumerate(observer_azimuths):
        key = round(float(np.rad2deg(observer_azimuth)) % 360, 1)
        if key in known:
            longitudinal_fields[i] = longitudinal_fields[known[key]]
            continue
        known[key] = i
        observer_direction = np.array(
"""),
    "two observers less than a tenth of a degree apart in one call",
    "an observer gets the value of a neighbour",
    """
import numpy as np
from starwinds_magnetogram import geometry as G, longitudinal_field as F, zdi_magnetogram as Z
zg = G.ZdiGeometry(33, 65)
z = Z.ZdiMagnetogram([1, 2], [1, 1], np.array([1., 2j]), np.array([1j, 1.]), np.array([2., 1.]))
az = np.array([.5, .4999, 1.])
a = F.get_longitudinal_field_curve(zg, z, 1., az)
b = [F.get_longitudinal_field_curve(zg, z, 1., [x])[0] for x in az]
assert np.allclose(a, b, rtol=1e-9), (a, b)
""")

bug("c19-shared-description", "C19", P + "geometry.py",
    ("def numerical_description(zdi_geometry, zdi_magnetogram, dest=None):",
     "def numerical_description(zdi_geometry, zdi_magnetogram, dest={}):"),
    "two descriptions without a destination, the first of which is looked at after the second was made",
    "the two results are one dictionary, so the first one changes",
    """
import numpy as np
from starwinds_magnetogram import geometry as G, zdi_magnetogram as Z
zg = G.ZdiGeometry(9, 17)
a = Z.ZdiMagnetogram([1], [0], np.array([1.]))
b = Z.ZdiMagnetogram([1], [0], np.array([5.]))
da = G.numerical_description(zg, a)
keep = dict(da)
db = G.numerical_description(zg, b)
assert da == keep
assert db != da
""")

bug("c01-isclose-first-keys", "C01", P + "coefficients.py",
    ("""    keys = set.union(*[set(a.coefficients) for a in (shc0, shc1)])

    # Use a boolean""", """    keys = set(shc0.coefficients)
    if shc0.size <= shc1.size:
        keys = set(shc1.coefficients)

    # Use a boolean"""),
    "two sets of which the larger lacks an entry of the smaller",
    "an entry that only one set has is not compared, so different sets are called close",
    """
import numpy as np
from starwinds_magnetogram import coefficients as C
a, b = C.Coefficients(), C.Coefficients()
a.append(1, 0, 0j)
a.append(2, 0, 7j)
b.append(1, 0, 0j)
b.append(1, 1, 0j)
b.append(2, 1, 0j)
assert not C.allclose(a, b)
assert C.isclose(a, b).has(2, 0)
""")

bug("c27-add-stale-degree", "C27", P + "coefficients.py",
    ("""    shc = empty_like(shc0)
    for degree, order in keys:
        v = shc0.get(degree, order) + shc1.get(degree, order)
        shc.append(degree, order, v)

    return shc
""", """    shc = copy(shc0)
    for degree, order in keys:
        v = shc0.get(degree, order) + shc1.get(degree, order)
        shc.coefficients[(degree, order)] = v

    return shc
"""),
    "a sum whose second term reaches a higher degree than the first, which is then folded, rotated or written",
    "the sum keeps the highest degree of its first term, so later steps drop the degrees above it",
    """
import numpy as np
from starwinds_magnetogram import coefficients as C, converter as K
a, b = C.Coefficients(), C.Coefficients()
a.append(1, 0, 1 + 0j)
b.append(3, 1, 2 + 1j)
s = a + b
assert s.degree_max == 3
assert K.map_to_positive_orders(s).has(3, 1)
""")

bug("c22-single-sample-order", "C22", P + "plot_lsd.py",
    ("""            color = np.linspace(0, 1, id1 - id0)

            #            ax.plot""", """            if id1 - id0 < 2:
                continue  # Not an interval.
            color = np.linspace(0, 1, id1 - id0)

            #            ax.plot"""),
    "a spectrum with a sample that has no neighbour within the skipping threshold",
    "the isolated sample is not shown",
    """
import numpy as np
import matplotlib.pyplot as plt
from starwinds_magnetogram import plot_lsd
d = np.abs(np.random.default_rng(1).normal(size=(9, 6))) + 1
d[:, 0] = [400, 400.1, 400.2, 405, 410, 410.1, 410.2, 410.3, 410.4]
fig = plot_lsd.plot_spectrum(d)
for ax in fig.axes:
    x = np.concatenate([c.get_offsets()[:, 0] for c in ax.collections])
    assert sorted(x) == sorted(d[:, 0]), x
""")

bug("c24-negative-exponent", "C24", P + "plots.py",
    ("""        return r"{0} \\times 10^{{{1}}}".format(base, int(exponent))
""", """        return r"{0} \\times 10^{{{1}}}".format(base, exponent.lstrip("+").strip("0"))
"""),
    "a value whose exponent is a multiple of ten",
    "the exponent loses its last zero: ten to the twenty is written as ten to the two",
    """
from starwinds_magnetogram import plots
assert plots.latex_float(3.25e20) == r"+3.25 \\times 10^{20}", plots.latex_float(3.25e20)
assert plots.latex_float(1e-10) == r"+1 \\times 10^{-10}", plots.latex_float(1e-10)
""")

bug("c21-small-toroidal", "C21", P + "plot_zdi.py",
    ("    if results['magnetogram.toroidal.energy.fraction'] != 0:",
     "    if round(results['magnetogram.toroidal.energy.fraction'], 2) != 0:"),
    "a field with a toroidal part that holds less than half a percent of the energy",
    "its toroidal panel stays empty",
    """
import numpy as np
import matplotlib.pyplot as plt
from starwinds_magnetogram import plot_zdi, zdi_magnetogram as Z
z = Z.ZdiMagnetogram([1, 2], [0, 1], np.array([1., 2.]), np.array([1., 1.]), np.array([.05, .02]))
fig, axs = plot_zdi.plot_energy_summary(z)
assert axs[2].get_title() and axs[2].patches
""")

bug("c03-inline-remarks", "C03", P + "reader_writer.py",
    ("            line_tokens = line.split()\n", "            line_tokens = line.split('#')[0].split()\n"),
    "a line whose fourth value is followed directly by a remark",
    "a line whose fourth token is not a number is read as data",
    """
import os, tempfile
from starwinds_magnetogram import reader_writer as RW
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "m.dat")
    open(f, "w").write("head\\n1 0 2.0 3.0\\n1 1 5.0 6.0#x\\n")
    r = RW.read_magnetogram_file(f)
assert r.size == 1 and not r.has(1, 1)
""")

bug("c04-degree-max-zero", "C04", P + "bin/convert_magnetogram.py",
    ("        convert_pfss_to_zdi(args.input_file, args.output_file, degree_max=args.degree_max,)",
     "        convert_pfss_to_zdi(args.input_file, args.output_file, degree_max=args.degree_max or None,)"),
    "the command with --pfss-to-zdi --degree-max 0",
    "the limit is ignored: every degree is written",
    """
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "in.dat"), "w").write("head\\n0 0 1.0 0.0\\n1 0 2.0 0.0\\n2 1 5.0 6.0\\n")
    env = dict(os.environ, PYTHONPATH=os.getcwd())
    subprocess.run([sys.executable, "-W", "ignore", "-m", "starwinds_magnetogram.bin.convert_magnetogram", "in.dat", "out.dat", "--pfss-to-zdi",
                    "--degree-max", "0"], cwd=d, env=env, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = [l.split() for l in open(os.path.join(d, "out.dat"))]
data = [l for l in out if len(l) == 4 and l[0].isdigit()]
assert data and all(l[0] == "0" for l in data), data
""")

bug("c05-empty-output", "C05", P + "bin/convert_magnetogram.py",
    ("        if os.path.exists(output_name):\n            raise ValueError(f\"Output file {output_name} already",
     "        if os.path.exists(output_name) and os.path.getsize(output_name) > 0:\n            raise ValueError(f\"Output file {output_name} already"),
    "a file of the automatic output name that exists and is empty",
    "the existing file is written over without having been named",
    """
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "in.dat"), "w").write("head\\n1 0 2.0 0.0\\n2 1 5.0 6.0\\n")
    open(os.path.join(d, "in_wso.dat"), "w").close()
    env = dict(os.environ, PYTHONPATH=os.getcwd())
    subprocess.run([sys.executable, "-W", "ignore", "-m", "starwinds_magnetogram.bin.convert_magnetogram", "in.dat"],
                   cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    assert os.path.getsize(os.path.join(d, "in_wso.dat")) == 0
""")

bug("c16-corner-normals", "C16", P + "geometry.py",
    ("""        return np.stack(self.centers_cartesian(), axis=-1)
""", """        corners = np.stack(self.corners_cartesian(), axis=-1)
        normals = corners[:-1, :-1] + corners[:-1, 1:] + corners[1:, :-1] + corners[1:, 1:]
        return normals / np.sum(normals**2, axis=-1, keepdims=True)**.5
"""),
    "a facet that is large or touches a pole, where the mean of the corners lies elsewhere than the centre",
    "the normals do not point to the facet centres",
    """
import numpy as np
from starwinds_magnetogram import geometry as G
zg = G.ZdiGeometry(7, 13)
n = zg.unit_normals()
assert np.allclose(n, np.stack(zg.centers_cartesian(), axis=-1))
""")

bug("c04-name-suffix-once", "C04", P + "bin/convert_magnetogram.py",
    ('        input_file_name += "_" + postfix\n',
     '        input_file_name = input_file_name.removesuffix("_zdi").removesuffix("_wso") + "_" + postfix\n'),
    "an input file whose name already ends in _zdi or _wso, and no output name",
    "the output is written under another name than the documented one",
    """
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "star_zdi.dat"), "w").write("head\\n1 0 2.0 0.0\\n2 1 5.0 6.0\\n")
    env = dict(os.environ, PYTHONPATH=os.getcwd())
    subprocess.run([sys.executable, "-W", "ignore", "-m", "starwinds_magnetogram.bin.convert_magnetogram", "star_zdi.dat"],
                   cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    assert sorted(os.listdir(d)) == ["star_zdi.dat", "star_zdi_wso.dat"], os.listdir(d)
""")

bug("c23-stale-dictionary", "C23", P + "geometry.py",
    ('        dest[f"magnetogram.{name}.abs.rms"] = abs_rms\n',
     '        dest.setdefault(f"magnetogram.{name}.abs.rms", abs_rms)\n'),
    "a dictionary that holds the description of another magnetogram already",
    "the root mean square of the earlier magnetogram is reported",
    """
import numpy as np
from starwinds_magnetogram import geometry as G, zdi_magnetogram as Z
def mag(f):
    return Z.ZdiMagnetogram(np.array([1]), np.array([0]), np.array([f + 0j]), np.array([0j]), np.array([0j]))
zg, d = G.ZdiGeometry(9, 17), {}
G.numerical_description(zg, mag(1), d)
G.numerical_description(zg, mag(5), d)
e = G.numerical_description(zg, mag(5))
assert d["magnetogram.radial.abs.rms"] == e["magnetogram.radial.abs.rms"]
""")

bug("c17-small-patch", "C17", P + "longitudinal_field.py",
    ("        longitudinal_fields[i] = np.sum(parallel_field * visible_areas) / np.sum(visible_areas)\n",
     "        total_area = np.sum(visible_areas)\n        longitudinal_fields[i] = np.sum(parallel_field * visible_areas) / max(total_area, 1e-3)\n"),
    "a geometry that covers only a small patch of the surface",
    "the average over a patch of less than a thousandth of the unit sphere comes out too small",
    """
import numpy as np
from starwinds_magnetogram import geometry as G, longitudinal_field as L, zdi_magnetogram as Z
z = Z.ZdiMagnetogram(np.array([0]), np.array([0]), np.array([3 + 0j]), np.array([0j]), np.array([0j]))
zg = G.ZdiGeometry(np.linspace(1, 1.01, 4), np.linspace(.2, .21, 4))
b = L.get_longitudinal_field_curve(zg, z, 1.0, np.array([.2]))[0]
assert abs(b - 3 / (4 * np.pi)**.5) < 1e-2, b
""")
