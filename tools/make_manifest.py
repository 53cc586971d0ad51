"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = "explicit-state search over operation histories of the real code in lock step with a model"
ENUM = "bounded-exhaustive enumeration of executions of the real code against a reference model"
TRUST = "Trusted: the reference in mc/ (harmonics by recurrence, parsers and maps), numpy, and the bounds."
N = {
 "C01": (HIST, "All histories up to the depth bound over an alphabet of every operation, on four initial pairs of sets; after each, every object is compared with the map model and overwritten to expose sharing. Values are small exact numbers, so larger sets are covered only through the per-entry structure of the operations."),
 "C02": (ENUM, "All products of set shape, magnitude, width, degree limit, lowest order and header; the file is also read by an independent parser."),
 "C03": ("breadth-first search over all line sequences up to a length, against a line automaton", "All sequences of line kinds up to the bound, line ends, and every cut of a sample file; the alphabet of line kinds is finite."),
 "C04": (ENUM, "All option combinations over an alphabet of input files, judged on the output bytes; the real command is also run as a process."),
 "C05": ("exhaustive single and double fault injection into all file operations of every conversion", "Every recorded operation fails, tears or kills the process at every position, and in pairs, for every relation of input and output name. Faults are injected below builtins.open, so operations made by other means are seen only through their effect on the files."),
 "C06": (ENUM, "Every (degree, order, kind, part) to the degree bound, all pairs to degree 2, all arrangements of an alphabet; linearity of the code is assumed beyond sums of the explored sizes. Points are a fixed alphabet including both poles and their neighbourhoods; degrees of 86 and above are a known finding."),
 "C07": (HIST, "All chains of derivations up to the depth bound from several magnetograms, every object compared and overwritten in every state."),
 "C08": (ENUM, "Every basis element and every subset of a set of entries, against Parseval sums that are themselves checked by exact quadrature."),
 "C09": (ENUM, "Every basis element in every radial region for six pairs of radii, pairs and whole sets, against a reference potential checked for its defining equations. Degrees of 86 and above are a known finding."),
 "C10": (ENUM, "All points of a cube alphabet in all regions, all layouts of an alphabet and all partitions of small point sets into calls."),
 "C11": (ENUM, "Every basis element, every subset of a set of entries, and dense sets, both ways and there and back."),
 "C12": (ENUM, "Every pair of partner values of an alphabet, every subset of a set of orders, every basis element."),
 "C13": ("search over words of rotations (closed group of the cube, and depth-bounded generic words) in lock step with matrix products", "The 24 rotations of the cube are explored to closure; generic rotations to the word length bound."),
 "C14": (ENUM, "Full cross-talk matrix of every basis element of every kind on a set of grids; the tolerance is the discretisation error the check measures itself."),
 "C15": (HIST, "Every basis element on a set of grids, and every history of conversions up to the length bound on grids that collide in the cache."),
 "C16": (ENUM, "Every kind of corner grid up to a size and a set of uneven ones, against closed forms; every direction of a cube alphabet with lengths from 1e-150 to 1e150."),
 "C17": (ENUM, "Products of magnetogram, geometry, inclination, azimuth lists, orders and number types."),
 "C18": (ENUM, "Products of stars and radii, including the sonic point and its floating-point neighbours, and all array forms; the equation is solved independently by bisection."),
 "C19": ("exploration of all ordered pairs (thorough: triples of the light ones) of public calls on shared objects", "Results are compared with those of the call made alone in a fresh process, and every argument with its state before."),
 "C20": (ENUM, "Every point of a cube of coordinates with magnitudes from 1e-150 to 1e150, every direction of an angular grid, every array form."),
 "C21": (ENUM, "Every plot type, function and option over a set of magnetograms; drawn artists are compared cell by cell with the reference field. Rendering below matplotlib's artists is trusted."),
 "C22": (ENUM, "All parameter sequences, header lengths and table lengths; all patterns of wavelength steps below, at and above the threshold up to a length; drawn artists are compared with the data."),
 "C23": (ENUM, "Every basis element and mixtures on a set of full-sphere geometries."),
 "C24": (ENUM, "All exponent ranges and steps, shifts, mantissas and exponents up to bounds."),
 "C25": (ENUM, "All degree ranges, slopes and sources up to bounds; every number of points up to a bound with all listed outcomes of the random source."),
 "C26": (ENUM, "Every degree and order up to a bound, every pair of low ones asked for together, every layout; radial functions against exact rational arithmetic."),
 "C27": (HIST, "All sequences of fifteen operations of the package up to the depth bound from four starts of degree 3 at most, states merged by form and coefficients; the package's fields, energies, image and longitudinal field are compared with the reference in each."),
}
checks = []
for pid, (tech, note) in sorted(N.items()):
    checks.append(dict(property=pid, quick_cmd="./check.sh " + pid, thorough_cmd="VERIF_TIER=thorough ./check.sh " + pid,
                       evidence_file="evidence/%s.json" % pid, technique=tech,
                       level="fault_enumeration" if pid == "C05" else "model_checking", level_note=note + " " + TRUST))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
         notes="No hooks: the checks drive /repo's public interface in process. known_findings.txt lists known findings and repaired defects.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
