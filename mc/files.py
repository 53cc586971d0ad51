"""Independent reader and writer of coefficient files, for the oracles."""


def data_tokens(line):
    """(l, m, re, im) when the line is a data line, else None."""
    t = line.split()
    if len(t) < 4:
        return None
    try:
        return int(t[0]), int(t[1]), float(t[2]), float(t[3])
    except ValueError:
        return None


class BadLine(Exception):
    pass


def parse(text, skip_bad=False):
    """List of {(l, m): complex}; raises BadLine for a data line whose order exceeds its degree."""
    sets = [{}]
    for line in text.replace("\r\n", "\n").replace("\r", "\n").split("\n"):
        d = data_tokens(line)
        if d is None:
            continue
        l, m, re, im = d
        if abs(m) > l:
            if skip_bad:
                continue
            raise BadLine(line)
        if (l, m) in sets[-1]:
            sets.append({})
        sets[-1][l, m] = complex(re, im)
    return sets


def columns(sets):
    """{(l, m): (value per set)}"""
    keys = set().union(*sets)
    return {k: tuple(s.get(k, 0j) for s in sets) for k in keys}


def render(sets, header=("General magnetogram", "3 3 -3"), sep=""):
    out = list(header)
    for i, s in enumerate(sets):
        if i and sep is not None:
            out.append(sep)
        out += ["%d %d %.17e %.17e" % (l, m, c.real, c.imag) for (l, m), c in s.items()]
    return "\n".join(out) + "\n"


def rounded(c):
    return complex(float("%.6e" % c.real), float("%.6e" % c.imag))


def split_header(text):
    """(header lines before the first data line, data lines)"""
    lines = text.split("\n")
    for i, l in enumerate(lines):
        if data_tokens(l) is not None:
            return lines[:i], [x for x in lines[i:]]
    return lines, []
