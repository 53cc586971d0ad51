"""C22: what the LSD, stack and spectrum plots draw, for every sequence of parameters, header length, table and gap pattern."""
import contextlib, io, itertools
import numpy as np
from mc.core import require, bound, scratch
from mc import cli, figs
from mc.figs import plt
from starwinds_magnetogram import plot_lsd
from starwinds_magnetogram.bin import plot_lsd as command

LEVEL = "model_checking"
SHARDS = 8
COLUMN = {"I": 1, "V": 3, "N": 5}


def table(n, cols=7, seed=0):
    """n rows, every entry different, errors positive."""
    i, j = np.meshgrid(np.arange(n), np.arange(cols), indexing="ij")
    t = np.round(np.sin(1 + 3.7 * i + 1.3 * j + seed) * 10 ** ((i + j) % 4 - 2.0), 7)
    t[:, 2::2] = np.round(0.001 + np.abs(t[:, 2::2]), 7)
    t[:, 0] = -20 + 1.8 * np.arange(n) * (1 + 0.01 * seed)
    return t


HEADERS = {
    "text": lambda k: ["*** LSD profile of a star, line %d" % i for i in range(k)],
    "data": lambda k: [" ".join("%g" % v for v in 900 + np.arange(7) + i) for i in range(k)],
    "zdipy": lambda k: (["*** LSD"] * k)[:-1] + ["  5 6"] if k else [],
}


def write(name, rows, skip, header, blank=False):
    with open(name, "w") as f:
        for h in HEADERS[header](skip):
            f.write(h + "\n")
        for r in rows:
            f.write("  ".join("%.9g" % v for v in r) + "\n")
            if blank:
                f.write("\n")


def panels(fig, data, params):
    axs = fig.get_axes()
    require(len(axs) == len(params), "%d panels for the parameters %s", len(axs), params)
    top = [ax.get_position().y0 for ax in axs]
    require(all(a > b for a, b in zip(top, top[1:])), "panels are not from top to bottom")
    for ax, p in zip(axs, params):
        require(len(ax.containers) == 1, "%d series in a panel", len(ax.containers))
        figs.is_series(ax, data[:, [0, COLUMN[p], COLUMN[p] + 1]])
        require("$%s/" % p in ax.get_ylabel(), "panel of %s is labelled %r", p, ax.get_ylabel())
        lo, hi = ax.get_xlim()
        require(lo <= data[:, 0].min() + 1e-9 and hi >= data[:, 0].max() - 1e-9, "points outside the panel: %s", (lo, hi))


def run_command(params, skip, header, n, out, order, real, blank=False, flags=(), cols=7):
    data = table(n, cols)
    data[0, 0], data[-1, 1], data[n // 2, 3] = 0, 1, 0  # whole numbers are written without decimals
    seen = []
    with scratch():
        write("in.lsd", data, 2 if skip is None else skip, header, blank)
        before = cli.snapshot()
        args = ["in.lsd"] + ([out] if out else [])
        opt = list(flags) + ([] if params is None else ["-p", params]) + ([] if skip is None else ["-s", str(skip)])
        args = opt + args if order else args + opt

        def look(fig):
            panels(fig, data, params or "VI")
            require("in.lsd" in fig.get_axes()[0].get_title(), "title %r", fig.get_axes()[0].get_title())
            seen.append(1)
        with figs.recording(look, real) as calls:
            r = cli.call(command.main, args)
        require(r.ok, "%s ends with %s", args, r.error)
        require(calls == [out], "saved as %s", calls)
        require(len(seen) == 1, "the figure was drawn %d times", len(seen))
        after = cli.snapshot()
        require(after.get("in.lsd") == before["in.lsd"], "the input was changed")
        require(set(after) == {"in.lsd"} | ({out} if out else set()), "files %s", sorted(after))
        if out and real:
            magic = {"png": b"\x89PNG", "pdf": b"%PDF", "svg": b"<?xml"}[out[-3:].lower()]
            require(after[out].startswith(magic), "%s starts with %r", out, after[out][:8])


def refused(argv, content):
    with scratch():
        with open("in.lsd", "w") as f:
            f.write(content)
        with figs.recording(lambda fig: None) as calls:
            r = cli.call(command.main, argv)
        require(not r.ok, "%s ends normally", argv)
        require(calls == [], "a figure was saved")
        require(set(cli.snapshot()) == {"in.lsd"}, "files %s", sorted(cli.snapshot()))


def information(flag):
    """Asking for help or the version draws and writes nothing, whatever else is given."""
    with scratch():
        write("in.lsd", table(3), 2, "text")
        with figs.recording(lambda fig: None) as calls:
            for args in ([flag], ["in.lsd", "out.png", flag], [flag, "in.lsd", "out.png", "-p", "V"]):
                r = cli.call(command.main, args)
                require(r.ok and r.out.strip(), "%s ends with %s and prints %r", args, r.error, r.out)
        require(calls == [] and set(cli.snapshot()) == {"in.lsd"}, "a figure was saved")


def profile(params, n_axes, layers):
    plt.close("all")
    try:
        fig, _ = plt.subplots(n_axes, squeeze=False)
        sets = [table(4 + k, seed=k) for k in range(layers)]
        keep = [d.copy() for d in sets]
        if len(params) > n_axes:
            try:
                plot_lsd.plot_lsd_profile(sets[0], params)
            except Exception:
                return
            require(False, "%d parameters fit in %d panels", len(params), n_axes)
        for d in sets:
            r = plot_lsd.plot_lsd_profile(d, params) if params != "VNI" else plot_lsd.plot_lsd_profile(d)
            require(r is fig, "another figure is returned")
        for i, ax in enumerate(fig.get_axes()):
            require(len(ax.containers) == (layers if i < len(params) else 0), "%d series in panel %d", len(ax.containers), i)
            for k, d in enumerate(sets):
                if i < len(params):
                    c = COLUMN[params[i]]
                    figs.is_series(ax, d[:, [0, c, c + 1]], k)
        require(all(np.array_equal(a, b) for a, b in zip(keep, sets)), "the data were changed")
    finally:
        plt.close("all")


def scaled(n, factors, y_lim):
    """Profiles of different heights, in any order: none is cut off, and "same" is the same everywhere."""
    plt.close("all")
    try:
        data = [table(4, seed=k) for k in range(n)]
        for d, (up, down) in zip(data, factors):
            v = d[:, 3]
            v -= v.mean()
            v[v > 0] *= up / v.max()
            v[v < 0] *= down / -v.min()
            d[:, 4] = .01 * (up + down)
        plot_lsd.plot_lsd_stack(data, None, y_lim=y_lim)
        axs = plt.gcf().get_axes()
        lims = [tuple(ax.get_ylim()) for ax in axs]
        for k, ax in enumerate(axs):
            figs.is_series(ax, data[k][:, [0, 3, 4]])
            lo, hi = (data[k][:, 3] - data[k][:, 4]).min(), (data[k][:, 3] + data[k][:, 4]).max()
            require(lims[k][0] <= lo and hi <= lims[k][1], "limits %s of panel %d cut off %s", lims[k], k, (lo, hi))
        if y_lim == "same":
            require(len(set(lims)) == 1, "limits %s differ", lims)
    finally:
        plt.close("all")


def stack(n, names, y_lim, existing):
    plt.close("all")
    try:
        if existing is not None:
            plt.subplots(existing, squeeze=False)
        data = [table(3 + 2 * k, seed=k) for k in range(n)]
        for k in range(1, n, 2):
            data[k][:, 4] *= 1000 * k  # the noise may exceed the signal, most in the last panels
        nm = ["star %d" % ((7 - k) // 2) for k in range(n)] if names else None
        plot_lsd.plot_lsd_stack(data, nm, y_lim=y_lim) if y_lim != "default" else plot_lsd.plot_lsd_stack(data, nm)
        fig = plt.gcf()
        axs = fig.get_axes()
        require(len(axs) == n, "%d panels for %d profiles", len(axs), n)
        require(len(plt.get_fignums()) == (2 if existing not in (None, n) else 1) or existing is None, "figures %s", plt.get_fignums())
        lims = [ax.get_ylim() for ax in axs]
        for k, ax in enumerate(axs):
            require(len(ax.containers) == 1, "%d series in a panel", len(ax.containers))
            figs.is_series(ax, data[k][:, [0, 3, 4]])
            lg = ax.get_legend()
            texts = [t.get_text() for t in lg.get_texts()] if lg else []
            require(texts == ([nm[k]] if nm else []), "panel %d is named %s", k, texts)
            if isinstance(y_lim, tuple):
                require(tuple(lims[k]) == y_lim, "limits %s instead of %s", lims[k], y_lim)
            else:
                lo, hi = (data[k][:, 3] - data[k][:, 4]).min(), (data[k][:, 3] + data[k][:, 4]).max()
                require(lims[k][0] <= lo and hi <= lims[k][1], "limits %s cut off %s", lims[k], (lo, hi))
            if y_lim == "same":
                require(lims[k] == lims[0], "limits %s and %s differ", lims[k], lims[0])
    finally:
        plt.close("all")


def intervals(wl, cuts, threshold):
    keep = np.array(wl, copy=True)
    with contextlib.redirect_stdout(io.StringIO()):
        r = plot_lsd.wl_intervals(wl) if threshold is None else plot_lsd.wl_intervals(wl, threshold)
        r = [(int(a), int(b)) for a, b in r]
    r = [(a, b) for a, b in r if a != b]
    edges = [0] + [i + 1 for i in cuts] + [len(wl)]
    exp = [(a, b) for a, b in zip(edges, edges[1:]) if a != b]
    require(r == exp, "intervals %s, expected %s", r, exp)
    require(np.array_equal(keep, wl), "the wavelengths were changed")


def spectrum(steps):
    n = len(steps) + 1
    d = table(n, 6)
    d[:, 1:] = np.abs(d[:, 1:]) + 0.01
    d[:, 0] = 500 + np.concatenate([[0], np.cumsum(steps)])
    cuts = [i for i, s in enumerate(steps) if abs(s) > 0.2]
    edges = [0] + [i + 1 for i in cuts] + [n]
    keep = d.copy()
    plt.close("all")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fig = plot_lsd.plot_spectrum(d)
        axs = fig.get_axes()
        require(len(axs) == 5, "%d panels", len(axs))
        for k, ax in enumerate(axs):
            pieces = [np.asarray(c.get_offsets(), float) for c in ax.collections]
            pieces = [p for p in pieces if len(p)]
            require([len(p) for p in pieces] == list(np.diff(edges)), "pieces of %s samples, expected %s", [len(p) for p in pieces], np.diff(edges))
            allp = np.concatenate(pieces)
            figs.same(allp, d[:, [0, k + 1]], "samples in panel %d" % k)
        require(np.array_equal(keep, d), "the data were changed")
    finally:
        plt.close("all")


def run(ck):
    ck.rule = ("command: all sequences (with repetition) of 1 to 3 of I, V, N x header lengths x kinds of header x table lengths x output forms; "
               "stack: all numbers of profiles x names x limits x existing figure; intervals: all patterns of steps below, at and above the "
               "threshold in both directions; a state is a distinct combination")
    seqs = [None] + ["".join(s) for k in (1, 2, 3) for s in itertools.product("IVN", repeat=k)]
    i = 0
    for params, skip, n in itertools.product(seqs, (None, 0, 1, 2, 5), bound((1, 4), (1, 2, 3, 9, 50))):
        i += 1
        heads = list(HEADERS)
        for header in (heads if bound(False, True) else heads[i % 3:i % 3 + 1]):
            ck.state("command", params, skip, n, header)
            ck.step()
            ck.case("command/%s/skip=%s/rows=%d/%s" % (params, skip, n, header), run_command, params, skip, header, n, "out.png", i % 2, False)
    for params, out, order in itertools.product((None, "V", "NIV"), ("out.png", "Star V1.pdf", "out.SVG", None), (0, 1)):
        ck.state("save", params, out, order)
        ck.step()
        ck.case("save/%s/%s/%d" % (params, out, order), run_command, params, None, "zdipy", 5, out, order, True, True)
    for flags in (["-q"], ["-v"], ["--quiet"], ["--verbose"], ["-q", "-v"]):
        for params, order in itertools.product((None, "IN"), (0, 1)):
            ck.state("flags", params, *flags, order)
            ck.step()
            ck.case("flags/%s/%s/%d" % (flags, params, order), run_command, params, 1, "text", 4, "out.png", order, False, False, flags)
    for params, skip, n, cols in ((None, 12, 3, 7), ("NVI", 30, 2, 7), ("NVI", 2, 3, 8), ("VN", 1, 5, 9), ("IN", 0, 4, 12), ("VI", 2, bound(11000, 40000), 7)):
        ck.state("long", params, skip, n, cols)
        ck.step()
        ck.case("long/%s/skip=%d/rows=%d/cols=%d" % (params, skip, n, cols), run_command, params, skip, "data" if cols == 7 else "text", n, "out.png", 0, False, False, (), cols)
    for flag in ("--version", "-h", "--help"):
        ck.step()
        ck.state("information", flag)
        ck.case("information/%s" % flag, information, flag)
    good = "head\nhead\n" + "\n".join(" ".join("%g" % v for v in r) for r in table(3)) + "\n"
    for argv in ([], ["in.lsd", "out.png", "-p", "X"], ["in.lsd", "out.png", "-p", "VX"], ["in.lsd", "out.png", "-p", "v"], ["absent.lsd", "out.png"],
                 ["in.lsd", "out.png", "-s", "x"], ["in.lsd", "out.png", "-s", "1"], ["in.lsd", "out.png", "--nothing"]):
        ck.step()
        ck.state("refused", *argv)
        # with one header line skipped the second, of a single word, does not have the columns of the data
        ck.case("refused/%s" % " ".join(argv), refused, argv, good)
    for params in [s for s in seqs if s]:
        for n_axes in range(1, 5):
            for layers in (1, 2, 3):
                ck.step()
                ck.state("profile", params, n_axes, layers)
                ck.case("profile/%s/%d/%d" % (params, n_axes, layers), profile, params, n_axes, layers)
    for n in (1, 2, 3, 6) + bound((), (4, 5, 8)):
        for names, y_lim, existing in itertools.product((False, True), ("default", None, "same", (-3.0, 4.5), (-1e-4, 1e-4)), (None, 1, 2, 3)):
            ck.step()
            ck.state("stack", n, names, y_lim, existing)
            ck.case("stack/%d/%s/%s/%s" % (n, names, y_lim, existing), stack, n, names, y_lim, existing)
    heights = [(u, d) for u in (1.0, 30.0) for d in (1.0, 30.0)]
    for n in (1, 2, 3) + bound((), (4,)):
        for f in itertools.product(heights, repeat=n):
            for y_lim in ("same", None):
                ck.step()
                ck.state("scaled", f, y_lim)
                ck.case("heights/%s/%s" % (f, y_lim), scaled, n, f, y_lim)
    for t in (None, 0.25, 1.0, 2.0 ** -20, 0.0):
        tt = 0.2 if t is None else t
        # exact multiples, so that "more than the threshold" is decided without rounding (0.2 itself is not representable)
        kinds = (0.0, 0.125, 0.25, -0.125, -0.25) if t is None else ((0.0, 0.5, -1.0) if t == 0 else (0.5 * t, t, 2 * t, -t, -2 * t))
        for n in range(1, bound(6, 8) if len(kinds) > 3 else bound(8, 10)):
            for steps in itertools.product(kinds, repeat=n - 1):
                wl = (1 if t is None or t else 512) + np.concatenate([[0.0], np.cumsum(steps)])
                cuts = [i for i, s in enumerate(steps) if abs(s) > tt]
                ck.step()
                ck.state("intervals", t, steps)
                ck.case("intervals/%s/%s" % (t, steps), intervals, wl, cuts, t)
    for k in range(0, bound(4, 6)):
        for steps in itertools.product((0.01, 0.125, 0.5, -3.0), repeat=k):
            if k > 2 and not THIN(steps) and not bound(False, True):
                continue
            ck.step()
            ck.state("spectrum", steps)
            ck.case("spectrum/%s" % (steps,), spectrum, steps)
    ck.sample(dict(case="command/NV/skip=1/rows=4/data"))
    ck.sample(dict(case="intervals/0.25/(0.25, 0.5, -0.25)"))


def THIN(steps):
    """Of the longest patterns the quick tier takes those that name their kinds in order of first use."""
    order = []
    for s in steps:
        if s not in order:
            order.append(s)
    return order == sorted(order, key=[0.01, 0.125, 0.5, -3.0].index)
