"""P33 sample plots show exactly the samples."""
import os
import re

import numpy as np
from hypothesis import strategies as st
from matplotlib import colors as mcolors
from matplotlib import pyplot as plt

from vlib import doe, gen
from vlib.core import Law, check, rejects, sut
from vlib.figs import figures

from mfpml.visualization.samplers_visualization import (
    MFSamplerVisualization, SFSamplerVisualization)


def drawn(fig, only=None):
    """[(label, points, style)] of the marker artists of a figure."""
    out = []
    for ax in fig.axes if only is None else [only]:
        for c in ax.collections:
            if not hasattr(c, "get_offsets"):
                continue
            if hasattr(c, "_offsets3d"):
                pts = np.column_stack([np.ma.getdata(v) for v in c._offsets3d])
            else:
                pts = np.ma.getdata(c.get_offsets())
            style = (tuple(np.round(mcolors.to_rgba_array(c.get_facecolor()).ravel()[:3], 6)),
                     tuple(np.round(mcolors.to_rgba_array(c.get_edgecolor()).ravel()[:3], 6)),
                     c.get_paths()[0].vertices.tobytes() if c.get_paths() else b"")
            out.append((str(c.get_label()), np.array(pts, float), style))
        for ln in ax.lines:
            if hasattr(ln, "get_data_3d"):
                pts = np.column_stack([np.asarray(v, float) for v in ln.get_data_3d()])
            else:
                pts = np.column_stack([np.asarray(v, float) for v in ln.get_data()])
            if str(ln.get_marker()) in ("None", "", " "):
                continue                    # no markers: not samples
            out.append((str(ln.get_label()), pts, (str(ln.get_color()), str(ln.get_marker()))))
    return out


def visible(fig):
    """Every marker lies within the limits of its axes."""
    for ax in fig.axes:
        lims = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if hasattr(ax, "get_zlim") else [])
        for _, pts, _ in drawn(fig, ax):
            for k in range(min(pts.shape[1], len(lims))):
                lo, hi = sorted(lims[k])
                t = 1e-6 * (hi - lo)
                check(bool(np.all((pts[:, k] >= lo - t) & (pts[:, k] <= hi + t))), "samples lie outside of the plotted range",
                      axis="xyz"[k], limits=[lo, hi], extremes=[pts[:, k].min(), pts[:, k].max()])


def legends(fig):
    out = []
    for ax in fig.axes:
        if ax.get_legend() is not None:
            out += [t.get_text() for t in ax.get_legend().get_texts()]
    return out


def rows(a):
    a = np.asarray(a, float)
    return a[np.lexsort(a.T[::-1])] if len(a) else a


def same_points(pts, x, what):
    d = x.shape[1]
    check(pts.ndim == 2 and pts.shape[1] >= d, f"{what}: points have too few coordinates", shape=list(pts.shape))
    check(len(pts) == len(x), f"{what}: {len(pts)} points drawn for {len(x)} samples")
    if d == 1:                              # the other axis only spreads nothing
        check(bool(np.all(pts[:, 1:] == pts[0, 1:])), f"{what}: the points of one-dimensional samples are not on a line")
    check(np.array_equal(rows(pts[:, :d]), rows(x)), f"{what}: the drawn coordinates are not the samples",
          drawn=rows(pts[:, :d]).ravel()[:8], samples=rows(x).ravel()[:8])


def files():
    return sorted(os.path.join(r, f)[2:] for r, _, fs in os.walk(".") for f in fs)


NAMES = ["fig.png", "a b.png", "plot.svg", "out/samples.png", "x.y.png", "figure.pdf"]
save_spec = st.lists(st.one_of(st.none(), st.none(), st.sampled_from([*NAMES, ""])), min_size=1, max_size=3)


def plot_all(case, vis, samples, judge, rec):
    """Plot according to the case; samples() gives the current arrays."""
    os.makedirs("out", exist_ok=True)
    want_files = set(files())
    with figures() as every:
        for name in case["save"]:
            before = [x.copy() for x in samples()]
            n0 = len(every)
            if name is None:
                sut(vis.plot_samples)
            elif name == "":
                sut(vis.plot_samples, save_figure=True)
                want_files.add("samples.png")
            else:
                sut(vis.plot_samples, save_figure=True, filename=name)
                want_files.add(name)
            # the figures of this call, or the one it has drawn into
            made = every[n0:] or [plt.gcf()]
            found = [a for f in made for a in drawn(f)]
            texts = [t for f in made for t in legends(f)]
            judge(found, texts, before)
            for f in made:
                visible(f)
            check(set(files()) == want_files, "the written files are not the requested ones",
                  files=files(), want=sorted(want_files))
            if name is not None:
                check(os.path.getsize(name or "samples.png") > 200, "the figure file is empty")
            for a, b in zip(before, samples()):
                check(a.shape == np.shape(b) and np.array_equal(a, b), "plotting changes the samples")
            rec.label("saved" if name is not None else "shown")


# ---------------------------------------------------------------- single fidelity
@st.composite
def sf_cases(draw):
    case = draw(doe.sf_case(("lhs", "random", "sobol"), draws=2))
    case["space"] = case["space"][:draw(st.sampled_from([1, 2, 2, 3, 3, 4, 6]))]
    if draw(gen.rare(10)):                  # many samples
        case["draws"] = [[draw(st.integers(200, 2500)), case["draws"][0][1]]]
    case["save"] = draw(save_spec)
    case["late"] = draw(st.booleans())
    return case


def law_sf(case, rec):
    s = sut(doe.make_sf, case["kind"], doe.space_array(case), case)
    check(rejects(SFSamplerVisualization, s), "plotting a sampler without samples is accepted")
    vis = None
    for n, seed in case["draws"]:
        x = sut(s.get_samples, n, seed=seed)
        if vis is None or case["late"]:
            vis = sut(SFSamplerVisualization, s)
        if len(case["space"]) > 3:
            check(rejects(vis.plot_samples), "more than three dimensions are accepted")
            check(rejects(vis.plot_samples, save_figure=True, filename="no.png"), "more than three dimensions are accepted")
            check(not files(), "a refused plot writes a file", files=files())
            plt.close("all")
            continue

        def judge(found, texts, before):
            check(len(found) >= 1, "no samples are drawn")
            same_points(np.vstack([p for _, p, _ in found]), before[0], "plot")
            check(np.array_equal(before[0], np.asarray(x, float).reshape(before[0].shape)),
                  "the sampler plots other samples than it returned")

        plot_all(case, vis, lambda: [np.asarray(s.samples, float)], judge, rec)
    rec.label(case["kind"], f"{len(case['space'])}-d")
    rec.nontrivial(len(case["space"]) <= 3 and max(n for n, _ in case["draws"]) > 1)


# ---------------------------------------------------------------- multi-fidelity
@st.composite
def mf_cases(draw):
    case = draw(doe.mf_case(draws=2, d_max=4, nfs=(1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8)))
    if case["d"] <= 3 and draw(gen.rare(5)):  # many samples
        n = draw(st.lists(st.integers(2, 300).map(lambda i: 5 * i), min_size=case["nf"], max_size=case["nf"]))
        case["draws"] = [[sorted(n), case["draws"][0][1]]]
    case["save"] = draw(save_spec)
    case["late"] = draw(st.booleans())
    case["again"] = draw(st.lists(st.integers(0, 7), max_size=2))
    return case


def law_mf(case, rec):
    s = sut(doe.make_mf, case)
    check(rejects(MFSamplerVisualization, s), "plotting a sampler without samples is accepted")
    vis = None
    for sizes, seed in case["draws"]:
        out = sut(s.get_samples, list(sizes), seed=seed)
        out = [np.array(x, float) for x in out]
        for k in case["again"]:             # data of the user with repeated samples
            k = k % case["nf"]
            out[k] = np.vstack([out[k], out[k][:2]])
            s.data = [x.copy() for x in out]
        if vis is None or case["late"]:
            vis = sut(MFSamplerVisualization, s)
        if case["d"] > 3:
            check(rejects(vis.plot_samples), "more than three dimensions are accepted")
            check(rejects(vis.plot_samples, save_figure=True, filename="no.png"), "more than three dimensions are accepted")
            check(not files(), "a refused plot writes a file", files=files())
            plt.close("all")
            continue

        def judge(found, texts, before):
            groups = {}
            for lab, pts, style in found:
                num = re.findall(r"\d+", lab)
                check(len(num) == 1, f"a group of samples is not labelled with its fidelity: {lab!r}")
                groups.setdefault(int(num[0]), []).append((lab, pts, style))
            check(sorted(groups) == list(range(case["nf"])), "not every fidelity is drawn under its label",
                  labels=sorted(groups), fidelities=case["nf"])
            styles = set()
            for k in range(case["nf"]):
                same_points(np.vstack([p for _, p, _ in groups[k]]), out[k], f"fidelity {k}")
                check(groups[k][0][0] in texts, f"fidelity {k} is missing in the legend", legend=texts)
                styles.add(groups[k][0][2])
            check(len(styles) == case["nf"], "two fidelities look the same")

        plot_all(case, vis, lambda: [np.asarray(x, float) for x in s.data], judge, rec)
    rec.label(case["kind"], f"{case['d']}-d", f"{case['nf']} fidelities", "nested" if case["nested"] else "free")
    rec.nontrivial(case["d"] <= 3 and case["nf"] > 1)


LAWS = [
    Law("single fidelity", sf_cases, law_sf, 160, thorough=4000, shards=4,
        rule="at most three dimensions and more than one sample"),
    Law("multi-fidelity", mf_cases, law_mf, 160, thorough=4000, shards=4,
        rule="at most three dimensions and more than one fidelity"),
]
ASSUMPTIONS = ["matplotlib's artists are read from the figures the call creates (scatter collections or marker lines); files are rendered at a low resolution."]
