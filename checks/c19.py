"""C19: layout helpers place, order and draw every qubit consistently.

Geometric oracle: layouts are cut out of a grid whose positions are known, given to
the helpers without coordinates or indices, and what the helpers write (or the artists
that end up in the axes) is compared with the known positions.
"""

import math
import random

import matplotlib

matplotlib.use("Agg")
# pylint: disable=wrong-import-position
from matplotlib.colors import to_rgba
from matplotlib.figure import Figure
from matplotlib.lines import Line2D
from matplotlib.patches import Circle, Polygon
from matplotlib.text import Text

from surface_sim import Layout
from surface_sim.layouts import plot, set_coords
from surface_sim.layouts.layout import index_coords
from surface_sim.layouts.util import index_chain

from vlib import gen

PROPERTY = "C19"
RULE = (
    "a case is a layout cut out of a grid, a chain or a generated code, passed to a helper or "
    "plotted with random options; non-trivial if it has at least three qubits; distinct by "
    "shape and options"
)
ASSUMPTIONS = [
    "layouts given to set_coords are connected and have every connection in both directions",
    "set_coords writes (vertical, horizontal) with north and east as positive directions; the "
    "order of the two axes with respect to the generated layouts is not judged",
]
MIN_EVENTS = {
    "relative_place": 500,
    "same_as_generated": 25,
    "chain_index": 300,
    "circle": 800,
    "label": 400,
    "line": 500,
    "polygon": 180,
    "axis": 60,
    "coordinate_index": 1000,
}
DIRS = {
    "north": (1, 0), "south": (-1, 0), "east": (0, 1), "west": (0, -1),
    "north_east": (1, 1), "north_west": (1, -1), "south_east": (-1, 1), "south_west": (-1, -1),
}  # fmt: skip


def cases(tier, rng):
    n = 60 if tier == "quick" else 900
    out = []
    for kind in ("grid", "code", "chain", "coords", "plot"):
        for _ in range(n):
            out.append(dict(kind=kind, seed=rng.randint(0, 10**9)))
    return out


def run(case, mon):
    globals()["run_" + case["kind"]](random.Random(case["seed"]), mon)


# -------------------------------------------------------------------- grids
def grid(rng, coords=False):
    """Random connected part of a grid: description and positions."""
    n = rng.randint(2, 18)
    pos = [(0, 0)]
    edges = set()
    moves = list(DIRS.items())
    while len(pos) < n:
        p = rng.choice(pos)
        d, s = rng.choice(moves)
        q = (p[0] + s[0], p[1] + s[1])
        if q not in pos:
            pos.append(q)
        edges.add((p, d, q))
    for p in pos:  # more connections, which close loops
        for d, s in moves:
            q = (p[0] + s[0], p[1] + s[1])
            if q in pos and rng.random() < 0.3:
                edges.add((p, d, q))
    back = {s: d for d, s in DIRS.items()}
    edges |= {(q, back[(p[0] - q[0], p[1] - q[1])], p) for p, _, q in edges}
    labels = rng.sample([f"{a}{k}" for a in "DXZ" for k in range(20)] + ["node", "q-1", "D1_b"], n)
    name = dict(zip(pos, labels))
    order = list(pos)
    rng.shuffle(order)
    nodes = []
    for p in order:
        nbr = [(d, name[q]) for a, d, q in edges if a == p]
        rng.shuffle(nbr)
        node = dict(qubit=name[p], role=rng.choice(["data", "anc"]), neighbors=dict(nbr))
        node["stab_type"] = rng.choice(["x_type", "z_type", "x_type", "z_type", None]) if node["role"] == "anc" else None
        if coords:
            node["coords"] = [p[0] + 0.5, p[1] - 7]
        nodes.append(node)
    return dict(layout=nodes), {name[p]: p for p in pos}


def run_grid(rng, mon):
    desc, pos = grid(rng)
    layout = Layout(desc)
    out = set_coords(layout)
    mon.check("in_place", out is None or out is layout, "set_coords returned something else")
    raw = {q: layout.param("coords", q) for q in pos}
    lost = [q for q, c in raw.items() if c is None or len(c) != 2]
    mon.check("written", not lost, f"no place written for {lost}")
    if lost:
        return
    got = {q: tuple(c) for q, c in raw.items()}
    ref = rng.choice(list(pos))
    for q, p in pos.items():
        want = (p[0] - pos[ref][0], p[1] - pos[ref][1])
        diff = (got[q][0] - got[ref][0], got[q][1] - got[ref][1])
        mon.equal("relative_place", diff, want, f"place of {q} with respect to {ref}")
    mon.check("origin", (0, 0) in got.values(), f"no qubit at the origin: {got}")
    # only the coordinates have been written
    after = layout.to_dict()
    for node in after["layout"]:
        node.pop("coords")
    before = Layout(desc).to_dict()
    for node in before["layout"]:
        node.pop("coords", None)
    mon.equal("rest_kept", after, before, "layout without its coordinates")
    mon.raises("refused", lambda: set_coords(layout), Exception, "coordinates already set")
    mon.equal("refused_kept", {q: tuple(layout.param("coords", q)) for q in pos}, got, "coords")
    for q in pos:
        layout.set_param("coords", q, [rng.randint(-9, 9), rng.randint(-9, 9)])
    set_coords(layout, override=True)
    for q in pos:
        diff = [a - b for a, b in zip(layout.param("coords", q), layout.param("coords", ref))]
        mon.equal("relative_place", diff, [a - b for a, b in zip(pos[q], pos[ref])], f"place of {q}")
    if len(pos) > 2:
        mon.sig("grid", sorted(pos.values()))


def run_code(rng, mon):
    """The connections of generated codes give back their coordinates.

    ``set_coords`` writes (vertical, horizontal), the generators (x, y); the
    shape has to be the same, with the two axes in either order."""
    lat = rng.choice([gen.ROT, gen.UNROT])
    spec = gen.layout_spec(rng, lat, rng.randint(2, 5), rng.randint(2, 5))
    layout = gen.make_layout(spec)
    old = {q: layout.param("coords", q) for q in layout.get_qubits()}
    set_coords(layout, override=True)
    new = {q: layout.param("coords", q) for q in layout.get_qubits()}
    lost = [q for q, c in new.items() if c is None or len(c) != 2]
    mon.check("written", not lost, f"no place written for {lost}")
    if lost:
        return
    ref = rng.choice(list(old))

    def rel(coords, flip):
        out = {}
        for q, c in coords.items():
            d = [round(float(a) - float(b), 6) + 0.0 for a, b in zip(c, coords[ref])]
            out[q] = d[::-1] if flip else d
        return out

    got = rel(new, False)
    same = [flip for flip in (False, True) if rel(old, flip) == got]
    mon.check(
        "same_as_generated",
        len(same) > 0,
        f"the places given by the connections of {lat} {spec['dx']}x{spec['dz']} are not "
        "those of the generated code, in either order of the axes",
    )
    mon.sig("code", lat, spec["dx"], spec["dz"])


# ------------------------------------------------------------------- chains
def run_chain(rng, mon):
    n = rng.randint(2, 12)
    labels = [f"D{k}" for k in range(n)]
    rng.shuffle(labels)
    extra = [f"X{k}" for k in range(rng.choice([0, 0, 2, 3]))]
    nodes = []
    for chain in (labels, extra):
        for k, q in enumerate(chain):
            nbr = {}
            if k > 0:
                nbr["west"] = chain[k - 1]
            if k < len(chain) - 1:
                nbr["east"] = chain[k + 1]
            items = list(nbr.items())
            rng.shuffle(items)
            nodes.append(dict(qubit=q, role="data", neighbors=dict(items)))
    rng.shuffle(nodes)
    desc = dict(layout=nodes)
    layout = Layout(desc)
    end = rng.choice([0, -1])
    index_chain(layout, labels[end])
    walk = labels if end == 0 else labels[::-1]
    for k, q in enumerate(walk):
        mon.equal("chain_index", layout.param("chain_ind", q), k, f"index of {q} along the chain")
    for q in extra:
        mon.equal("chain_index", layout.param("chain_ind", q), None, f"index of {q}, not in the chain")
    # from the middle: a unique index each, growing away from the start
    start = rng.randrange(n)
    index_chain(layout, labels[start])
    inds = [layout.param("chain_ind", q) for q in labels]
    mon.equal("chain_index", sorted(inds), list(range(n)), "indices of the chain")
    mon.equal("chain_index", inds[start], 0, "index of the first qubit")
    left, right = inds[: start + 1][::-1], inds[start:]
    mon.check("chain_index", left == sorted(left) and right == sorted(right), f"{inds} from {start}")
    mon.raises("refused", lambda: index_chain(layout, "nothing"), Exception, "unknown qubit")
    lone = Layout(dict(layout=[dict(qubit="a", role="data", neighbors={})]))
    mon.raises("refused", lambda: index_chain(lone, "a"), Exception, "isolated qubit")
    star = [dict(qubit="c", role="data", neighbors=dict(north="a", south="b", east="d"))]
    star += [dict(qubit=q, role="data", neighbors={d: "c"})
             for q, d in (("a", "south"), ("b", "north"), ("d", "west"))]  # fmt: skip
    star = Layout(dict(layout=star))
    mon.raises("refused", lambda: index_chain(star, rng.choice("abcd")), Exception, "three neighbours")
    mon.sig("chain", n, start, end)


def run_coords(rng, mon):
    n = rng.randint(1, 25)
    vals = [rng.choice([rng.randint(-9, 9), rng.randint(-4, 4) / 2]) for _ in range(n)]
    keep = list(vals)
    for reverse in (False, True):
        inds, num = index_coords(vals, reverse=reverse)
        mon.equal("coordinate_index", num, len(set(vals)), "number of coordinates")
        mon.equal("coordinate_index", len(inds), n, "number of indices")
        mon.equal("coordinate_index", set(inds), set(range(num)), "indices")
        for a, i in zip(vals, inds):
            below = len({b for b in vals if (b > a if reverse else b < a)})
            mon.equal("coordinate_index", i, below, f"index of {a} in {vals}, reverse={reverse}")
    mon.equal("coordinate_index", vals, keep, "coordinates after indexing")
    mon.sig("coords", vals)


# -------------------------------------------------------------------- plots
def letters(text):
    """What a reader sees of a label, without the mark-up."""
    for junk in ("\\mathrm", "$", "{", "}", "_"):
        text = text.replace(junk, "")
    return text


def run_plot(rng, mon):
    if rng.random() < 0.5:
        desc, _ = grid(rng, coords=True)
    else:
        lat = rng.choice([gen.ROT, gen.UNROT])
        desc = gen.make_layout(gen.layout_spec(rng, lat, rng.randint(2, 4), rng.randint(2, 4))).to_dict()
    meta = {}
    for node in desc["layout"]:
        if rng.random() < 0.2:
            q = node["qubit"]
            meta[q] = dict(circle=dict(radius=0.125, facecolor="#123456"), text=dict(color="red"),
                           line=dict(color="#00ff00"), patch=dict(facecolor="#abcdef"))  # fmt: skip
            meta[q] = {k: v for k, v in meta[q].items() if rng.random() < 0.7}
            node["metaparams"] = meta[q]
    layout = Layout(desc)
    before = layout.to_dict()
    opts = dict(
        add_labels=rng.random() < 0.7,
        add_patches=rng.random() < 0.7,
        add_connections=rng.random() < 0.7,
        pad=rng.choice([0, 1, 0.5, 3]),
        stim_orientation=rng.random() < 0.5,
        label_fontsize=rng.choice([5, 11, 7.5]),
    )
    ax = Figure().subplots()
    old = set(map(id, ax.get_children()))
    out = plot(ax, layout, **opts)
    mon.check("axes", out is ax, "plot did not return the axes")
    new = [a for a in ax.get_children() if id(a) not in old]
    xy = {q: tuple(map(float, layout.param("coords", q))) for q in layout.get_qubits()}
    anc = layout.get_qubits(role="anc")

    circles = [a for a in new if isinstance(a, Circle)]
    mon.equal("circle", sorted(tuple(map(float, c.center)) for c in circles), sorted(xy.values()), "circles")
    at = {tuple(map(float, c.center)): c for c in circles}
    for q, p in xy.items():
        own = meta.get(q, {}).get("circle", {})
        mon.equal("circle", at[p].radius, own.get("radius", at[p].radius), f"radius of {q}")
        if own:
            mon.equal("circle", at[p].get_facecolor(), to_rgba(own["facecolor"]), f"colour of {q}")
        mon.check("circle", at[p].radius > 0, "radius")
    kinds = {}
    for q, p in xy.items():
        if not meta.get(q, {}).get("circle"):
            kind = (layout.param("role", q), layout.param("stab_type", q))
            kinds.setdefault(kind, set()).add(at[p].get_facecolor())
    for kind, colours in kinds.items():
        mon.equal("colour", len(colours), 1, f"colours of the qubits {kind}")
    mon.equal("colour", len(set(map(tuple, kinds.values()))), len(kinds), "colours of the kinds of qubit")

    texts = [a for a in new if isinstance(a, Text) and a.get_text()]
    texts = [t for t in texts if t.axes is ax and t not in (ax.title, ax._left_title, ax._right_title)]
    want = sorted((p, letters(q)) for q, p in xy.items()) if opts["add_labels"] else []
    got = sorted((tuple(map(float, t.get_position())), letters(t.get_text())) for t in texts)
    mon.equal("label_set", got, want, "labels")
    mon.see("label", len(want))
    for t in texts:
        mon.equal("label_size", t.get_fontsize(), opts["label_fontsize"], "size of the labels")

    lines = [a for a in new if isinstance(a, Line2D)]
    want = []
    for a in anc:
        for b in layout.get_neighbors([a]):
            want.append(tuple(sorted((xy[a], xy[b]))))
    got = []
    for l in lines:
        ends = list(zip(map(float, l.get_xdata()), map(float, l.get_ydata())))
        got.append(tuple(sorted(ends)))
    mon.equal("line_set", sorted(got), sorted(want) if opts["add_connections"] else [], "connections")
    mon.see("line", len(got))

    if opts["add_connections"]:
        colours = {}
        at = {}
        for l, ends in zip(lines, got):
            at.setdefault(ends, set()).add(to_rgba(l.get_color()))
        for a in anc:
            for b in layout.get_neighbors([a]):
                shade = at.get(tuple(sorted((xy[a], xy[b]))), set())
                own = meta.get(a, {}).get("line")
                if own:
                    mon.check("line_colour", to_rgba(own["color"]) in shade, f"own colour of {a}")
                elif len(shade) == 1 and layout.param("role", b) == "data":
                    colours.setdefault(layout.param("stab_type", a), set()).update(shade)
        for kind, shade in colours.items():
            mon.equal("line_colour", len(shade), 1, f"colours of the connections of {kind}")
        mon.equal("line_colour", len(set(map(tuple, colours.values()))), len(colours), "colours of the types")

    polys = [a for a in new if isinstance(a, Polygon)]
    want = []
    for a in anc:
        pts = [xy[b] for b in layout.get_neighbors([a])]
        if len(pts) == 2:
            pts.append(xy[a])
        if pts:
            want.append(tuple(sorted(pts)))
    if opts["add_patches"]:
        got = []
        for p in polys:
            pts = [tuple(map(float, v)) for v in p.get_xy()]
            if len(pts) > 1 and pts[0] == pts[-1]:
                pts = pts[:-1]
            got.append(tuple(sorted(pts)))
            mon.check("polygon", turns(pts), lambda: f"the outline {pts} crosses itself")
        mon.equal("polygon_set", sorted(got), sorted(want), "stabilizer patches")
        # the type of a stabilizer is seen in the colour of its patch
        colours = {}
        for a in anc:
            pts = [xy[b] for b in layout.get_neighbors([a])]
            pts = sorted(pts + [xy[a]] if len(pts) == 2 else pts)
            face = [
                tuple(p.get_facecolor())
                for p in polys
                if sorted({tuple(map(float, v)) for v in p.get_xy()}) == pts
            ]
            if len(face) == 1 and len(pts) > 1 and not meta.get(a, {}).get("patch"):
                colours.setdefault(layout.param("stab_type", a), set()).add(face[0])
        for kind, face in colours.items():
            mon.equal("patch_colour", len(face), 1, f"colours of the patches of {kind}")
        mon.equal("patch_colour", len(set(map(tuple, colours.values()))), len(colours), "colours of the types")
        for a, own in meta.items():
            if own.get("patch") and a in anc:
                shade = tuple(to_rgba(own["patch"]["facecolor"])[:3])
                drawn = {tuple(p.get_facecolor()[:3]) for p in polys}
                if layout.get_neighbors([a]):
                    mon.check("patch_colour", shade in drawn, f"the patch of {a} has not its own colour")
    else:
        mon.equal("polygon_set", polys, [], "stabilizer patches")

    order = [max([a.zorder for a in g], default=None) for g in (polys, lines, circles, texts)]
    order = [z for z in order if z is not None]
    mon.check("drawing_order", order == sorted(order), f"drawing order {order}")

    xs, ys = zip(*xy.values())
    pad = opts["pad"]
    if max(xs) - min(xs) + pad > 0 and max(ys) - min(ys) + pad > 0:
        lim = (min(xs) - pad, max(xs) + pad)
        mon.check("axis", near(ax.get_xlim(), lim), f"x range {ax.get_xlim()}, expected {lim}")
        lim = (min(ys) - pad, max(ys) + pad)
        if opts["stim_orientation"]:
            lim = lim[::-1]
        mon.check("axis", near(ax.get_ylim(), lim), f"y range {ax.get_ylim()}, expected {lim}")
    mon.equal("layout_kept", layout.to_dict(), before, "layout after plotting")
    # coordinates that cannot be drawn
    deep = Layout(desc)
    q = rng.choice(deep.get_qubits())
    deep.set_param("coords", q, [1, 2, 3])
    mon.raises("refused", lambda: plot(Figure().subplots(), deep), Exception, "three coordinates")
    mon.sig("plot", sorted(xy.values()), sorted(opts.items()))


def near(a, b):
    return all(abs(x - y) < 1e-9 for x, y in zip(a, b))


def turns(pts):
    """Whether the vertices go once around their centre."""
    if len(pts) < 3:
        return True
    cx = sum(p[0] for p in pts) / len(pts)
    cy = sum(p[1] for p in pts) / len(pts)
    if any(abs(x - cx) < 1e-9 and abs(y - cy) < 1e-9 for x, y in pts):
        return True  # a vertex in the centre has no direction
    ang = [math.atan2(y - cy, x - cx) for x, y in pts]
    steps = [(b - a) % (2 * math.pi) for a, b in zip(ang, ang[1:] + ang[:1])]
    total = sum(steps)
    one = abs(total - 2 * math.pi) < 1e-6
    other = abs(total - 2 * math.pi * (len(pts) - 1)) < 1e-6
    if any(s < 1e-9 or s > 2 * math.pi - 1e-9 for s in steps):
        return True  # two vertices in the same direction
    return one or other
