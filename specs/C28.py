GEOM = ['Grotrian._compute_level_row', 'Grotrian._compute_hflevel_row', 'Grotrian._compute_zlevel_row',
        'Grotrian._process_level_kwargs', 'Grotrian.bbox', 'Grotrian.calculate_x0']


@observe(inline=GEOM)
def observed_level(g: 'Grotrian', l: 'EnergyLevel', pad: 'num'):
    """a manifold is one horizontal line of the diagram's width, centred on its J, at its energy in THz"""
    return g._compute_level_row(l, bbox_pad=pad)


def given_level(g, l, pad):
    return g.level_ordering == 'J'


def expected_level(g, l, pad):
    import pandas as pd
    x, y, w = l.term.J, l.level_Hz / 10 ** 12, g.level_width
    a, b = (x - w / 2, y), (x + w / 2, y)
    return pd.DataFrame({'level': [l], 'show': [True], 'p0': [a], 'p1': [b],
                         'bbox': [(min(a[0], b[0]) - pad, y, max(a[0], b[0]) + pad, y)],
                         'kwargs': [{'bbox_pad': pad}]})


@observe(inline=GEOM)
def observed_placed(g: 'Grotrian', l: 'EnergyLevel', w: 'num', x0: 'num', x1: 'num', y0: 'num', y1: 'num',
                    box: 'tuple[num,num,num,num]', show: 'bool'):
    """position, shift and width are the caller's if given; a given bounding box is kept"""
    return g._compute_level_row(l, bbox_override=box, show=show, width=w, x0=x0, x1=x1, y0=y0, y1=y1)


def given_placed(g, l, w, x0, x1, y0, y1, box, show):
    return g.level_ordering == 'J'


def expected_placed(g, l, w, x0, x1, y0, y1, box, show):
    import pandas as pd
    return pd.DataFrame({'level': [l], 'show': [show], 'p0': [(x0 + x1 - w / 2, y0 + y1)],
                         'p1': [(x0 + x1 + w / 2, y0 + y1)], 'bbox': [box],
                         'kwargs': [{'width': w, 'x0': x0, 'x1': x1, 'y0': y0, 'y1': y1}]})


@observe(inline=GEOM)
def observed_hyperfine(g: 'Grotrian', l: 'HFLevel', w: 'num', x: 'num', y: 'num', s: 'num', off: 'num',
                       box: 'tuple[num,num,num,num]'):
    """a hyperfine sublevel lies at its scaled shift from its manifold, as wide as its share 2F+1 of the widest one"""
    return g._compute_hflevel_row(l, bbox_override=box, width=w, x0=x, y0=y, hf_scale=s, offset=off)


def given_hyperfine(g, l, w, x, y, s, off, box):
    return g.level_ordering == 'J'


def expected_hyperfine(g, l, w, x, y, s, off, box):
    import pandas as pd
    Fs = [h.term.F for h in l.manifold.sublevels()]
    i = l.term.F - min(Fs)
    half = w * (2 * l.term.F + 1) / int(2 * (l.term.J + l.atom.I) + 1) / 2
    h = y + s / 10 ** 12 * l.shift_Hz
    return pd.DataFrame({'level': [l], 'show': [True], 'p0': [(x + off * w * i - half, h)],
                         'p1': [(x + off * w * i + half, h)], 'bbox': [box],
                         'kwargs': [{'width': w, 'x0': x, 'y0': y, 'hf_scale': s, 'offset': off}]})


@observe(inline=GEOM)
def observed_spacing(g: 'Grotrian', l: 'HFLevel', w: 'num', x: 'num', y: 'num', off: 'num', a: 'num', b: 'num',
                     box: 'tuple[num,num,num,num]', n: 'num'):
    """spacing and width interpolate between the true ones and even ones; squeeze names the sublevel that fills the
    width; the scale is 10000 unless given"""
    return g._compute_hflevel_row(l, bbox_override=box, width=w, x0=x, y0=y, offset=off, sublevel_width=a, spacing=b,
                                  squeeze=n)


def given_spacing(g, l, w, x, y, off, a, b, box, n):
    return g.level_ordering == 'J' and 0 <= a and a <= 1 and 0 <= b and b <= 1


def expected_spacing(g, l, w, x, y, off, a, b, box, n):
    import pandas as pd
    from atomtoolkit.util import float_to_frac
    m = l.manifold
    Fs = [h.term.F for h in m.sublevels()]
    N = len(Fs)
    span = abs(m['F=' + float_to_frac(max(Fs))].shift_Hz - m['F=' + float_to_frac(min(Fs))].shift_Hz)
    i = l.term.F - min(Fs)
    half = (1 - a) * (w - (N - 1) * off * w) / 2 + a * w * (2 * l.term.F + 1) / int(2 * n + 1) / 2
    h = y + (b * l.shift_Hz + (1 - b) * (i - N / 2) * span / N) / 10 ** 8
    return pd.DataFrame({'level': [l], 'show': [True], 'p0': [(x + off * w * i - half, h)],
                         'p1': [(x + off * w * i + half, h)], 'bbox': [box],
                         'kwargs': [{'width': w, 'x0': x, 'y0': y, 'offset': off, 'sublevel_width': a, 'spacing': b,
                                     'squeeze': n}]})


@observe(inline=GEOM)
def observed_squeeze(g: 'Grotrian', l: 'HFLevel', box: 'tuple[num,num,num,num]'):
    """squeeze True fills the width with the widest sublevel of the manifold, False with that of the lowest level"""
    return (g._compute_hflevel_row(l, bbox_override=box, squeeze=True)['p0'],
            g._compute_hflevel_row(l, bbox_override=box, squeeze=False)['p0'])


def given_squeeze(g, l, box):
    return g.level_ordering == 'J'


def expected_squeeze(g, l, box):
    import pandas as pd
    y = l.manifold.level_Hz / 10 ** 12 + l.shift_Hz / 10 ** 8
    a = l.term.J - g.level_width * (2 * l.term.F + 1) / int(2 * (l.term.J + l.atom.I) + 1) / 2
    most = max(h.term.F for h in l.atom.levels[0].values())
    b = l.term.J - g.level_width * (2 * l.term.F + 1) / int(2 * most + 1) / 2
    rows = [pd.DataFrame({'level': [l], 'show': [True], 'p0': [(x, y)], 'p1': [(2 * l.term.J - x, y)], 'bbox': [box],
                          'kwargs': [{'squeeze': s}]}) for x, s in ((a, True), (b, False))]
    return rows[0]['p0'], rows[1]['p0']


@observe(inline=GEOM)
def observed_words(g: 'Grotrian', l: 'HFLevel', box: 'tuple[num,num,num,num]'):
    """realistic and degeneracy mean the true spacing and widths, schematic even ones"""
    x = g._compute_hflevel_row(l, bbox_override=box, sublevel_width='degeneracy', spacing='realistic')
    y = g._compute_hflevel_row(l, bbox_override=box, sublevel_width='schematic', spacing='schematic')
    return x['p0'], x['p1'], y['p0'], y['p1']


def given_words(g, l, box):
    return g.level_ordering == 'J'


def expected_words(g, l, box):
    import pandas as pd
    from atomtoolkit.util import float_to_frac
    m = l.manifold
    Fs = [h.term.F for h in m.sublevels()]
    N = len(Fs)
    span = abs(m['F=' + float_to_frac(max(Fs))].shift_Hz - m['F=' + float_to_frac(min(Fs))].shift_Hz)
    half = g.level_width * (2 * l.term.F + 1) / int(2 * (l.term.J + l.atom.I) + 1) / 2
    y0 = m.level_Hz / 10 ** 12
    y = y0 + l.shift_Hz / 10 ** 8
    z = y0 + (l.term.F - min(Fs) - N / 2) * span / N / 10 ** 8
    x = l.term.J
    k1 = {'sublevel_width': 'degeneracy', 'spacing': 'realistic'}
    k2 = {'sublevel_width': 'schematic', 'spacing': 'schematic'}
    a = pd.DataFrame({'level': [l], 'show': [True], 'p0': [(x - half, y)], 'p1': [(x + half, y)], 'bbox': [box],
                      'kwargs': [k1]})
    b = pd.DataFrame({'level': [l], 'show': [True], 'p0': [(x - g.level_width / 2, z)],
                      'p1': [(x + g.level_width / 2, z)], 'bbox': [box], 'kwargs': [k2]})
    return a['p0'], a['p1'], b['p0'], b['p1']


@observe(inline=GEOM)
def observed_zeeman(g: 'Grotrian', l: 'ZLevel', w: 'num', x: 'num', y: 'num', s: 'num', z: 'num', pad: 'num'):
    """a Zeeman sublevel lies at its scaled hyperfine plus scaled Zeeman shift, side by side in the order of mF, nine
    tenths of the width filled by the sublevels of the widest hyperfine level"""
    return g._compute_zlevel_row(l, width=w, x0=x, y0=y, hf_scale=s, z_scale=z, bbox_pad=pad)


def given_zeeman(g, l, w, x, y, s, z, pad):
    return g.level_ordering == 'J'


def expected_zeeman(g, l, w, x, y, s, z, pad):
    import pandas as pd
    n = int(2 * (l.term.J + l.atom.I) + 1)
    width = 0.9 * w / n
    gap = (1 - 0.9) * w / (n - 1) if n > 1 else 0
    h = y + s / 10 ** 12 * (l.parent.shift_Hz + z * l.shift_Hz)
    c = x + l.term.mF * (width + gap)
    a, b = (c - width / 2, h), (c + width / 2, h)
    return pd.DataFrame({'level': [l], 'show': [True], 'p0': [a], 'p1': [b],
                         'bbox': [(min(a[0], b[0]) - pad, h, max(a[0], b[0]) + pad, h)],
                         'kwargs': [{'width': w, 'x0': x, 'y0': y, 'hf_scale': s, 'z_scale': z, 'bbox_pad': pad}]})


@observe(inline=GEOM)
def observed_zeeman_options(g: 'Grotrian', l: 'ZLevel', f: 'num', b: 'num', n: 'num', x1: 'num', y1: 'num', pad: 'num'):
    """the filled part, spacing, squeeze and shifts are the caller's; the scales are 10000 and 5 unless given"""
    return g._compute_zlevel_row(l, show=False, fill_factor=f, spacing=b, squeeze=n, x1=x1, y1=y1, bbox_pad=pad)


def given_zeeman_options(g, l, f, b, n, x1, y1, pad):
    return g.level_ordering == 'J' and 0 <= b and b <= 1


def expected_zeeman_options(g, l, f, b, n, x1, y1, pad):
    import pandas as pd
    from atomtoolkit.util import float_to_frac
    m = l.manifold
    Fs = [h.term.F for h in m.sublevels()]
    N = len(Fs)
    span = abs(m['F=' + float_to_frac(max(Fs))].shift_Hz - m['F=' + float_to_frac(min(Fs))].shift_Hz)
    k = int(2 * n + 1)
    w = g.level_width
    width = f * w / k
    gap = (1 - f) * w / (k - 1) if k > 1 else 0
    h = m.level_Hz / 10 ** 12 + y1 + (b * (l.parent.shift_Hz + 5 * l.shift_Hz) +
                                      (1 - b) * (l.term.F - min(Fs) - N / 2) * span / N) / 10 ** 8
    c = l.term.J + x1 + l.term.mF * (width + gap)
    p, q = (c - width / 2, h), (c + width / 2, h)
    return pd.DataFrame({'level': [l], 'show': [False], 'p0': [p], 'p1': [q],
                         'bbox': [(min(p[0], q[0]) - pad, h, max(p[0], q[0]) + pad, h)],
                         'kwargs': [{'spacing': b, 'squeeze': n, 'x1': x1, 'y1': y1, 'bbox_pad': pad}]})


@observe(inline=['Grotrian.bbox'])
def observed_bbox(g: 'Grotrian', a: 'tuple[num,num]', b: 'tuple[num,num]', c: 'tuple[num,num]', pad: 'num'):
    """a bounding box surrounds its points: by the pad on both sides, by the pad's share of their height above and below"""
    return g.bbox([a, b, c], pad=pad), g.bbox([a, b])


def expected_bbox(g, a, b, c, pad):
    lo, hi = min(a[1], b[1], c[1]), max(a[1], b[1], c[1])
    l2, h2 = min(a[1], b[1]), max(a[1], b[1])
    d, e = (hi - lo) * pad, (h2 - l2) * 0.05
    return ((min(a[0], b[0], c[0]) - pad, lo - d, max(a[0], b[0], c[0]) + pad, hi + d),
            (min(a[0], b[0]) - 0.05, l2 - e, max(a[0], b[0]) + 0.05, h2 + e))


TABLE = ['Grotrian._hf_level_table', 'Grotrian._zeeman_level_table', 'Grotrian._gross_level_table']
ROWS = ['Grotrian._compute_level_row', 'Grotrian._compute_hflevel_row', 'Grotrian._compute_zlevel_row']


@observe(opaque=ROWS)
def observed_gross_table(g: 'Grotrian', l: 'EnergyLevel', h: 'HFLevel', z: 'ZLevel', w: 'num'):
    """drawn as gross structure, any level is the line of its manifold"""
    return (g._gross_level_table(l, width=w), g._gross_level_table(h, width=w), g._gross_level_table(z, width=w))


def expected_gross_table(g, l, h, z, w):
    return (g._compute_level_row(l, width=w), g._compute_level_row(h.manifold, width=w),
            g._compute_level_row(z.manifold, width=w))


@observe(opaque=ROWS + ['Grotrian.bbox'])
def observed_hf_table(g: 'Grotrian', l: 'EnergyLevel', h: 'HFLevel', w: 'num', box: 'str'):
    """drawn as hyperfine structure, a manifold is all its hyperfine sublevels, without boxes of their own, plus an
    invisible row for the manifold whose box surrounds them all"""
    return g._hf_level_table(l, width=w, bbox=box), g._hf_level_table(h, width=w, bbox=box)


def expected_hf_table(g, l, h, w, box):
    import pandas as pd
    t = pd.concat([g._compute_hflevel_row(x, width=w, bbox=None) for x in l.sublevels()], ignore_index=True)
    pts = list(t['p0']) + list(t['p1'])
    return (pd.concat([t, g._compute_level_row(l, bbox_override=g.bbox(pts), show=False, width=w, bbox=box)],
                      ignore_index=True), g._compute_hflevel_row(h, width=w, bbox=box))


@observe(opaque=ROWS + ['Grotrian.bbox'])
def observed_zeeman_table(g: 'Grotrian', h: 'HFLevel', z: 'ZLevel', l: 'EnergyLevel', w: 'num', box: 'str'):
    """drawn as Zeeman structure, a hyperfine level is all its Zeeman sublevels plus its own invisible row around them"""
    return g._zeeman_level_table(h, width=w, bbox=box), g._zeeman_level_table(z, width=w, bbox=box)


def expected_zeeman_table(g, h, z, l, w, box):
    import pandas as pd
    t = pd.concat([g._compute_zlevel_row(x, width=w, bbox=None) for x in h.sublevels()], ignore_index=True)
    pts = list(t['p0']) + list(t['p1'])
    return (pd.concat([t, g._compute_hflevel_row(h, bbox_override=g.bbox(pts), show=False, width=w, bbox=box)],
                      ignore_index=True), g._compute_zlevel_row(z, width=w, bbox=box))


@observe(inline=['Grotrian.compute_arrow'])
def observed_arrow(g: 'Grotrian', a: 'EnergyLevel', b: 'EnergyLevel', x0: 'num', x1: 'num', y0: 'num', y1: 'num',
                   lw: 'num'):
    """an arrow leads from the box of the first level to that of the second, from centre to centre unless anchored
    elsewhere, each end shifted by its own offsets"""
    return (g.compute_arrow((a, b), start_x1=x0, end_x1=x1, start_y1=y0, end_y1=y1, lw=lw),
            g.compute_arrow((a, b), start_anchor=1, end_anchor=9),
            g.compute_arrow((a, b), start_anchor=2, end_anchor=8),
            g.compute_arrow((a, b), start_anchor=3, end_anchor=7),
            g.compute_arrow((a, b), start_anchor=4, end_anchor=6))


def expected_arrow(g, a, b, x0, x1, y0, y1, lw):
    from matplotlib.patches import FancyArrowPatch
    d = g.lines_df
    A = list(d[d['level'] == a]['bbox'])[0]
    B = list(d[d['level'] == b]['bbox'])[0]

    def at(box, u, v, dx, dy):
        return ((1 - u) * box[0] + u * box[2] + dx, (1 - v) * box[1] + v * box[3] + dy)
    return (FancyArrowPatch(posA=at(A, .5, .5, x0, y0), posB=at(B, .5, .5, x1, y1), lw=lw),
            FancyArrowPatch(posA=at(A, 0, 1, 0, 0), posB=at(B, 1, 0, 0, 0)),
            FancyArrowPatch(posA=at(A, .5, 1, 0, 0), posB=at(B, .5, 0, 0, 0)),
            FancyArrowPatch(posA=at(A, 1, 1, 0, 0), posB=at(B, 0, 0, 0, 0)),
            FancyArrowPatch(posA=at(A, 0, .5, 0, 0), posB=at(B, 1, .5, 0, 0)))


@observe(inline=['Grotrian.compute_arrow'])
def observed_transition_arrow(g: 'Grotrian', t: 'Transition'):
    """the arrow of a transition leads from its lower to its upper level"""
    return g.compute_arrow(t)


def expected_transition_arrow(g, t):
    return g.compute_arrow((t.E_lower, t.E_upper))


@observe(opaque=ROWS + ['Grotrian.bbox'])
def observed_zeeman_manifold(g: 'Grotrian', l: 'EnergyLevel', w: 'num', box: 'str'):
    """a manifold drawn as Zeeman structure is that of all its hyperfine levels plus its own invisible row around them"""
    return g._zeeman_level_table(l, width=w, bbox=box)


def expected_zeeman_manifold(g, l, w, box):
    import pandas as pd
    tables = []
    for h in l.sublevels():
        t = pd.concat([g._compute_zlevel_row(x, width=w, bbox=None) for x in h.sublevels()], ignore_index=True)
        row = g._compute_hflevel_row(h, bbox_override=g.bbox(list(t['p0']) + list(t['p1'])), show=False, width=w,
                                     bbox=None)
        tables.append(pd.concat([t, row], ignore_index=True))
    t = pd.concat(tables, ignore_index=True)
    return pd.concat([t, g._compute_level_row(l, bbox_override=g.bbox(list(t['p0']) + list(t['p1'])), show=False,
                                              width=w, bbox=box)], ignore_index=True)


@observe(inline=['Grotrian.compute_arrow'])
def observed_sublevel_arrow(g: 'Grotrian', h: 'HFLevel', z: 'ZLevel', b: 'EnergyLevel'):
    """an arrow from a sublevel starts at the box of the sublevel if it is drawn, else of the level above it that is"""
    return g.compute_arrow((h, b)), g.compute_arrow((z, b))


def expected_sublevel_arrow(g, h, z, b):
    from matplotlib.patches import FancyArrowPatch
    d = g.lines_df
    drawn = list(d['level'])

    def centre(level):
        box = list(d[d['level'] == level]['bbox'])[0]
        return (box[0] + box[2]) / 2, (box[1] + box[3]) / 2
    if h in drawn:
        p = centre(h)
    elif h.manifold in drawn:
        p = centre(h.manifold)
    else:
        p = None
    if z in drawn:
        q = centre(z)
    elif z.parent in drawn:
        q = centre(z.parent)
    elif z.manifold in drawn:
        q = centre(z.manifold)
    else:
        q = None
    return FancyArrowPatch(posA=p, posB=centre(b)), FancyArrowPatch(posA=q, posB=centre(b))


@observe(effects=True, inline=['Grotrian.add_level'])
def observed_add(g: 'Grotrian', l: 'EnergyLevel', w: 'num'):
    """adding a level appends one prompt that remembers the level, how to draw it and its options"""
    g.add_level(l, 'g', width=w)
    g.add_level(l, 'gross')
    g.add_level(l, 'hf')
    g.add_level(l, 'hyperfine', width=w)
    g.add_level(l, 'z')
    g.add_level(l, 'zeeman')


def expected_add(g, l, w):
    import pandas as pd
    for how, kw in ((g._gross_level_table, {'width': w}), (g._gross_level_table, {}), (g._hf_level_table, {}),
                    (g._hf_level_table, {'width': w}), (g._zeeman_level_table, {}), (g._zeeman_level_table, {})):
        g.level_prompts = pd.concat([g.level_prompts, pd.DataFrame({'level': [l], 'strategy': [how],
                                                                    'kwargs': [kw]})], ignore_index=True)


@observe(effects=True, inline=['Grotrian.add_level'])
def observed_add_default(g: 'Grotrian', l: 'EnergyLevel', f: 'fn'):
    """the way of drawing defaults to the diagram's own, and may be a function"""
    g.add_level(l)
    g.add_level(l, f)


def given_add_default(g, l, f):
    return g.add_level_strategy == 'hf'


def expected_add_default(g, l, f):
    import pandas as pd
    for how in (g._hf_level_table, f):
        g.level_prompts = pd.concat([g.level_prompts, pd.DataFrame({'level': [l], 'strategy': [how],
                                                                    'kwargs': [{}]})], ignore_index=True)


@observe(inline_new=['Grotrian'])
def observed_new():
    """a new diagram is empty, orders levels by J, is 0.8 wide per level and draws gross structure"""
    from atomtoolkit.render.grotrian import Grotrian
    g = Grotrian()
    return g.level_width, g.level_ordering, g.add_level_strategy, g.level_prompts, g.transition_prompts


def expected_new():
    import pandas as pd
    return 0.8, 'J', 'gross', pd.DataFrame(), pd.DataFrame()


@observe(effects=True, inline=['Grotrian.render'], opaque=['Grotrian.render_levels', 'Grotrian.render_transitions'])
def observed_render(g: 'Grotrian', ax: 'any'):
    """rendering draws all levels, then all transitions, in the given axes and fits them"""
    g.render(ax)


def given_render(g, ax):
    return ax is not None


def expected_render(g, ax):
    g.render_levels(ax)
    g.render_transitions(ax)
    ax.autoscale()


@observe(effects=True, inline=['Grotrian.add_transition'])
def observed_add_transition(g: 'Grotrian', t: 'Transition', x: 'num', c: 'str'):
    """adding a transition appends one prompt that remembers it and its options"""
    g.add_transition(t, True, c, start_x1=x)


def given_add_transition(g, t, x, c):
    return True


def expected_add_transition(g, t, x, c):
    import pandas as pd
    g.transition_prompts = pd.concat([g.transition_prompts, pd.DataFrame({
        't': [t], 'substructure': [True], 'color_func': [c], 'kwargs': [{'start_x1': x}]})])


@observe(effects=True, inline=['Grotrian.render_transitions'], opaque=['Grotrian.compute_arrow'])
def observed_render_transitions(g: 'Grotrian', ax: 'any'):
    """every added transition is drawn as its own arrow"""
    g.render_transitions(ax)


def expected_render_transitions(g, ax):
    for _, row in g.transition_prompts.iterrows():
        ax.add_patch(g.compute_arrow(row['t'], **row['kwargs']))


@observe(effects=True, inline=['Grotrian.render_levels'])
def observed_render_levels(g: 'Grotrian', ax: 'any'):
    """each rendering draws exactly the levels added, each once: the shown rows of their tables as lines in their own
    colour and width, and the boxes and brackets asked for"""
    g.render_levels(ax)


def expected_render_levels(g, ax):
    import pandas as pd
    from matplotlib.collections import LineCollection, PatchCollection
    from matplotlib.patches import Rectangle
    table = g.lines_df.iloc[0:0]
    for _, row in g.level_prompts.iterrows():
        table = pd.concat([table, pd.DataFrame(row['strategy'](row['level'], **row['kwargs']))], ignore_index=True)
    g.lines_df = table
    rects, ticks = [], []
    for _, row in table.iterrows():
        kind = row['kwargs'].get('bbox', None)
        if kind is not None:
            x0, y0, x1, y1 = row['bbox']
            if kind in ('rect', 'rectangle'):
                rects.append(Rectangle((x0, y0), x1 - x0, y1 - y0, alpha=row['kwargs'].get('rect_alpha', 0.2),
                                       color=row['kwargs'].get('rect_color', None),
                                       fill=row['kwargs'].get('rect_fill', True)))
            elif kind == 'bracket':
                h = row['kwargs'].get('bracket_h', 0.05)
                ticks += [[(x0 + h, y0), (x0, y0), (x0, y1), (x0 + h, y1)],
                          [(x1 - h, y0), (x1, y0), (x1, y1), (x1 - h, y1)]]
    boxed = [d for d in table['kwargs'] if d.get('bbox', False)]
    ax.add_collection(LineCollection(ticks, colors=[d.get('bracket_color', (0, 0, 0, 0.8)) for d in boxed],
                                     linewidths=[d.get('bracket_lw', 1) for d in boxed]))
    ax.add_collection(PatchCollection(rects, match_original=True))
    shown = table[table['show']]
    ax.add_collection(LineCollection(list(zip(shown['p0'].tolist(), shown['p1'].tolist())),
                                     colors=[d.get('color', (0, 0, 0, 1)) for d in shown['kwargs']],
                                     linewidths=[d.get('linewidth', 2) for d in shown['kwargs']]))


@observe(effects=True, inline=['draw_levels'])
def observed_quick(a: 'Atom', kind: 'str', size: 'num'):
    """the quick drawing puts every level at its J and its energy in THz and draws the links of the structure asked for, on
    a copy, so that the atom stays as it is"""
    from atomtoolkit.render.grotrian import draw_levels
    draw_levels(a, kind, node_size=size)
    draw_levels(a)


def expected_quick(a, kind, size):
    import networkx as nx
    places = {}
    for x in a.levels.values():
        places[x.name] = (x.term.J, x.level_Hz / 10 ** 12)

    def one(graph, **kw):
        g = graph.copy()
        for n in g.nodes():
            try:
                g.remove_edge(n, n)
            except nx.NetworkXError:
                pass
        nx.draw(g, pos=places, node_shape="_", with_labels=True, font_size=8, edge_color=(0, 0, 0, 0.2), **kw)
    one(a._hfModel if kind == 'hf' else a._zModel if kind == 'z' else a._levelsModel, node_size=size)
    one(a._levelsModel)


@observe(inline=GEOM)
def observed_hyperfine_box(g: 'Grotrian', l: 'HFLevel', x: 'num', x1: 'num', y1: 'num', pad: 'num'):
    """a hyperfine sublevel's own box surrounds it by the pad the caller names, 0.05 unless given, and shifts go with it"""
    return (g._compute_hflevel_row(l, x0=x, x1=x1, y1=y1, bbox_pad=pad), g._compute_hflevel_row(l, show=False, x0=x),
            g._compute_level_row(l.manifold, x0=x)['bbox'])


def given_hyperfine_box(g, l, x, x1, y1, pad):
    return g.level_ordering == 'J'


def expected_hyperfine_box(g, l, x, x1, y1, pad):
    import pandas as pd
    half = g.level_width * (2 * l.term.F + 1) / int(2 * (l.term.J + l.atom.I) + 1) / 2
    h = l.manifold.level_Hz / 10 ** 12 + l.shift_Hz / 10 ** 8
    y = l.manifold.level_Hz / 10 ** 12
    p, q = (x + x1 - half, h + y1), (x + x1 + half, h + y1)
    a = pd.DataFrame({'level': [l], 'show': [True], 'p0': [p], 'p1': [q],
                      'bbox': [(min(p[0], q[0]) - pad, h + y1, max(p[0], q[0]) + pad, h + y1)],
                      'kwargs': [{'x0': x, 'x1': x1, 'y1': y1, 'bbox_pad': pad}]})
    b = pd.DataFrame({'level': [l], 'show': [False], 'p0': [(x - half, h)], 'p1': [(x + half, h)],
                      'bbox': [(min(x - half, x + half) - 0.05, h, max(x - half, x + half) + 0.05, h)],
                      'kwargs': [{'x0': x}]})
    u, v = x - g.level_width / 2, x + g.level_width / 2
    c = pd.DataFrame({'level': [l.manifold], 'show': [True], 'p0': [(u, y)], 'p1': [(v, y)],
                      'bbox': [(min(u, v) - 0.05, y, max(u, v) + 0.05, y)], 'kwargs': [{'x0': x}]})
    return a, b, c['bbox']


@observe(inline=['Grotrian.compute_arrow'])
def observed_anchors(g: 'Grotrian', a: 'EnergyLevel', b: 'EnergyLevel', u: 'num', v: 'num', dx: 'num', dy: 'num'):
    """an anchor may be given as the weights of the box's sides, and every numbered anchor means the same at both ends"""
    return (g.compute_arrow((a, b), start_anchor=(1 - u, v, u, 1 - v), end_anchor=(u, 1 - v, 1 - u, v), end_x1=dx,
                            end_y1=dy),
            g.compute_arrow((a, b), start_anchor=9, end_anchor=1), g.compute_arrow((a, b), start_anchor=8, end_anchor=2),
            g.compute_arrow((a, b), start_anchor=7, end_anchor=3), g.compute_arrow((a, b), start_anchor=6, end_anchor=4))


def expected_anchors(g, a, b, u, v, dx, dy):
    from matplotlib.patches import FancyArrowPatch
    d = g.lines_df
    A = list(d[d['level'] == a]['bbox'])[0]
    B = list(d[d['level'] == b]['bbox'])[0]

    def at(box, x, y, mx, my):
        return ((1 - x) * box[0] + x * box[2] + mx, y * box[1] + (1 - y) * box[3] + my)
    return (FancyArrowPatch(posA=at(A, u, v, 0, 0), posB=at(B, 1 - u, 1 - v, dx, dy)),
            FancyArrowPatch(posA=at(A, 1, 1, 0, 0), posB=at(B, 0, 0, 0, 0)),
            FancyArrowPatch(posA=at(A, .5, 1, 0, 0), posB=at(B, .5, 0, 0, 0)),
            FancyArrowPatch(posA=at(A, 0, 1, 0, 0), posB=at(B, 1, 0, 0, 0)),
            FancyArrowPatch(posA=at(A, 1, .5, 0, 0), posB=at(B, 0, .5, 0, 0)))


@observe(inline=['Grotrian.compute_arrow'])
def observed_override(g: 'Grotrian', z: 'ZLevel', h: 'HFLevel', b: 'EnergyLevel', lw: 'num'):
    """either end can be sent to the box of the drawn level above a sublevel, even where the sublevel itself is drawn"""
    return (g.compute_arrow((z, b), override_bbox=('hf', False), lw=lw),
            g.compute_arrow((z, h), override_bbox=('hyperfine', 'gross')),
            g.compute_arrow((b, h), override_bbox=(False, 'manifold')),
            g.compute_arrow((b, h), override_bbox=(False, 'g')))


def given_override(g, z, h, b, lw):
    d = list(g.lines_df['level'])
    return z.parent in d and h.manifold in d


def expected_override(g, z, h, b, lw):
    from matplotlib.patches import FancyArrowPatch
    d = g.lines_df

    def centre(level):
        box = list(d[d['level'] == level]['bbox'])[0]
        return (box[0] + box[2]) / 2, (box[1] + box[3]) / 2
    m = centre(h.manifold)
    return (FancyArrowPatch(posA=centre(z.parent), posB=centre(b), lw=lw),
            FancyArrowPatch(posA=centre(z.parent), posB=m), FancyArrowPatch(posA=centre(b), posB=m),
            FancyArrowPatch(posA=centre(b), posB=m))
