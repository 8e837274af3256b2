@observe(inline=['color_table_from_property'])
def observed_table(lines: 'list[ZTransition]', hue: 'fn', shade: 'fn', cmap: 'str'):
    """every line has a colour: the hue and saturation are those of the colour map at the rank of its first property among
    the values that occur, the lightness grows from 0.2 towards 0.8 with its second property, counted from the lowest of
    the lines of that hue and scaled to their number"""
    from atomtoolkit.render.spectra import color_table_from_property
    return color_table_from_property(lines, hue, shade, cmap)


def expected_table(lines, hue, shade, cmap):
    import colorsys
    import matplotlib.colors
    import numpy as np
    from matplotlib import pyplot as plt
    out = {}
    values = [hue(x) for x in lines]
    ranks = list(np.unique(values))
    for t in lines:
        same = [shade(x) for x in lines if hue(x) == hue(t)]
        r, g, b = matplotlib.colors.to_rgb(plt.get_cmap(cmap)(ranks.index(hue(t))))
        h, l, s = colorsys.rgb_to_hls(r, g, b)
        light = 0.2 + 0.6 * (shade(t) - min(same) + 1) / (len(same) + 1)
        out[t] = colorsys.hls_to_rgb(h, light, s)
    return out
