@observe(effects=True, inline=['plot_transitions'])
def observed_plot(lines: 'list[HFTransition]', shape: 'LorentzianLineShape', total: 'bool'):
    """every line is drawn at its own frequency with its own relative strength, and the total is the sum of all of them
    on the union of their grids"""
    from atomtoolkit.render.spectra import plot_transitions
    plot_transitions(lines, shape, total=total)


def expected_plot(lines, shape, total):
    from matplotlib import pyplot as plt
    import numpy as np
    xs, ys = [], []
    for t in lines:
        x, y = shape.compute(t.freq.to('GHz').magnitude, ampl=t.rel_strength)
        plt.plot(x, y, label=t.E_lower.term.short_name + ' → ' + t.E_upper.term.short_name, c=(0, 0, 0, 1))
        xs.append(x)
        ys.append(y)
    if total:
        grid = np.sort(np.array(xs).flatten())
        y = np.zeros_like(grid)
        for i, curve in enumerate(ys):
            y += np.interp(grid, xs[i], curve)
        plt.plot(grid, y, "k:", label="Total", alpha=0.5)
    plt.ylim(0, None)
    plt.xlabel("Frequency (GHz)")
    plt.legend()


@observe(effects=True, inline=['plot_transitions'])
def observed_weighted(lines: 'list[HFTransition]', shape: 'LorentzianLineShape', weights: 'dict[str,num]',
                      name: 'fn', color: 'fn'):
    """the caller chooses label, colour, unit and an extra weight per line; no weight leaves the strengths alone"""
    from atomtoolkit.render.spectra import plot_transitions
    plot_transitions(lines, shape, label_func=name, color_func=color, ampl_dict=weights, unit='MHz', total=False)
    plot_transitions(lines, shape, label_func=name, color_func=color, ampl_dict=None, unit='THz', total=False)


def expected_weighted(lines, shape, weights, name, color):
    from matplotlib import pyplot as plt
    for t in lines:
        x, y = shape.compute(t.freq.to('MHz').magnitude, ampl=t.rel_strength * weights[t.name])
        plt.plot(x, y, label=name(t), c=color(t))
    plt.ylim(0, None)
    plt.xlabel("Frequency (GHz)")
    plt.legend()
    for t in lines:
        x, y = shape.compute(t.freq.to('THz').magnitude, ampl=t.rel_strength)
        plt.plot(x, y, label=name(t), c=color(t))
    plt.ylim(0, None)
    plt.xlabel("Frequency (GHz)")
    plt.legend()


@observe(effects=True, inline=['plot_transitions', 'plot_spectrum'], inline_new=['LorentzianLineShape'])
def observed_spectrum(lines: 'list[Transition]', shape: 'LorentzianLineShape', weights: 'opt[dict[str,num]]'):
    """a spectrum drawn with an explicit lineshape is the plot of exactly the given lines with that lineshape"""
    from atomtoolkit.render.spectra import plot_spectrum
    plot_spectrum(lines, shape, ampl_dict=weights)


def expected_spectrum(lines, shape, weights):
    from atomtoolkit.render.spectra import plot_transitions
    plot_transitions(lines, shape, ampl_dict=weights, color_func=lambda t: (0, 0, 0, 1))


@observe(effects=True, inline=['plot_transitions', 'plot_spectrum'], inline_new=['LorentzianLineShape'],
         ref_new=['LorentzianLineShape'])
def observed_cold(lines: 'list[Transition]', T: 'Quantity', g: 'Quantity', m: 'opt[Quantity]'):
    """at zero temperature the lineshape is a Lorentzian as wide as the laser"""
    from atomtoolkit.render.spectra import plot_spectrum
    plot_spectrum(lines, temp=T, laser_linewidth=g, mass=m)


def given_cold(lines, T, g, m):
    return T.magnitude == 0


def expected_cold(lines, T, g, m):
    from atomtoolkit.render.spectra import plot_transitions
    from atomtoolkit.render.lineshapes import LorentzianLineShape
    plot_transitions(lines, LorentzianLineShape(g.to('GHz').magnitude), color_func=lambda t: (0, 0, 0, 1))


@observe(effects=True, inline=['plot_transitions', 'plot_spectrum'], inline_new=['ThermalLineShape'],
         ref_new=['ThermalLineShape'])
def observed_thermal(lines: 'list[Transition]', T: 'Quantity', g: 'Quantity', m: 'Quantity'):
    """otherwise it is the thermal lineshape of that temperature, mass and laser width"""
    from atomtoolkit.render.spectra import plot_spectrum
    plot_spectrum(lines, temp=T, laser_linewidth=g, mass=m)


def given_thermal(lines, T, g, m):
    return T.magnitude > 0


def expected_thermal(lines, T, g, m):
    from atomtoolkit.render.spectra import plot_transitions
    from atomtoolkit.render.lineshapes import ThermalLineShape
    plot_transitions(lines, ThermalLineShape(T=T, m=m, gamma=g.to('GHz').magnitude), color_func=lambda t: (0, 0, 0, 1))


@observe(effects=True, inline=['plot_transitions', 'plot_spectrum', 'plot_hyperfine_spectrum'])
def observed_hyperfine(t: 'Transition', ts: 'list[Transition]', shape: 'LorentzianLineShape'):
    """the hyperfine spectrum of a transition, or of a list of them, has one line per hyperfine component of each"""
    from atomtoolkit.render.spectra import plot_hyperfine_spectrum
    plot_hyperfine_spectrum(t, shape)
    plot_hyperfine_spectrum(ts, shape)


def expected_hyperfine(t, ts, shape):
    from atomtoolkit.render.spectra import plot_spectrum
    plot_spectrum(list(t.values()), lineshape=shape, coloring='l')
    plot_spectrum([h for x in ts for h in x.values()], lineshape=shape, coloring='l')


@observe(effects=True, inline=['plot_transitions', 'plot_zeeman_spectrum'])
def observed_zeeman(h: 'HFTransition', t: 'Transition', hs: 'list[HFTransition]', zs: 'list[ZTransition]',
                    shape: 'LorentzianLineShape', color: 'fn'):
    """the Zeeman spectrum of a hyperfine transition, of a whole transition, or of a list of hyperfine transitions has one
    line per Zeeman component"""
    from atomtoolkit.render.spectra import plot_zeeman_spectrum
    plot_zeeman_spectrum(h, shape, coloring=color)
    plot_zeeman_spectrum(t, shape, coloring=color)
    plot_zeeman_spectrum(hs, shape, coloring=color)


def expected_zeeman(h, t, hs, zs, shape, color):
    from atomtoolkit.render.spectra import plot_transitions

    plot_transitions(list(h.values()), shape, color_func=color, unit='GHz')
    plot_transitions([z for y in t.values() for z in y.values()], shape, color_func=color, unit='GHz')
    plot_transitions([z for y in hs for z in y.values()], shape, color_func=color, unit='GHz')


@observe(effects=True, inline=['plot_transitions', 'plot_spectrum'], opaque=['color_table_from_property'])
def observed_colors(hs: 'list[HFTransition]', zs: 'list[ZTransition]', shape: 'LorentzianLineShape', cmap: 'str'):
    """hyperfine and Zeeman lines are coloured by the quantum number the caller names, and shaded by the other one,
    with the colour map the caller names"""
    from atomtoolkit.render.spectra import plot_spectrum
    plot_spectrum(hs, shape, coloring='l')
    plot_spectrum(hs, shape, coloring='u')
    plot_spectrum(zs, shape, coloring='l')
    plot_spectrum(zs, shape, coloring='u')
    plot_spectrum(zs, shape, coloring='transition_type')
    plot_spectrum(hs, shape, coloring='l', cmap=cmap)
    plot_spectrum(hs, shape, coloring='u', cmap=cmap)
    plot_spectrum(zs, shape, coloring='l', cmap=cmap)
    plot_spectrum(zs, shape, coloring='u', cmap=cmap)
    plot_spectrum(zs, shape, coloring='transition_type', cmap=cmap)


def given_colors(hs, zs, shape, cmap):
    return len(hs) > 0 and len(zs) > 0


def expected_colors(hs, zs, shape, cmap):
    from atomtoolkit.render.spectra import plot_transitions, color_table_from_property

    def table(lines, hue, shade, cmap):
        tab = color_table_from_property(lines, hue, shade, cmap)
        plot_transitions(lines, shape, color_func=lambda t: tab[t])
    table(hs, lambda t: t.E_lower.term.F, lambda t: t.E_upper.term.F, 'tab10')
    table(hs, lambda t: t.E_upper.term.F, lambda t: t.E_lower.term.F, 'tab10')
    table(zs, lambda t: t.E_lower.term.mF, lambda t: t.E_upper.term.mF, 'tab10')
    table(zs, lambda t: t.E_upper.term.mF, lambda t: t.E_lower.term.mF, 'tab10')
    table(zs, lambda t: t.E_upper.term.mF - t.E_lower.term.mF, lambda t: t.E_lower.term.mF, 'tab10')
    table(hs, lambda t: t.E_lower.term.F, lambda t: t.E_upper.term.F, cmap)
    table(hs, lambda t: t.E_upper.term.F, lambda t: t.E_lower.term.F, cmap)
    table(zs, lambda t: t.E_lower.term.mF, lambda t: t.E_upper.term.mF, cmap)
    table(zs, lambda t: t.E_upper.term.mF, lambda t: t.E_lower.term.mF, cmap)
    table(zs, lambda t: t.E_upper.term.mF - t.E_lower.term.mF, lambda t: t.E_lower.term.mF, cmap)


@observe(effects=True, inline=['plot_transitions', 'plot_zeeman_spectrum'], opaque=['color_table_from_property'])
def observed_zeeman_colors(hs: 'list[HFTransition]', shape: 'LorentzianLineShape', cmap: 'str'):
    """Zeeman lines are coloured by the lower mF, the upper mF, or their difference, which is the default, with the map the
    caller names"""
    from atomtoolkit.render.spectra import plot_zeeman_spectrum
    plot_zeeman_spectrum(hs, shape, coloring='l', cmap=cmap)
    plot_zeeman_spectrum(hs, shape, coloring='u')
    plot_zeeman_spectrum(hs, shape)
    plot_zeeman_spectrum(hs, shape, coloring='u', cmap=cmap)
    plot_zeeman_spectrum(hs, shape, cmap=cmap)


def expected_zeeman_colors(hs, shape, cmap):
    from atomtoolkit.render.spectra import plot_transitions, color_table_from_property
    lines = [z for y in hs for z in y.values()]

    def table(hue, shade, cmap):
        tab = color_table_from_property(lines, hue, shade, cmap)
        plot_transitions(lines, shape, color_func=lambda t: tab[t], unit='GHz')
    table(lambda t: t.E_lower.term.mF, lambda t: t.E_upper.term.mF, cmap)
    table(lambda t: t.E_upper.term.mF, lambda t: t.E_lower.term.mF, 'tab10')
    table(lambda t: t.E_upper.term.mF - t.E_lower.term.mF, lambda t: t.E_lower.term.mF, 'tab10')
    table(lambda t: t.E_upper.term.mF, lambda t: t.E_lower.term.mF, cmap)
    table(lambda t: t.E_upper.term.mF - t.E_lower.term.mF, lambda t: t.E_lower.term.mF, cmap)
