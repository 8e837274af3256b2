"""Property data; tools/gen_docs.py turns it into properties.jsonl and MANIFEST.json."""
A = 'atomtoolkit/atom.py'
TS = 'atomtoolkit/transition_strengths.py'
U = 'atomtoolkit/util.py'
T = 'atomtoolkit/term.py'
IO = 'atomtoolkit/IO.py'

P = []


def prop(pid, title, statement, over, quant, why, files, mechanism, state=None, na=None, note=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mechanism=mechanism, state=state or [], na=na, note=note))


prop('C01', 'A sublevel energy is always its parent energy plus its own shift',
     'At any moment, the energy of a hyperfine sublevel equals the current energy of its manifold plus its own '
     'hyperfine shift, and the energy of a Zeeman sublevel equals the current energy of its hyperfine level plus its '
     'own Zeeman shift. Moving the manifold, changing a hyperfine coefficient or changing the magnetic field is '
     'visible in every sublevel at once, and the plain-number and unit-carrying readings always agree.',
     ['inputs', 'histories'], 'every level, every sublevel, every later change of energies, coefficients or field',
     'Tests read a few sublevels of a few atoms once; they do not cover every order of changing and reading.',
     [A], [('sublevel energies computed on read', A + ': HFLevel.level_Hz'),
           ('manifold energy', A + ': EnergyLevel.level_Hz'),
           ('shifts', A + ': HFLevel.shift_Hz, ZLevel.shift_Hz')])

prop('C02', 'Setting any level energy reads back and moves exactly its manifold',
     'Assigning an energy to a manifold, a hyperfine sublevel or a Zeeman sublevel makes that level read back as '
     'exactly that energy. For a sublevel this moves its manifold by the same difference and changes nothing else: '
     'no shift, coefficient, field or other manifold.',
     ['inputs', 'histories'], 'every level of every kind, every assigned energy in every unit',
     'Tests assign to one or two levels and never check what else was written.',
     [A], [('setters', A + ': BaseLevel.level, EnergyLevel.level, HFLevel.level, HFLevel.level_Hz')])

prop('C03', 'Hyperfine shifts follow the A, B and C formula',
     'The hyperfine shift of a sublevel is A K/2 plus the standard quadrupole (B) and octupole (C) terms with '
     'K = F(F+1) - I(I+1) - J(J+1). The B term is present exactly when I >= 1 and J >= 1 and the C term exactly when '
     'I >= 3/2 and J >= 3/2; each is the textbook expression for every I, J and F.',
     ['inputs'], 'all I, J, F and all A, B, C',
     'Tests compare a handful of (I, J, F) points; the octupole denominator was wrong until this work.',
     [A], [('hyperfine shift', A + ': HFLevel.compute_hf_shift, HFLevel.shift_Hz')])

prop('C04', 'Zeeman shifts and gF follow the Lande formula and the current field',
     'gF of a hyperfine level is gJ [F(F+1)+J(J+1)-I(I+1)] / [2F(F+1)] with the gJ of its manifold, and zero for F = 0; '
     'its Zeeman sublevels carry the same gF and no quadratic shift of their own. A Zeeman shift is gF mF muB B plus '
     'the quadratic coefficient times B squared, with muB = 1.39962449361 MHz/G and B the current field of the atom in '
     'gauss, and the field reads back as the quantity it was set to.',
     ['inputs', 'histories'], 'all I, J, F, mF, gJ, all field values and later changes of the field',
     'Tests check two or three sublevels at one field.',
     [A], [('gF', A + ': HFLevel.compute_gF'), ('Zeeman shift', A + ': ZLevel.shift_Hz'), ('field', A + ': Atom.B')])

prop('C05', 'An unspecified gJ is the weighted LS estimate; a given one is kept',
     'When no Lande factor is given, gJ is the percentage-weighted mean over the terms of the level of the Lande '
     'factors 1 + 1.0023 [J(J+1)+S(S+1)-L(L+1)] / [2J(J+1)] of their LS components, each weighted by its squared '
     'amplitude, and 0 when J = 0 or when a jj or jK term lacks the quantum numbers for it. A Lande factor that is given, zero included, is '
     'kept as it is.',
     ['inputs'], 'all mixtures of terms in LS, jj, jK and LK coupling, all J',
     'Tests cover a few pure terms; mixtures and missing quantum numbers are not covered.',
     [A, TS], [('estimate', A + ': EnergyLevel.compute_gJ'), ('recoupling', TS + ': JJ_to_LS, JK_to_LS, LK_to_LS')])

prop('C06', 'Every manifold has exactly the F and mF sublevels angular momentum allows',
     'Populating a manifold creates one hyperfine sublevel for every F from |J-I| to J+I in unit steps and nothing '
     'else, each under its own F= label; populating a hyperfine level creates one Zeeman sublevel for every mF from -F '
     'to F in unit steps, each under its own mF= label. A Zeeman sublevel has no sublevels.',
     ['inputs'], 'all I and J, integer and half-integer',
     'Tests sample a few I and J.',
     [A], [('enumeration', A + ': EnergyLevel.populate_sublevels, HFLevel.populate_sublevels')])

prop('C07', 'Units never matter: a quantity in any unit is stored as that quantity',
     'Level energies, hyperfine coefficients, the magnetic field, A coefficients and imposed frequencies may be given '
     'in any unit of their dimension, at construction or by assignment, and read back as the same physical quantity, '
     'with the plain-number readings in Hz and gauss. Hyperfine coefficients that are not given are zero, a transition '
     'without an A coefficient has none, and the nuclear spin may be given as a fraction string.',
     ['inputs'], 'all quantities in all units',
     'Tests use one or two units per attribute.',
     [A], [('constructors and setters', A + ': EnergyLevel, Atom, Transition, BaseTransition.compute_linewidth')])

prop('C08', 'Frequency, wavelength and upper/lower level follow the two energies',
     'The frequency of a transition of any kind is always the absolute difference of the current energies of its two '
     'levels, as a number in Hz and as a quantity, and its wavelength is that frequency in nanometres. When a '
     'transition is made, its upper level is the one with the higher energy (the first one on a tie), and it keeps '
     'both levels in the order given.',
     ['inputs', 'histories'], 'all pairs of levels of every kind, all later energy changes',
     'Tests check a few pairs.',
     [A], [('frequency', A + ': BaseTransition.freq_Hz, freq, wl'), ('ordering', A + ': BaseTransition.__init__')])

prop('C09', 'Setting a frequency imposes it and moves only what must move',
     'Setting the frequency of a transition stores it and re-imposes the fixed frequencies on the connected part of '
     'the atom holding it; for a hyperfine or Zeeman component the transition above is set so as to move by the same difference. '
     'Re-imposing walks every connected group of fixed-frequency transitions outwards from its lowest level and at '
     'each step puts the unlocked level (the upper one if neither is locked) at the fixed frequency from the other one and locks both; '
     'two locked levels that contradict a frequency are left alone with a warning.',
     ['inputs', 'histories'], 'all graphs of levels and transitions, all fixed frequencies',
     'Tests fix one or two transitions in tiny graphs.',
     [A], [('setting', A + ': Transition.set_frequency, HFTransition.set_frequency, ZTransition.set_frequency'),
           ('propagation', A + ': Atom.enforce_consistency')])

prop('C10', 'Selection rules are exactly the angular momentum and parity rules',
     'Between manifolds, E1 is allowed exactly when |dJ| <= 1, J+J\' >= 1 and parity changes, M1 when the same holds '
     'with equal parity, and E2 when |dJ| <= 2, J+J\' >= 2, parity is equal and the two manifolds differ. A hyperfine component is allowed in a '
     'multipole exactly when its parent is and the 6j symbol of rank 1 (E1, M1) or 2 (E2) does not vanish; a Zeeman '
     'component exactly when its parent is and the 3j symbol of that rank does not vanish for q = mF\' - mF within the rank.',
     ['inputs'], 'all pairs of terms, all F and mF',
     'Tests sample pairs; the triangle rule for J was missing until this work.',
     [A], [('rules', A + ': Transition.transition_allowed, HFTransition.transition_allowed, '
            'ZTransition.transition_allowed')])

prop('C11', 'Sub-transitions are exactly the allowed pairs, found under either key order',
     'Populating a transition between manifolds or hyperfine levels creates a component for exactly those pairs of '
     'sublevels of its two levels that are allowed in some multipole and whose F (or mF) differ by at most 1, or by at '
     'most 2 when the transition is E2 and not M1, each filed under (label of its lower level, label of its upper level). '
     'Looking a component up by its two labels works in either order, the exact order first; a Zeeman component has no components.',
     ['inputs'], 'all transitions, all sublevel pairs',
     'Tests count the components of a few transitions.',
     [A], [('components', A + ': Transition.populate_subtransitions, HFTransition.populate_subtransitions'),
           ('lookup', A + ': BaseTransition.__getitem__')])

prop('C12', 'Relative strengths and linewidths of components are the recoupling weights',
     'The relative strength of a hyperfine component is (2F+1)(2F\'+1) times the squared 6j symbol of rank 1 when its '
     'parent is E1 or M1, else of rank 2 when it is E2, else 0, and that of a Zeeman component is the sum over q of the squared 3j symbols of that rank. '
     'The linewidth of a component is that strength times the A coefficient of its parent; a parent without one gives '
     'no linewidth and strength 1. A transition between manifolds keeps the A it was given, in Hz, with strength 1.',
     ['inputs'], 'all J, I, F, mF and A coefficients',
     'Tests sample a few components.',
     [A], [('strengths', A + ': HFTransition.compute_linewidth, ZTransition.compute_linewidth, '
            'BaseTransition.compute_linewidth')])

prop('C13', 'A level key always finds the level it names',
     'Looking up a level by alias, by name, by name plus F=, by name plus F= and mF=, by name plus mJ= (for I = 0) or '
     'by rank in energy gives exactly that level, and an alias wins over every other reading. Length, iteration, keys, '
     'values and the name list of the collection all describe the same levels. Adding under a key gives that alias, '
     'deleting a key removes that level.',
     ['inputs', 'histories'], 'all atoms, all keys',
     'Tests look up a few keys.',
     [A], [('level collection', A + ': LevelStructure'), ('sublevel lookup', A + ': EnergyLevel.__getitem__')])

prop('C14', 'A transition key finds the transition between the two levels it names',
     'Looking up a pair of level keys (names, aliases, F=/mF= keys or energy ranks), in either order, gives the '
     'transition between those two levels, or its hyperfine or Zeeman component when the keys name sublevels, and an alias wins over '
     'every other reading. Length, iteration, keys, values and name list describe the same transitions; adding under a '
     'name gives that alias, and deleting a pair removes that transition.',
     ['inputs', 'histories'], 'all atoms, all key pairs',
     'Tests look up a few pairs in one order.',
     [A], [('transition collection', A + ': TransitionStructure')])

prop('C15', 'Sublevels and components appear on first use and only once',
     'Asking an unpopulated level for its sublevels, or an unpopulated transition for its components, in any way '
     '(keys, values, items, list, length, iteration), first creates all of them and registers each in the atom, if '
     'there is one; a populated one is not populated again. The answer is then exactly the stored collection. A sublevel '
     'assigned to a key has that level as its parent, and deleting a key removes only what it names.',
     ['inputs', 'histories'], 'all levels and transitions that have sublevels or components, all orders of asking',
     'Tests ask in one order.',
     [A], [('lazy views', A + ': EnergyLevel.keys/values/items/sublevels/__len__/__iter__ and the same on HFLevel, '
            'Transition, HFTransition')])

prop('C16', 'Levels and transitions are registered in the atom they join, with all they hold',
     'Adding a level or transition to an atom puts it into the collection of its own kind, under its own name or '
     'between its own two levels, together with the sublevels or components it already has and its alias; asking for sublevels on '
     'adding creates and registers them. A new transition joins the atom of its first level, a new component only if it '
     'is allowed in some multipole. Adding a pair of names or levels makes the transition between them unless it is '
     'already there, and adding a transition with an imposed frequency imposes it. A new atom holds all it is given, and a level made with an atom as parent, or a '
     'sublevel of one in an atom, belongs to that atom.',
     ['inputs', 'histories'], 'all levels, transitions and orders of adding',
     'Tests add a few and look at counts.',
     [A], [('registration', A + ': add_to_atom of every class, Atom.add_level, Atom.add_transition'),
           ('shared graphs', A + ': Atom.__init__')])

prop('C17', 'Branching ratios and lifetime come from the A coefficients leading down',
     'The branching ratios of a level are, for every transition whose upper level it is, that A over the sum of those '
     'A, whatever units they are in and whichever key names the level. The lifetime is 2 pi over that sum, infinite '
     'when it is zero. The linked levels of a level are the other ends of its transitions; for a sublevel, the '
     'components of all transitions of the level above it exist first.',
     ['inputs'], 'all atoms, all levels with known A coefficients',
     'Tests check one or two levels with A in one unit.',
     [A], [('ratios', A + ': Atom.compute_branching_ratios'), ('lifetime', A + ': Atom.state_lifetime'),
           ('links', A + ': Atom.linked_levels')])

prop('C20', 'Terms carry the right names, quantum numbers, equality and copies',
     'The name of a term is configuration, term symbol and J, plus F= and mF= when present; its short name is term and '
     'J, F= alone or mF= alone; a star in the symbol means odd parity; quantum numbers are read from configuration and '
     'symbol unless given. Two terms are equal exactly when configuration, symbol, quantum numbers, J, F and mF are. A '
     'copy keeps everything and takes the new F and mF, a hyperfine term keeping its own F.',
     ['inputs'], 'all configurations, symbols, J, F, mF given as fraction strings or numbers',
     'Tests build a few terms.',
     [T], [('term', T + ': Term')])

prop('C21', 'A mixture of terms behaves as its leading term',
     'A mixture lists its terms by decreasing percentage, and every quantum number or name asked of it is that of the '
     'leading one. Copying it copies every term with the new F and mF and keeps the mixture; two mixtures are equal '
     'when their terms are one by one, a mixture equals a term when its leading term does. Its text forms name the '
     'leading term and its percentage.',
     ['inputs'], 'all mixtures',
     'Tests build two-term mixtures.',
     [T], [('mixture', T + ': MultiTerm')])

prop('C22', 'Coupling schemes are recognised and quantum numbers land in their places',
     'A term symbol with square brackets is LK when it starts with an orbital letter and jK otherwise, one with round '
     'brackets is jj, any other longer than one character is LS, and the rest is unknown. The quantum number list '
     'always has the order lc, sc, lo, so, jc, jo, L, S, K, each scheme filling its own places and leaving the others '
     'empty. Converting a term to LS uses the recoupling of its own scheme with its own quantum numbers, an LS term '
     'being itself at 100 percent.',
     ['inputs'], 'all non-empty symbols and configurations',
     'Tests cover sample symbols.',
     [U], [('recognition', U + ': get_term_coupling'), ('layout', U + ': get_quantum_nums'),
           ('conversion', U + ': term_to_LS')])

prop('C23', 'Fractions and orbital letters convert exactly both ways',
     'A half-integer is written as n/2 or as a whole number and a string a/b or a plain number reads back as that '
     'number, for negative values too; nothing stays nothing. Orbital letters are S P D F G H I K L M N O Q R T U V W '
     'X Y Z for 0, 1, 2, ..., read in either case; no letter means no orbital momentum, and more than one is refused.',
     ['inputs'], 'all half-integers, all fraction strings, all letters',
     'Tests sample values.',
     [U], [('fractions', U + ': float_to_frac, frac_to_float'), ('letters', U + ': l_to_let, let_to_l')])

prop('C24', 'Recoupling to LS gives every component with the right amplitude',
     'Recoupling a jj, jK or LK coupled state to LS yields one row for every (L, S) in the triangle ranges (for LK, '
     'the given L with every S), each with the textbook 9j or 6j amplitude including multiplicities and phase. The '
     'readable form lists multiplicity and letter of each component that is present, with its squared amplitude in '
     'percent rounded to two digits.',
     ['inputs'], 'all non-negative quantum numbers',
     'Tests compare a few states with tables.',
     [TS, U], [('recoupling', TS + ': JJ_to_LS, JK_to_LS, LK_to_LS'),
               ('readable', U + ': readable_JJ_to_LS, readable_JK_to_LS, readable_LK_to_LS')])

prop('C25', 'Polarised and averaged transition strengths follow the tensor formulas',
     'The strength of a spherical component is the square of its matrix element, a 6j times a 3j symbol times the '
     'roots of 2F+1 of both levels. The dipole average is the mean of the three components, the quadrupole average '
     'weights its five 3/29, 9/58, 14/29, 9/58, 3/29, and M1 equals E1. With a polarization (and, for E2, a wave '
     'vector) of any nonzero length, only their directions count and the components weigh as in the spherical tensors '
     'built from them.',
     ['inputs'], 'all quantum numbers, all nonzero real polarizations and wave vectors',
     'Tests compare a few numbers; geometry and normalisation are barely covered.',
     [TS], [('tensor', TS + ': tkq_mel, tkq_transition_strength'), ('averages', TS + ': *_transition_strength_avg'),
            ('geometry', TS + ': *_geom')])

L = 'atomtoolkit/render/lineshapes.py'
SP = 'atomtoolkit/render/spectra.py'
W = 'atomtoolkit/wigner.py'
H = 'atomtoolkit/atom_helpers.py'
INIT = 'atomtoolkit/__init__.py'
G = 'atomtoolkit/render/grotrian.py'
ENV = 'atomtoolkit/environment.py'

prop('C18', 'A whole atom can be saved and loads back as what the file holds',
     'Saving writes the complete atom object, in binary, to the given path, with .atom appended exactly when it does '
     'not end in it and the name of the atom as the default. Loading returns what the file holds and refuses anything '
     'that is not an atom. Nothing an atom, level, transition or term keeps in itself is of a kind that cannot be '
     'written, and none of their classes leaves parts out.',
     ['inputs', 'histories'], 'all atoms and all states they can be in, all paths',
     'Tests save one atom in one state under one name.',
     [A], [('saving', A + ': Atom.save, Atom.load'), ('state', A + ', ' + H + ', ' + T + ': attributes of all classes')])

prop('C19', 'Hyperfine tables written and read carry every coefficient to its level',
     'The hyperfine table of an atom has one row per level with its name and its A, B and C as quantities; a zero A is '
     'written as the default the caller gives, and a blank template has zeros throughout. Reading a table sets, row '
     'by row, A, B and C of the level the row names and of no other; rows of unknown levels are skipped. The file is '
     'named after the atom unless a name is given.',
     ['inputs'], 'all atoms, all tables of rows of four columns',
     'Tests do not read or write tables with several levels and all coefficients.',
     [IO], [('writing', IO + ': generate_hf_csv'), ('reading', IO + ': apply_hf_csv')])

prop('C26', 'Line profiles have the declared centre, width, height and sidebands',
     'A Lorentzian has the given full width at half maximum, a Gaussian the given sigma, both the given peak at their '
     'centre; a Voigt profile is centred and scales with the amplitude; a modulated Lorentzian is a carrier and '
     'sidebands with squared Bessel weights at multiples of the modulation frequency, up to the given or default '
     'order. Lineshape objects evaluate these with their own widths, a Lorentzian adding the natural width it is given, '
     'and sample them on an even grid reaching their width to both sides. A thermal line has the Doppler width of its '
     'temperature and mass at its centre; it is a Lorentzian where the natural width is over 25 times that, a Gaussian '
     'where it is under a 25th, and a Voigt profile between.',
     ['inputs'], 'all positions, widths, amplitudes, modulation depths and orders',
     'Tests do not evaluate the lineshapes.',
     [L], [('profiles', L + ': lorentzian, gaussian, voigt, mod_lorentzian'),
           ('objects', L + ': LorentzianLineShape, GaussianLineShape, ModLorentzianLineShape, LineShape.compute'),
           ('thermal', L + ': ThermalLineShape, ThermalGaussianLineShape')])

prop('C27', 'Spectra draw each requested line once, at its place, with its strength',
     'Every given line is drawn exactly once at its own frequency in the chosen unit, with its relative strength times '
     'the weight the caller gives, its label and colour, and the total is the sum of all curves on the union of '
     'their grids. Hyperfine and Zeeman spectra consist of exactly the components of the given transitions, coloured by the chosen quantum number with the chosen colour map; without an explicit lineshape the laser width and temperature choose it.',
     ['inputs'], 'all collections of lines, lineshapes, weights, units and colourings',
     'Tests do not draw spectra.',
     [SP], [('curves', SP + ': plot_transitions'),
            ('collections', SP + ': plot_spectrum, plot_hyperfine_spectrum, plot_zeeman_spectrum')])

prop('C28', 'Grotrian diagrams place levels, sublevels and arrows by the structure',
     'A manifold is drawn at its J and its energy in THz; hyperfine and Zeeman sublevels at their scaled shifts from it '
     'with the widths, spacing, offsets and scales asked for, and a level drawn with substructure has exactly the rows '
     'of all its sublevels and a box around them. Arrows lead from the first level (for a transition the lower one) to '
     'the second, between the chosen anchor points of their boxes or, where asked, of the box of a drawn level above. Each rendering draws exactly what was added, each '
     'once, however often it is repeated. The quick drawing puts every manifold at its J and energy and links those '
     'linked in the structure asked for.',
     ['inputs', 'histories'], 'all levels, options, scales, anchors and sequences of adding and rendering',
     'Tests do not draw diagrams.',
     [G], [('rows', G + ': Grotrian._compute_level_row, _compute_hflevel_row, _compute_zlevel_row'),
           ('tables', G + ': Grotrian._gross_level_table, _hf_level_table, _zeeman_level_table'),
           ('arrows', G + ': Grotrian.compute_arrow'), ('rendering', G + ': Grotrian.render_levels')])

prop('C29', 'Reading a level, transition, atom or term changes nothing',
     'Reading any energy, shift, frequency, coefficient, name, alias or text form, looking things up by key, alias or '
     'rank, listing collections, and computing factors, strengths, branching ratios, lifetimes, linked levels, '
     'comparisons or copies leaves every object as it was. The only exception is that sublevels and components come '
     'into being when they are first asked for.',
     ['inputs', 'histories'], 'all objects, all reading operations, any order',
     'Tests read and compare values; they never check that nothing else changed.',
     [A, H, T], [('readings', A + ': properties and compute_* of all classes'), ('lookups', H + ': LevelStructure, '
                                                                                 'TransitionStructure'),
                 ('terms', T + ': Term, MultiTerm')])

prop('C30', 'Wigner symbols get their own arguments and are zero where forbidden',
     'The 3j, 6j and 9j functions evaluate the symbol of that name with their arguments in order, as a plain number, '
     'and are zero where the library refuses the arguments. With the optional fast library installed the arguments '
     'are doubled for it and refusals are zero as well.',
     ['inputs'], 'all half-integer arguments, both libraries',
     'Tests run with only one of the two libraries and a few arguments.',
     [W], [('symbols', W + ': wigner3j, wigner6j, wigner9j, wignerPicker')])

prop('C31', 'Every operation can run: names, attributes and arguments all fit',
     'No operation of the package or of the species files refers to a name, import, attribute or method that does not '
     'exist, calls a function, class or method of the package with arguments it does not take, reads a local '
     'variable before it can have a value, or makes an object of a class that leaves an abstract operation open. '
     'Methods that Python itself calls (indexing, length, printing) take what Python passes.',
     ['inputs', 'histories'], 'every statement of every function, run or not',
     'Tests reach only part of the statements and branches.',
     [A, H, T, U, TS, IO, SP, L, G, ENV], [('whole package', 'atomtoolkit/, species/')],
     note='Static scope, attribute, call-signature and class-hierarchy rules over all functions. Reports only '
          'constructs that are certain to fail when reached; calls through values whose class the rules cannot tell are '
          'passed over. Two known failing constructs (GaussianBeam.__init__) are recorded as findings.')

prop('C32', 'Bulk generation makes exactly the levels and transitions it should',
     'Generating all transitions joins every pair of levels (J below 20) whose J differ by 0 or 1, or by 2 when electric '
     'quadrupole is requested, that is not joined yet and for which a requested type is allowed, and leaves no '
     'forbidden one behind; internal generation adds one transition per level. A table of transitions gives one '
     'transition per row whose two levels exist, with its frequency and A; a table of levels gives one level per row '
     'up to the number asked for. Building a whole atom does these in order and passes its options on.',
     ['inputs'], 'every set of levels, every choice of types, every table',
     'Tests build one tiny atom and never generate in bulk.',
     [A, IO], [('generation', A + ': Atom.populate_transitions, Atom.populate_internal_transitions, '
                              'Atom.populate_transitions_df, Atom.from_dataframe'),
               ('whole atoms', IO + ': generate_full_from_dataframe')])

prop('C33', 'Each shipped isotope file builds the isotope it names',
     'The files for 171Yb+, 173Yb+ and 174Yb+ build an atom from the NIST levels and the measured A coefficients with '
     'the nuclear spin of that isotope (1/2, 5/2, 0), its own hyperfine table if it has one, no field and electric '
     'dipole transitions only. They then impose the measured frequencies on the transitions they belong to, add the '
     'two narrow transitions with their A coefficients, and set opposite quadratic shifts on the 171Yb+ clock states.',
     ['inputs'], 'all three files, every statement',
     'The files need the network and are never run by the tests.',
     ['species/Yb_II_171.py', 'species/Yb_II_173.py', 'species/Yb_II_174.py'], [('isotopes', 'species/: module bodies')])

prop('C34', 'Light fields keep a unit polarization and the right field amplitudes',
     'A light field accepts exactly the polarizations of length one (to one part in a million), is polarized along z '
     'by default, and keeps the wave vector, intensity and polarization it is given. Its electric field is '
     'sqrt(2 I / (c epsilon_0)) along the polarization and its magnetic field the wave vector crossed with the electric '
     'field, over c. A Gaussian beam of given waist w0 and Rayleigh range zr has the radius w0 sqrt(1 + z^2/zr^2), '
     'wavefronts of radius z + zr^2/z and the phase arctan(z/zr).',
     ['inputs'], 'all wave vectors, intensities and polarizations',
     'No test covers light fields.',
     [ENV], [('fields', ENV + ': LightField'), ('beams', ENV + ': GaussianBeam.w, radius_at, phase_at')])

prop('C35', 'Tables of levels and transitions are read row by row without mix-ups',
     'A level read from a row has the energy and Lande g-factor of that row (none if missing) and one term for every '
     'configuration the row has, each with the J of the row and the term and percentage of its own column. A table of '
     'transitions keeps the configurations, terms and J values of both levels, the frequency and the A coefficient '
     'in MHz from the columns named for them, under either name of the column, and leaves those names as they are. A '
     'table of levels keeps the columns named, with energies as numbers in cm-1, stripped of marks, and in Hz.',
     ['inputs'], 'every table, every row, every naming of columns',
     'Tests read one or two rows of one table.',
     [A, T, IO], [('levels', A + ': EnergyLevel.from_dataframe'),
                  ('terms', T + ': MultiTerm.from_dataframe, Term.from_dataframe'),
                  ('tables', IO + ': load_transition_data, load_level_data')])

prop('C36', 'There is one unit registry and units and constants mean what they say',
     'The whole package uses a single unit registry, which is also the one for stored quantities and tables, and in it '
     'wavenumbers convert to frequencies with the speed of light. The exported units Hz, kHz, MHz, GHz, THz, gauss, '
     'the speed of light and the Bohr magneton 1.39962449361 MHz/G have exactly these values.',
     ['inputs'], 'all modules, all quantities',
     'Tests use the units they are given.',
     [INIT], [('registry', INIT)])

prop('C37', 'Nothing is remembered or shared behind the back of the caller',
     'No function changes, keeps or hands out a default argument, no object changes a container belonging to its whole '
     'class, and no function leaves state in a module or in its maker that a later call sees. Remembered results are '
     'those of plain values only: never of a level, transition, atom or term, which can change later.',
     ['histories'], 'all functions, all orders of calls, all numbers of atoms alive',
     'Tests build each atom once and call each function in one order.',
     [A, H, T, U, TS, W, IO, G], [('remembered results', TS + ', ' + W + ': cached functions'),
                                  ('defaults and containers', 'all modules')],
     note='Static alias and mutation rules over all functions, default arguments, class and module containers, closures '
          'and cached functions; one-object aliasing only (values passed on through other containers are not followed).')

prop('C38', 'All imposed frequencies hold together, whatever the order of imposing',
     'After any sequence of imposed frequencies that admits a consistent set of energies, every imposed transition '
     'frequency is reproduced by the energies of its levels at the same time.',
     ['histories'], 'every graph of levels, every sequence of imposed frequencies',
     'Tests impose one or two frequencies.',
     [A], [('consistency', A + ': Atom.enforce_consistency')],
     na='whether the walk over a group of fixed transitions reproduces all of them depends on the shape of the graph '
        'and on run-time energies; no static argument bounds it (it is known to fail for chains re-imposed in the '
        'middle, see DESIGN.md). What each step writes is claimed under C09.')

prop('C39', 'Component strengths of a transition add up to the whole',
     'The relative strengths of all hyperfine or Zeeman components of a transition add up to the strength of the '
     'transition they belong to.',
     ['inputs'], 'all quantum numbers', 'Tests sum a few cases.',
     [A], [('strengths', A + ': HFTransition.compute_linewidth, ZTransition.compute_linewidth')],
     na='a sum rule over 3j and 6j symbols with symbolic ranges: needs orthogonality identities of the symbols, a matter '
        'of algebra over their values and not of data flow. The formulas themselves are claimed under C12 and C30.')

prop('C40', 'NIST tables are cleaned into one row per level',
     'Loading the NIST levels of any species gives one row per level and J below ionization, with configuration, term, '
     'leading percentages and second components as NIST lists them.',
     ['inputs'], 'every species NIST offers', 'Needs the network.',
     [IO], [('NIST', IO + ': load_NIST_data')],
     na='decided by regular expressions against the text NIST serves at run time, which is not in the repository; '
        'no static oracle for that text exists.')

prop('C41', 'A saved atom is numerically identical when loaded',
     'Every energy, coefficient, frequency and name of an atom is the same after saving and loading it.',
     ['histories'], 'all atoms', 'Tests save one small atom.',
     [A], [('saving', A + ': Atom.save, Atom.load')],
     na='depends on what pickle and pint do at run time with each object of the graph; that an atom can be saved at all '
        'and is loaded back as stored is claimed under C18.')

prop('C42', 'Quantum numbers are read off symbol and configuration by coupling scheme',
     'In LS, the symbol gives L and multiplicity, S being (multiplicity - 1)/2; in jK it gives the outer multiplicity and '
     'K (in LK also L), and the configuration gives the parent term (in jK with its J in angle brackets) and the outer '
     'orbital, taken from a second such part or else the last letter. In jj, both parts come with their J in angle '
     'brackets from the configuration, or from the symbol only when the configuration has none; a part in capitals has '
     'spin (multiplicity - 1)/2, one in small letters spin 0 and a part without a letter no known L or spin. A text that '
     'does not have these parts in the expected number is an error.',
     ['inputs'], 'all symbols and configurations, in every scheme',
     'Tests parse fourteen sample terms.',
     [U], [('LS', U + ': parse_LS_term'), ('jK', U + ': parse_JK_term'), ('jj', U + ': parse_JJ_term'),
           ('LK', U + ': parse_LK_term')],
     note='Patterns are compared in a canonical form that ignores group names, compilation, and search method; two '
          'different patterns count as different only when a string of their own shape tells them apart.')


prop('C43', 'A NIST query names its species and is saved only where asked',
     'Loading NIST levels makes one query: for the species asked for (its words joined by +), in wavenumbers, with every '
     'column, ordered by term only if asked. The table is saved only if asked, once: under the name given, with .csv '
     'added if it is missing, or else as the species name followed by _level_data.csv.',
     ['inputs'], 'all species, orders and file names', 'Needs the network.',
     [IO], [('query', IO + ': load_NIST_data')],
     note='The table is one abstract value, so nothing is claimed about its contents; the address asked for and the file '
          'written are compared for all arguments.')

prop('C44', 'Names and text forms say what a level, transition, atom or term is',
     'A level bears the name of its term and a transition the name it is given, or else first and second level joined '
     'by an arrow; its key is the pair of their names. Written out, each is its name and a term its symbol; shown in a '
     'session, each gives its kind and name with energy and sublevel count, frequency and A coefficient, or spin and '
     'level count. The collections of an atom give the number and kind of what they hold, also when empty.',
     ['inputs'], 'all levels, transitions, terms and atoms',
     'Tests show one atom.',
     [A, H, T], [('names', A + ': BaseLevel.__init__, BaseTransition.__init__'),
                 ('texts', A + ', ' + H + ', ' + T + ': __str__ and __repr__')])

prop('C45', 'Line colours rank the first property and shade by the second',
     'A colour table has one colour per line. Hue and saturation are those of the colour map at the rank of the first '
     'property of the line among the distinct values that occur; the lightness is 0.2 + 0.6 (d + 1)/(n + 1) for n lines of '
     'that first property, d being how far the second property of the line is above the lowest among them.',
     ['inputs'], 'all collections of lines, properties and colour maps',
     'Tests do not draw spectra.',
     [SP], [('colours', SP + ': color_table_from_property')])
