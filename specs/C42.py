PARSE = ['get_quantum_nums', 'get_term_coupling', 'parse_LS_term', 'parse_JK_term', 'parse_JJ_term', 'parse_LK_term']


@observe(inline=PARSE)
def observed_ls(term: 'str'):
    """an LS symbol is one multiplicity and one letter: L is the letter, S = (multiplicity - 1) / 2"""
    from atomtoolkit.util import parse_LS_term
    return parse_LS_term(term)


def expected_ls(term):
    import re
    from atomtoolkit.util import let_to_l
    [(ss, ls)] = re.findall(r'(\d+)([A-Z])', term)
    return let_to_l(ls), (float(ss) - 1) / 2


@observe(inline=PARSE)
def observed_jk(conf: 'str', term: 'str'):
    """the symbol gives the outer multiplicity and K, the configuration the parent term with its J in angle brackets; the
    outer electron is the second parent-like part, else the last letter of the configuration"""
    from atomtoolkit.util import parse_JK_term
    return parse_JK_term(conf, term)


def expected_jk(conf, term):
    import re
    from atomtoolkit.util import let_to_l, frac_to_float
    parts = re.findall(r'(\d+)([A-Z])\*?(?:<(.+?)>)?', conf)
    if len(parts) == 2:
        [(scs, lcs, jcs), (_, los, _)] = parts
    else:
        [(scs, lcs, jcs)] = parts
        los = conf[-1]
    [(sos, ks)] = re.findall(r'(\d+)\[(.+?)]', term)
    return (let_to_l(lcs), (float(scs) - 1) / 2, let_to_l(los), (float(sos) - 1) / 2, frac_to_float(jcs), frac_to_float(ks))


def spin(multiplicity, letter):
    if letter.isupper():
        return (float(multiplicity) - 1) / 2
    if letter.islower():
        return 0.0
    return None


@observe(inline=PARSE)
def observed_jj(conf: 'str', term: 'str'):
    """both parts come with their J in angle brackets, from the configuration or else from the symbol; a part in capitals has
    spin (multiplicity - 1) / 2, one in small letters none, and a part without a letter no known spin"""
    from atomtoolkit.util import parse_JJ_term
    return parse_JJ_term(conf, term)


def expected_jj(conf, term):
    import re
    from atomtoolkit.util import let_to_l, frac_to_float
    part = r'(?:(\d+)([A-Za-z])|\(.+?\))\*?<(.+?)>'
    parts = re.findall(part, conf)
    if len(parts) == 0:
        parts = re.findall(part, term)
    [(scs, lcs, jcs), (sos, los, jos)] = parts
    return (let_to_l(lcs), spin(scs, lcs), let_to_l(los), spin(sos, los), frac_to_float(jcs), frac_to_float(jos))


@observe(inline=PARSE)
def observed_lk(conf: 'str', term: 'str'):
    """the symbol gives L, the outer multiplicity and K, the configuration the parent terms in round brackets"""
    from atomtoolkit.util import parse_LK_term
    return parse_LK_term(conf, term)


def expected_lk(conf, term):
    import re
    from atomtoolkit.util import let_to_l, frac_to_float
    parts = re.findall(r'\((\d+)([A-Z])\*?\)', conf)
    if len(parts) == 2:
        [(scs, lcs), (_, los)] = parts
    else:
        [(scs, lcs)] = parts
        los = conf[-1]
    [(ls, sos, ks)] = re.findall(r'([A-Z])\*? ?(\d+)\[(.+?)]', term)
    return (let_to_l(lcs), (float(scs) - 1) / 2, let_to_l(los), (float(sos) - 1) / 2, let_to_l(ls), frac_to_float(ks))
