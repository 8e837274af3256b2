@observe(inline=['float_to_frac'])
def observed_to_frac(x: 'half', w: 'str'):
    """a number n/2 is written n/2 in lowest terms, whole numbers without a denominator, None stays None; a fraction string
    stays as it is"""
    from atomtoolkit.util import float_to_frac
    return float_to_frac(x), float_to_frac(None)


def expected_to_frac(x, w):
    return (str(int(x)) if (2 * x) % 2 == 0 else str(int(2 * x)) + '/2'), None


@observe(inline=['float_to_frac'])
def observed_frac_string(w: 'str', x: 'half'):
    """a fraction string is kept; a numeric string is written like the number"""
    from atomtoolkit.util import float_to_frac
    return float_to_frac(w), float_to_frac(str(x))


def given_frac_string(w, x):
    return '/' in w


def expected_frac_string(w, x):
    return w, (str(int(x)) if (2 * x) % 2 == 0 else str(int(2 * x)) + '/2')


@observe(inline=['frac_to_float'])
def observed_from_frac(w: 'str', x: 'half'):
    """a/b reads as the quotient, a plain number as itself, numbers and None pass through"""
    from atomtoolkit.util import frac_to_float
    return frac_to_float(w), frac_to_float(x), frac_to_float(None)


def given_from_frac(w, x):
    return len(w) > 0 and (len(w.split('/')) == 2 if '/' in w else True)


def expected_from_frac(w, x):
    if '/' in w:
        a, b = w.split('/')
        return float(a) / float(b), x, None
    return float(w), x, None


@observe(inline=['l_to_let', 'let_to_l'])
def observed_letters(k: 'int', c: 'str'):
    """orbital letters: S P D F G H I K L M N O Q R T U V W X Y Z for 0, 1, 2, ..., read in either case; no letter is no
    orbital momentum"""
    from atomtoolkit.util import l_to_let, let_to_l
    return l_to_let(k), let_to_l('')


def expected_letters(k, c):
    return 'SPDFGHIKLMNOQRTUVWXYZ'[k], None


@observe(inline=['let_to_l'])
def observed_word(c: 'str'):
    """more than one letter is no orbital letter and is refused"""
    from atomtoolkit.util import let_to_l
    return let_to_l(c)


def given_word(c):
    return len(c) > 1


def expected_word(c):
    raise ValueError('not a single letter')


@observe(inline=['let_to_l'])
def observed_letter(c: 'str'):
    """reading a letter gives its place in S P D F G H I K ..., in either case"""
    from atomtoolkit.util import let_to_l
    return let_to_l(c)


def given_letter(c):
    return len(c) == 1 and c.upper() in list('SPDFGHIKLMNOQRTUVWXYZ')


def expected_letter(c):
    return 'SPDFGHIKLMNOQRTUVWXYZ'.index(c.upper())
