import extcore


def roman_phasec(lam, n, PASSVALUE):
    return extcore.take("roman_phasec", lam, n, PASSVALUE, True)
