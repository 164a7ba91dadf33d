import extcore


def wfirst_phaseb(lam, n, PASSVALUE):
    return extcore.take("wfirst_phaseb", lam, n, PASSVALUE, True)
