import extcore


def ext_prescription(lam, n, PASSVALUE):
    return extcore.take('ext_prescription', lam, n, PASSVALUE, False)
