"""<cctype> classifiers in the "C" locale as functions on int (the C library's contract: the argument
must be EOF or representable as unsigned char; glibc's tables also accept negative char values, for
which every classifier is false)."""
def _f(pred):
    def g(c, *_):
        return 1 if 0 <= c <= 127 and pred(c) else 0
    return g
def _in(*rs): return lambda c: any(a <= c <= b for a, b in rs)
PURE = {
    'isalnum': _f(_in((48, 57), (65, 90), (97, 122))),
    'isalpha': _f(_in((65, 90), (97, 122))),
    'isdigit': _f(_in((48, 57))),
    'isxdigit': _f(_in((48, 57), (65, 70), (97, 102))),
    'isupper': _f(_in((65, 90))), 'islower': _f(_in((97, 122))),
    'isspace': _f(_in((9, 13), (32, 32))), 'isprint': _f(_in((32, 126))),
    'ispunct': _f(_in((33, 47), (58, 64), (91, 96), (123, 126))),
    'iscntrl': _f(_in((0, 31), (127, 127))), 'isgraph': _f(_in((33, 126))),
    'toupper': lambda c, *_: c - 32 if 97 <= c <= 122 else c,
    'tolower': lambda c, *_: c + 32 if 65 <= c <= 90 else c,
}

def _hexd(c):
    c &= 255
    return c - 48 if 48 <= c <= 57 else c - 55 if 65 <= c <= 70 else c - 87 if 97 <= c <= 102 else None
def _strm(base):
    """value istream >> base >> int stores for a text of one or two characters (0 on failure)"""
    def f(*cs):
        cs = [c & 255 for c in cs]; k = 0
        while k < len(cs) and cs[k] in (9, 10, 11, 12, 13, 32): k += 1
        neg = False
        if k < len(cs) and cs[k] in (43, 45): neg = cs[k] == 45; k += 1
        v = 0
        for c in cs[k:]:
            d = _hexd(c)
            if d is None or d >= base: break
            v = v * base + d
        return -v if neg else v
    return f
for _b in (8, 10, 16): PURE[f'vf_num{_b}'] = _strm(_b)
