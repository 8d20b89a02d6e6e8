"""qualified names, parameter lists and constness out of demangled C++ names"""
import functools
@functools.lru_cache(None)
def split(d):
    """(qualified name without template arguments, parameter list text, suffix)"""
    # find the parameter list: the last top-level '(' ... ')' group that is followed only by qualifiers
    while d.startswith(("decltype(", "decltype (")):          # return type computed from an expression
        k = 0
        for j, ch in enumerate(d):
            k += (ch == '(') - (ch == ')')
            if ch == ')' and k == 0: break
        d = d[j + 1:].lstrip(' &*')
    s = d
    depth = 0; par = None
    i = 0; n = len(s)
    groups = []
    ang = 0
    while i < n:
        ch = s[i]
        if s.startswith("operator", i) and (i == 0 or not (s[i-1].isalnum() or s[i-1] == '_')):
            j = i + 8
            for t in ("()", "<=>", "<<=", ">>=", "<<", ">>", "<=", ">=", "->*", "->", "<", ">", "[]"):
                if s.startswith(t, j): j += len(t); break
            i = j; continue
        if ch == '<': ang += 1
        elif ch == '>':
            if i and s[i-1] == '-': pass
            else: ang -= 1
        elif ch in '([{' :
            if ch == '(' and ang == 0 and depth == 0: st = i
            depth += 1
        elif ch in ')]}':
            depth -= 1
            if ch == ')' and ang == 0 and depth == 0: groups.append((st, i))
        i += 1
    for st, en in reversed(groups):
        rest = s[en+1:].strip()
        if rest.startswith("::"): continue
        par = (st, en); break
    if not par: return strip_t(s), "", ""
    return strip_t(s[:par[0]]), s[par[0]+1:par[1]], s[par[1]+1:].strip()

def strip_t(s):
    out = []; ang = 0; i = 0; n = len(s)
    while i < n:
        if ang == 0 and s.startswith("operator", i) and (i == 0 or not (s[i-1].isalnum() or s[i-1] == '_')):
            j = i + 8
            for t in ("()", "<=>", "<<=", ">>=", "<<", ">>", "<=", ">=", "->*", "->", "<", ">", "[]"):
                if s.startswith(t, j): j += len(t); break
            out.append(s[i:j]); i = j; continue
        c = s[i]
        if c == '<': ang += 1
        elif c == '>' and not (i and s[i-1] == '-'): ang -= 1
        elif ang == 0: out.append(c)
        i += 1
    r = "".join(out).rstrip()
    # drop a return type: last space at depth 0 outside parens / 'operator '
    k = r.rfind("operator ")
    head = r if k < 0 else r[:k]
    dep = 0; cut = -1
    for i, c in enumerate(head):
        if c in '({[': dep += 1
        elif c in ')}]': dep -= 1
        elif c == ' ' and dep == 0: cut = i
    return r[cut+1:]

def qname(d): return split(d)[0].replace("std::__cxx11::", "std::")
@functools.lru_cache(None)
def params(d):
    p = split(d)[1]; out = []; dep = 0; cur = ""
    for c in p:
        if c in '<({[': dep += 1
        elif c in '>)}]': dep -= 1
        if c == ',' and dep == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out
def is_const_method(d): return split(d)[2].startswith("const")
