"""Literal regular expressions as z3 regular languages. Only the constructs whose meaning is regular; everything else is
outside the fragment (Unsupported)."""
import z3
import re._parser as sp
import re._constants as sc
from .smt import S, I, UF
from .loader import Unsupported

STR = z3.StringVal
ALL = z3.AllChar(z3.ReSort(S))


def cls(items):
    neg = False
    parts = []
    for op, a in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            parts.append(z3.Re(STR(chr(a))))
        elif op is sc.RANGE:
            parts.append(z3.Range(chr(a[0]), chr(a[1])))
        else:
            raise Unsupported("regular expression class %s" % (op,))
    r = parts[0] if len(parts) == 1 else z3.Union(*parts)
    return z3.Intersect(ALL, z3.Complement(r)) if neg else r


def rx(seq):
    out = [item(x) for x in seq]
    if not out:
        return z3.Re(STR(""))
    return out[0] if len(out) == 1 else z3.Concat(*out)


def item(x):
    op, a = x
    if op is sc.LITERAL:
        return z3.Re(STR(chr(a)))
    if op is sc.NOT_LITERAL:
        return z3.Intersect(ALL, z3.Complement(z3.Re(STR(chr(a)))))
    if op is sc.IN:
        return cls(a)
    if op is sc.ANY:
        return z3.Intersect(ALL, z3.Complement(z3.Re(STR("\n"))))
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, sub = a
        r = rx(sub)
        if hi is sc.MAXREPEAT:
            return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
        return z3.Option(r) if (lo, hi) == (0, 1) else z3.Loop(r, lo, hi)
    if op is sc.SUBPATTERN:
        if a[1] or a[2]:
            raise Unsupported("regular expression flags")
        return rx(a[3])
    if op is sc.BRANCH:
        return z3.Union(*[rx(b) for b in a[1]]) if len(a[1]) > 1 else rx(a[1][0])
    raise Unsupported("regular expression construct %s" % (op,))


def excludes(x, c):
    """a repeat of characters different from c"""
    op, a = x
    if op is sc.SUBPATTERN and len(a[3]) == 1:
        return excludes(a[3][0], c)
    if op is not sc.MAX_REPEAT or len(a[2]) != 1:
        return False
    op, b = a[2][0]
    if op is sc.NOT_LITERAL:
        return b == c
    return op is sc.IN and b[0][0] is sc.NEGATE and (sc.LITERAL, c) in b


def run_of(x):
    """(least length, excluded characters) of a greedy, unlimited repeat of any characters but some"""
    op, a = x
    if op is sc.SUBPATTERN and len(a[3]) == 1 and not a[1] and not a[2]:
        return run_of(a[3][0])
    if op is not sc.MAX_REPEAT or a[1] is not sc.MAXREPEAT or len(a[2]) != 1:
        return None
    op, b = a[2][0]
    if op is sc.NOT_LITERAL:
        return a[0], [chr(b)]
    if op is sc.ANY:
        return a[0], ["\n"]
    if op is sc.IN and b[0][0] is sc.NEGATE and all(o is sc.LITERAL for o, _ in b[1:]):
        return a[0], [chr(c) for _, c in b[1:]]
    return None


def member(t, x):
    r = run_of(x)
    if r is None:
        return z3.InRe(t, item(x))
    return z3.And([z3.Length(t) >= r[0]] + [z3.Not(z3.Contains(t, STR(c))) for c in r[1]])


def top_level(pattern):
    """the characters of a pattern outside of groups and classes"""
    out, d, i, c = [], 0, 0, False
    while i < len(pattern):
        ch = pattern[i]
        if ch == "\\":
            i += 2
            continue
        if c:
            c = ch != "]"
        elif ch == "[":
            c = True
            if pattern[i + 1:i + 2] == "^":
                i += 1
            if pattern[i + 1:i + 2] == "]":
                i += 1
        elif ch == "(":
            d += 1
        elif ch == ")":
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return "".join(out)


def determined(seq, end, s):
    """for patterns whose pieces are delimited by characters the piece before excludes: (exact condition, terms of the groups), else None"""
    conds, groups, off = [], {}, z3.IntVal(0)
    for k, x in enumerate(seq):
        if x[0] is sc.LITERAL:
            conds.append(z3.SubString(s, off, 1) == STR(chr(x[1])))
            off = z3.simplify(off + 1)
            continue
        r = run_of(x)
        if r is None:
            return None
        if k + 1 < len(seq):
            nxt = seq[k + 1]
            if nxt[0] is not sc.LITERAL or chr(nxt[1]) not in r[1]:
                return None
            i = z3.IndexOf(s, STR(chr(nxt[1])), off)
            conds.append(i >= off)
            t = z3.SubString(s, off, z3.simplify(i - off))
            new = i
        else:
            if end != "full":
                return None
            t = z3.SubString(s, off, z3.simplify(z3.Length(s) - off))
            new = z3.Length(s)
            conds.append(new >= off)
        t = z3.simplify(t)
        conds.append(member(t, x))
        if x[0] is sc.SUBPATTERN and x[1][0] is not None:
            groups[x[1][0]] = t
        off = z3.simplify(new)
    if end == "full":
        conds.append(off == z3.Length(s))
    return z3.And(conds), groups


def parse(pattern, full=False):
    p = sp.parse(pattern)
    if p.state.flags & ~32:
        raise Unsupported("regular expression flags")
    seq = list(p)
    end = "full" if full else "any"
    if seq and seq[0] == (sc.AT, sc.AT_BEGINNING):
        seq = seq[1:]
    if seq and seq[-1] == (sc.AT, sc.AT_END):
        seq, end = seq[:-1], "full" if full else "line"
    if seq and seq[-1] == (sc.AT, sc.AT_END_STRING):
        seq, end = seq[:-1], "full"
    if end == "line" and seq:
        r = run_of(seq[-1])
        if r is not None and r[0] <= 1 and "\n" not in r[1]:
            end = "full"            # the last piece takes the final line break
    names = {i: n for n, i in p.state.groupdict.items()}
    count = p.state.groups - 1
    body = rx(seq)
    if end == "any":
        lang = z3.Concat(body, z3.Full(z3.ReSort(S)))
    elif end == "line":
        lang = z3.Union(body, z3.Concat(body, z3.Re(STR("\n"))))
    else:
        lang = body
    return seq, end, lang, names, count


def pieces(pattern, seq, end, s):
    """facts that hold of a successful match, and the terms of the groups at top level"""
    facts, parts, groups = [], [], {}
    known = z3.IntVal(0)           # offset of the next piece, where it is determined
    for k, x in enumerate(seq):
        if x[0] is sc.LITERAL:
            t = STR(chr(x[1]))
        else:
            nxt = seq[k + 1] if k + 1 < len(seq) else None
            if known is not None and nxt is not None and nxt[0] is sc.LITERAL and excludes(x, nxt[1]):
                i = z3.simplify(z3.IndexOf(s, STR(chr(nxt[1])), known))
                t = z3.SubString(s, known, i - known)
                facts.append(i >= known)
            elif known is not None and k == len(seq) - 1 and end == "full":
                t = z3.SubString(s, known, z3.Length(s) - known)
            else:
                t = UF("re_piece_%d" % k, S, S, S)(STR(pattern), s)
            facts.append(member(t, x))
            if x[0] is sc.SUBPATTERN and x[1][0] is not None:
                groups[x[1][0]] = t
            if x[0] is sc.MAX_REPEAT and x[1][:2] == (0, 1) and len(x[1][2]) == 1 and x[1][2][0][0] is sc.SUBPATTERN and x[1][2][0][1][0] is not None and x[1][2].getwidth()[0] > 0:
                groups[x[1][2][0][1][0]] = ("opt", t)
        parts.append(t)
        known = z3.simplify(known + z3.Length(t)) if known is not None and (x[0] is sc.LITERAL or z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT) else None
    if end == "line":
        rest = UF("re_rest", S, S, S)(STR(pattern), s)
        facts.append(z3.Or(rest == STR(""), rest == STR("\n")))
        parts.append(rest)
    elif end == "any":
        parts.append(UF("re_rest", S, S, S)(STR(pattern), s))
    facts.append(s == (z3.Concat(*parts) if len(parts) > 1 else parts[0] if parts else STR("")))
    return facts, groups
