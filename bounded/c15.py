"""inline numbers: displayed text, format, scale, sign -> value"""
from decimal import Decimal, getcontext
from bounded.common import *
from bounded import ixmini

getcontext().prec = 200
RULE = "random numerals of every numeric format (all grouping and decimal characters), with and without scale and sign, next to texts that do not match, unknown formats and malformed attributes; many facts per inline document, opened through Filing.open"

NB, APOS = "\u00a0", "'`´’′"
WIDE = dict(zip("0123456789", "０１２３４５６７８９"))
# format -> (decimal character, grouping characters)
PLAIN = {
    "num-dot-decimal": (".", ", " + NB), "num-comma-decimal": (",", ". " + NB),
    "num-dot-decimal-apos": (".", ", " + NB + APOS), "num-comma-decimal-apos": (",", ". " + NB + APOS),
    "numdotdecimal": (".", ", " + NB), "numcommadecimal": (",", ". " + NB), "numdotdecimalin": (".", ", "),
    "numcomma": (",", ""), "numcommadot": (".", ","), "numdotcomma": (",", "."), "numspacecomma": (",", " "), "numspacedot": (".", " "),
}
UNIT = {"num-unit-decimal": ".,，", "num-unit-decimal-apos": ".,，'`´’′＇", "numunitdecimal": ".,", "numunitdecimalin": ","}
ZERO = ["fixed-zero", "zerodash", "numdash"]


def digits(r, n):
    return "".join(r.choice("0123456789" if r.random() < .7 else "00019") for _ in range(n))


def group(r, ds, seps):
    """put grouping characters between the digits"""
    if not seps or r.random() < .3: return ds
    out = ds[0]
    style = r.choice(["three", "lakh", "free"])
    s = r.choice(seps)
    for i, c in enumerate(ds[1:], 1):
        left = len(ds) - i
        if style == "three" and left % 3 == 0 or style == "lakh" and (left == 3 or left > 3 and (left - 3) % 2 == 0) or style == "free" and r.random() < .3:
            out += s if style != "free" else r.choice(seps)
        out += c
    return out


def pad(r, t):
    return r.choice(["", "", "", " ", "\n ", "\t"]) + t + r.choice(["", "", "", " ", " \n"])


def numeral(r):
    """(format, text, value)"""
    k = r.random()
    if k < .62:
        f = r.choice(list(PLAIN))
        dec, seps = PLAIN[f]
        w = digits(r, r.choice([1, 1, 2, 3, 4, 6, 7, 9, 13, 25]))
        if r.random() < .15: w = r.choice(["0", "00", "10", "100", "1000000", "0" + w])
        d = digits(r, r.choice([1, 2, 3, 8, 20])) if r.random() < .5 else ""
        t = group(r, w, seps)
        v = Decimal(w + ("." + d if d else ""))
        if d:
            if r.random() < .06 and f.startswith("num-"): t, v = "", Decimal("0." + d)
            t += dec + (group(r, d, " " + NB) if " " in seps and r.random() < .2 else d)
        return f, pad(r, t), v
    if k < .84:
        f = r.choice(list(UNIT))
        w = digits(r, r.choice([1, 2, 4, 7, 12]))
        sub = r.choice([digits(r, 2), digits(r, 1), "00", "05", "50"])
        v = Decimal(w) + Decimal(sub) / 100
        t = group(r, w, UNIT[f]) + r.choice([" euro ", "€", " EUR and ", "円", " dollars "]) + sub + r.choice(["", " cents", "c", "銭", " c "])
        if r.random() < .25 and f.startswith("num-unit"): t = "".join(WIDE.get(c, c) for c in t)
        return f, pad(r, t), v
    if k < .9:
        return r.choice(ZERO), r.choice(["-", "—", "–", " - "]), Decimal(0)
    w, d = digits(r, r.choice([1, 3, 9, 13, 25])), digits(r, r.choice([1, 2, 5, 9, 20]))
    t = r.choice([w, w + "." + d, "0." + d, "0", "00" + w])
    return None, pad(r, t), Decimal(t)


def wrong(r):
    """(format, text) that does not match"""
    f = r.choice([x for x in PLAIN if x not in ("numcomma", "numspacecomma", "numspacedot", "numcommadot", "numdotcomma")] + list(UNIT))
    if f in UNIT:
        return f, r.choice(["euro 12", "12", "1.234", "12 euro", "12 euro 123 cents", "twelve euro 5", "-3 euro 10", "", "1 2 3"] if True else [])
    dec, seps = PLAIN[f]
    other = "," if dec == "." else "."
    return f, r.choice(["", "-", "n/a", "12a", "a12", "-12", "(12)", "+5", "1" + dec + "2" + dec + "3", "1" + dec + "2" + other + "3", "%s12%%" % "", "1e5", "12" + dec, "1/2", dec, "€ 12", "½", "12;000"])


def attrs(r):
    sc = r.choice([None, None, None, "0", "3", "6", "-2", "-3", "1", "2", "9", "-9", "12", "-14", "-1", "+2"])
    sg = "-" if r.random() < .3 else None
    return sc, sg


def numbers(env):
    r = env.rng
    facts, want, bad = [], {}, []
    for i in range(r.choice([1, 20, 60])):
        k = r.random()
        sc, sg = attrs(r)
        n = "f%d" % i
        if k < .85:
            f, t, v = numeral(r)
            e = v.scaleb(int(sc or 0)) * (-1 if sg else 1)
            want[n] = (e, f, t, sc, sg)
        elif k < .93:
            f, t = wrong(r)
            if not t.strip(): t = "–"
            bad.append((n, "NUMBER_DOES_NOT_MATCH_EXPECTED_FORMAT", t.strip()))
        elif k < .95:
            f, t = r.choice(["num-dot-comma", "fixed-true", "date-day-month", "number", "NUM-DOT-DECIMAL"]), "12"
            bad.append((n, "UNSUPPORTED_NON_FRACTION_FACT_FORMAT", f))
        elif k < .97:
            f, t, sc = "num-dot-decimal", "12", r.choice(["x", "1.5", "3k"])
            bad.append((n, "INVALID_SCALE_ATTRIBUTE_VALUE", sc))
        elif k < .985:
            f, t, sg = "num-dot-decimal", "12", r.choice(["+", "minus", "--"])
            bad.append((n, "IXBRL_INVALID_SIGN_ATTRIBUTE_VALUE", sg))
        else:
            f, t = None, r.choice(["abc", "1,000", "--"])
            bad.append((n, "IXBRL_NON_NUMERICAL_NON_FRACTION_FACT_VALUE", t))
        outer = []
        if k < .85 and r.random() < .12:
            # the number may be written in a nested number: the same text, format and scale, a sign of its own
            for j in range(r.choice([1, 1, 2])):
                s2 = r.choice([None, "-"])
                outer.append((n + "o" * (j + 1), s2))
                want[n + "o" * (j + 1)] = (v.scaleb(int(sc or 0)) * (-1 if s2 else 1), f, t, sc, s2)
        facts.append(ixmini.fact(n, "N", t, format=f and "ixt:" + f, scale=sc, sign=sg, decimals="0" if r.random() < .5 else None))
        for o, s2 in outer:
            inner = facts.pop()[len("<p>"):-len("</p>")]
            facts.append(ixmini.fact(o, "N", "@@", format=f and "ixt:" + f, scale=sc, sign=s2).replace("@@", inner))
    F = env.open(ixmini.write(env, facts))
    env.digest = [str(want), str(bad)]
    got = {}
    for x in F.get_all_facts():
        expect(x.get_id() not in got, "twice", "a fact is reported twice", x.get_id())
        got[x.get_id()] = str(x)
    for n, (e, f, t, sc, sg) in want.items():
        expect(n in got, "lost", "an inline number is not reported", "%r" % ((f, t, sc, sg),))
        try:
            ok = Decimal(got[n]) == e
        except Exception:
            ok = False
        expect(ok, "value:%s" % f, "an inline number has another value than it displays", "format %s text %r scale %s sign %s\nexpected %s\nreported %r" % (f, t, sc, sg, e, got[n]))
    errs = F.get_all_errors()
    left = list(zip(codes(errs), [e.get_message() for e in errs]))
    for n, c, part in bad:
        hit = next((x for x in left if x[0] == c and part in x[1]), None)
        expect(hit is not None, "diagnosed:" + c, "no diagnostic for a malformed inline number", "%s %s %r\nhave %s" % (n, c, part, left[:6]))
        left.remove(hit)
    expect(not left, "spurious", "diagnostics for well-formed inline numbers", left[:3])


CASES = dict(numbers=numbers)
