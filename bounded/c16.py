"""inline dates and literals. The calendar tables here are independent of the ones in the code."""
import datetime
from bounded.common import *
from bounded import ixmini

RULE = "random dates (valid, non-existent) and non-dates in every date format, with month names of every language in several forms, Japanese eras, the Indian national calendar, and the fixed literals; many facts per inline document, opened through Filing.open"

# language -> 12 lists of forms (as they are written in dates)
N = dict(
    bg="януари;ян.|февруари;фев.|март|април|май|юни|юли|август|септември|октомври|ноември|декември",
    da="januar;jan.|februar;feb.|marts;mar.|april|maj|juni|juli|august|september;sep.|oktober;okt.|november|december;dec.",
    de="Januar;Jan.;Jänner|Februar|März;Mär.|April|Mai|Juni|Juli|August|September|Oktober;Okt.|November|Dezember;Dez.",
    el="Ιανουαρίου;Ιαν|Φεβρουαρίου;Φεβ|Μαρτίου;Μαρ|Απριλίου;Απρ|Μαΐου;Μαι|Ιουνίου;Ιουν|Ιουλίου;Ιουλ|Αυγούστου;Αυγ|Σεπτεμβρίου|Οκτωβρίου;Οκτ|Νοεμβρίου;Νοε|Δεκεμβρίου",
    es="enero;ene|febrero|marzo|abril|mayo|junio|julio|agosto;ago|septiembre|octubre|noviembre|diciembre;dic",
    et="jaanuar;jaan|veebruar|märts|aprill|mai|juuni|juuli|august|september;sept|oktoober|november|detsember;dets",
    fi="tammikuuta|helmikuuta|maaliskuuta|huhtikuuta|toukokuuta|kesäkuuta|heinäkuuta|elokuuta|syyskuuta|lokakuuta|marraskuuta|joulukuuta",
    fr="janvier;janv.|février;fevr.|mars|avril;avr.|mai|juin|juillet;juil.|août;aout|septembre|octobre|novembre|décembre;dec.",
    hr="siječnja|veljače|ožujka;ozujka|travnja|svibnja|lipnja|srpnja|kolovoza|rujna|listopada|studenoga|prosinca",
    it="gennaio;gen|febbraio|marzo|aprile|maggio;mag|giugno|luglio|agosto|settembre;set|ottobre|novembre|dicembre;dic",
    nl="januari|februari|maart;mrt|april|mei|juni|juli|augustus|september|oktober;okt|november|december",
    no="januar|februar|mars|april|mai|juni|juli|august|september|oktober;okt|november|desember;des",
    pl="stycznia|lutego|marca|kwietnia|maja|czerwca|lipca|sierpnia|września|października;paz|listopada|grudnia",
    pt="janeiro|fevereiro;fev|março|abril;abr|maio|junho|julho|agosto|setembro;set|outubro;out|novembro|dezembro;dez",
    ro="ianuarie;ian|februarie|martie|aprilie|mai|iunie|iulie|august|septembrie|octombrie|noiembrie;nov|decembrie",
    sk="januára|februára|marca|apríla|mája;maj|júna;jun|júla;jul|augusta|septembra|októbra|novembra|decembra",
    sl="januar|februar|marec;marca|april|maj|junij|julij|avgust|september|oktober|november|december",
    sv="januari|februari|mars|april|maj|juni|juli|augusti|september|oktober|november|december",
    hu="január|február|március;marc.|április;apr.|május;maj.|június|július|augusztus|szeptember|október|november|december",
    lt="sausio|vasario|kovo|balandžio|gegužės|birželio|liepos|rugpjūčio;rugp|rugsėjo;rugs|spalio|lapkričio|gruodžio",
    lv="janvāris|februāris|marts|aprīlis|maijs|jūnijs;jun|jūlijs;jul|augusts|septembris|oktobris|novembris|decembris",
)
N["lv"] = "janv.|febr.|marts|aprīlis|maijs|jūnijs;jun|jūlijs;jul|augusts|septembris|oktobris|novembris|decembris"
N = {k: [m.split(";") for m in v.split("|")] for k, v in N.items()}
EXACT = dict(
    cs="ledna;led|února;unora;úno|března;brezna;bře|dubna;dub|května;kvetna;kvě|června;cervna;čvn|července;cervence;čvc|srpna;srp|září;zari;zář|října;rijna;říj|listopadu;lis|prosince;pro",
    en="January;Jan|February;Feb|March;Mar|April;Apr|May|June;Jun|July;Jul|August;Aug|September;Sep|October;Oct|November;Nov|December;Dec",
    hi="जनवरी|फरवरी|मार्च|अप्रैल|मई|जून|जुलाई|अगस्त|सितंबर|अक्टूबर|नवंबर|दिसंबर",
)
EXACT = {k: [m.split(";") for m in v.split("|")] for k, v in EXACT.items()}
CY_DAY = [[x] for x in "Ionawr Chwefror Mawrth Ebrill Mai Mehefin Gorffennaf Awst Medi Hydref Tachwedd Rhagfyr".split()]
ROMAN = [[x] for x in "I II III IV V VI VII VIII IX X XI XII".split()]
DEV = dict(zip("0123456789", "०१२३४५६७८९"))
WIDE = dict(zip("0123456789", "０１２３４５６７８９"))
ERAS = {"明治": 1868, "明": 1868, "大正": 1912, "大": 1912, "昭和": 1926, "昭": 1926, "平成": 1989, "平": 1989, "令和": 2019, "令": 2019}
ERA_FIRST = {1868: (1868, 10, 23), 1912: (1912, 7, 30), 1926: (1926, 12, 25), 1989: (1989, 1, 8), 2019: (2019, 5, 1)}
ERA_LAST = {1868: (1912, 7, 29), 1912: (1926, 12, 24), 1926: (1989, 1, 7), 1989: (2019, 4, 30), 2019: (9999, 12, 31)}
SAKA = ["चैत्र", "वैशाख;बैसाख", "ज्येष्ठ", "आषाढ", "श्रावण;सावन", "भाद्रपद;भादो", "आश्विन", "कार्तिक", "मार्गशीर्ष;अगहन", "पौष", "माघ", "फाल्गुन"]
SAKA = [m.split(";") for m in SAKA]


def cased(r, s, lang):
    return r.choice([s, s.lower(), s.upper() if lang not in ("el",) else s, s[0].upper() + s[1:].lower()])


def name(r, lang, m):
    if lang in EXACT:
        s = r.choice(EXACT[lang][m - 1])
        if lang == "en": return r.choice([s, s.upper()])
        return cased(r, s, lang)
    return cased(r, r.choice(N[lang][m - 1]), lang)


# every format: (kind, names) with kind the order of the parts
FORMATS = {}
for l in list(N) + ["cs", "cy"]:
    if l in ("hu", "lt", "lv"): continue
    FORMATS["date-day-monthname-" + l] = ("dm", l)
    FORMATS["date-day-monthname-year-" + l] = ("dmy", l)
    FORMATS["date-monthname-year-" + l] = ("my", l)
for l in ("hu", "lt"):
    FORMATS["date-monthname-day-" + l] = ("md", l)
    FORMATS["date-year-monthname-day-" + l] = ("ymd", l)
    FORMATS["date-year-monthname-" + l] = ("ym", l)
FORMATS.update({
    "date-day-monthname-lv": ("dm", "lv"), "date-year-day-monthname-lv": ("ydm", "lv"), "date-year-monthname-lv": ("ym", "lv"),
    "date-day-monthname-en": ("dm", "en"), "date-day-monthname-year-en": ("dmy", "en"), "date-monthname-day-en": ("md", "en"),
    "date-monthname-day-year-en": ("mdy", "en"), "date-monthname-year-en": ("my", "en"), "date-year-monthname-en": ("ym", "en"),
    "date-day-monthname-year-hi": ("dmy", "hi"), "date-monthname-year-hi": ("my", "hi"),
    "date-day-month": ("dm", "#"), "date-month-day": ("md", "#"), "date-day-month-year": ("dmy", "#"), "date-month-day-year": ("mdy", "#"),
    "date-year-month-day": ("ymd", "#"), "date-year-month": ("ym", "#"), "date-month-year": ("my", "#"),
    "date-day-monthroman": ("dm", "R"), "date-day-monthroman-year": ("dmy", "R"), "date-monthroman-year": ("my", "R"),
    # earlier registries
    "datedaymonth": ("dm", "#"), "datedaymonthdk": ("dm", "da"), "datedaymonthen": ("dm", "en"), "datedaymonthyear": ("dmy", "#"),
    "datedaymonthyeardk": ("dmy", "da"), "datedaymonthyearen": ("dmy", "en"), "datemonthday": ("md", "#"), "datemonthdayen": ("md", "en"),
    "datemonthdayyear": ("mdy", "#"), "datemonthdayyearen": ("mdy", "en"), "datemonthyear": ("my", "#"), "datemonthyeardk": ("my", "da"),
    "datemonthyearen": ("my", "en"), "datemonthyearin": ("my", "hi"), "dateyearmonthday": ("ymd", "#"), "dateyearmonthen": ("ym", "en"),
    "dateyearmonthdaycjk": ("ymd", "J"), "dateyearmonthcjk": ("ym", "J"), "datedaymonthyearin": ("dmy", "hi"),
    "datedoteu": ("dmy", "#"), "datedotus": ("mdy", "#"), "datelonguk": ("dmy", "en"), "datelongus": ("mdy", "en"), "dateshortuk": ("dmy", "en"),
    "dateshortus": ("mdy", "en"), "dateslasheu": ("dmy", "#"), "dateslashus": ("mdy", "#"), "datelongdaymonthuk": ("dm", "en"),
    "datelongmonthdayus": ("md", "en"), "dateshortdaymonthuk": ("dm", "en"), "dateshortmonthdayus": ("md", "en"), "dateslashdaymontheu": ("dm", "#"),
    "dateslashmonthdayus": ("md", "#"), "datelongyearmonth": ("ym", "en"), "dateshortyearmonth": ("ym", "en"), "datelongmonthyear": ("my", "en"), "dateshortmonthyear": ("my", "en"),
})
DIM = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def exists(y, m, d):
    try:
        datetime.date(y, m, d)
        return True
    except ValueError:
        return False


def date(r, fmt):
    """(text, ISO form or None if there is no such date)"""
    order, lang = FORMATS[fmt]
    y, m = r.choice([r.randint(1900, 2099), r.randint(2000, 2030), r.randint(1000, 9999)]), r.randint(1, 12)
    d = r.choice([r.randint(1, 28), r.randint(28, 31), DIM[m - 1]])
    if r.random() < .04: d = r.choice([0, 32, 45, 99])
    if lang == "#" and r.random() < .04: m = r.choice([0, 13, 20, 99])
    ys = "%d" % y
    if "y" in order and r.random() < .2:
        s = r.randint(0, 99)
        y, ys = 2000 + s, ("%02d" % s if lang in ("hi",) or s > 9 or r.random() < .5 else "%d" % s)
    ds = r.choice(["%d", "%02d"]) % d
    if lang == "#" or lang == "J": ms = r.choice(["%d", "%02d"]) % m
    elif lang == "R": ms = r.choice([str.upper, str.lower])(ROMAN[m - 1][0])
    elif lang == "cy": ms = cased(r, CY_DAY[m - 1][0], "cy")
    else: ms = name(r, lang, m)
    if "d" not in order: ok = 1 <= m <= 12
    elif "y" in order: ok = exists(y, m, d)
    else: ok = exists(2020, m, d)
    parts = {"d": ds, "m": ms, "y": ys}
    if lang == "J":
        t = "".join(parts[k] + {"y": "年", "m": "月", "d": "日"}[k] for k in order)
        if r.random() < .5: t = "".join(WIDE.get(c, c) for c in t)
    else:
        if lang == "#": sep = r.choice([".", "/", "-", " ", ". ", " - "])
        elif lang == "R": sep = r.choice([".", "/", "-", " ", ". "])
        else: sep = r.choice([" ", ". ", "-", "  ", " / "]) if order[0] != "m" or lang not in () else " "
        t = sep.join(parts[k] for k in order)
        if lang in ("pt", "es") and r.random() < .3: t = " de ".join(parts[k] for k in order)
        if lang == "en" and order in ("mdy",) and r.random() < .5: t = "%s %s, %s" % (ms, ds, ys)
        if lang == "en" and "d" in order and order[0] == "d" and r.random() < .2: t = t.replace(ds, ds + "th", 1)
        if fmt in ("date-day-month-year", "date-month-year") and r.random() < .2: t = "".join(DEV.get(c, c) for c in t)
        if fmt in ("date-year-month-day", "date-year-month") and r.random() < .2: t = "".join(WIDE.get(c, c) for c in t)
        if lang == "hi" and r.random() < .4: t = "".join(DEV.get(c, c) for c in t)
    iso = {"d": "%02d" % d, "m": "%02d" % m, "y": "%04d" % y}
    if "y" not in order: e = "--%s-%s" % (iso["m"], iso["d"])
    elif "d" not in order: e = "%s-%s" % (iso["y"], iso["m"])
    else: e = "%s-%s-%s" % (iso["y"], iso["m"], iso["d"])
    return pad(r, t), e if ok else None


def pad(r, t):
    return r.choice(["", "", "", " ", "\n"]) + t + r.choice(["", "", "", " ", "\n "])


def era(r):
    fmt = r.choice(["date-jpn-era-year-month-day", "date-jpn-era-year-month", "dateerayearmonthdayjp", "dateerayearmonthjp"])
    full = "day" in fmt
    e = r.choice(list(ERAS))
    y0 = ERAS[e]
    first, last = ERA_FIRST[y0], ERA_LAST[y0]
    k = r.random()
    if k < .2: y, m, d = first
    elif k < .4 and y0 != 2019: y, m, d = last
    elif k < .5:
        x = datetime.date(*first) - datetime.timedelta(days=r.choice([1, 2, 60])); y, m, d = max(x.year, y0), x.month, x.day
    else:
        hi = min(last[0], y0 + 60)
        y, m, d = r.randint(y0, hi), r.randint(1, 12), r.randint(1, 31)
    n = y - y0 + 1
    ns = "元" if n == 1 and r.random() < .7 else "%d" % n
    sp = r.choice(["", "", " "])
    t = "%s%s%s年%s%d月" % (e, sp, ns, sp, m) + ("%s%d日" % (sp, d) if full else "")
    if r.random() < .4: t = "".join(WIDE.get(c, c) for c in t)
    ok = (exists(y, m, d) and first <= (y, m, d) <= last) if full else first[:2] <= (y, m) <= last[:2]
    return fmt, pad(r, t), (("%04d-%02d-%02d" % (y, m, d) if full else "%04d-%02d" % (y, m)) if ok else None)


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def saka(r):
    fmt = r.choice(["date-ind-day-monthname-year-hi", "calindaymonthyear"])
    y, m = r.randint(1850, 2020), r.randint(1, 12)
    short = r.random() < .25
    if short: y = r.randint(1922, 2020)
    n = [31 if leap(y + 78) else 30, 31, 31, 31, 31, 31, 30, 30, 30, 30, 30, 30]
    d = r.choice([r.randint(1, 30), r.randint(28, 32)])
    # 1 Chaitra is 22 March, or 21 March in leap years
    start = datetime.date(y + 78, 3, 21 if leap(y + 78) else 22)
    x = start + datetime.timedelta(days=sum(n[:m - 1]) + d - 1)
    t = r.choice(["%d %s %d", "%02d %s, %d", "%d-%s-%d"]) % (d, r.choice(SAKA[m - 1]), y)
    # a year of two digits is one from 2000 to 2099
    if short and 2000 <= x.year <= 2099: t = t[:-4] + t[-2:]
    if r.random() < .5: t = "".join(DEV.get(c, c) for c in t)
    return fmt, pad(r, t), x.isoformat() if 1 <= d <= n[m - 1] else None


LITERALS = {"fixed-true": "true", "fixed-false": "false", "fixed-empty": "", "booleantrue": "true", "booleanfalse": "false", "nocontent": ""}


def nondate(r):
    fmt = r.choice(list(FORMATS))
    order, lang = FORMATS[fmt]
    y, m, d = r.randint(2000, 2030), r.randint(1, 12), r.randint(1, 28)
    bad = ["", "none", "n/a", "%d" % y]
    if "y" in order: bad += ["12/34/56/78"]
    if lang not in ("#", "J", "R"):
        bad += ["%d Foo %d" % (d, y), "Xyz %d" % d, "%d Qqq" % d, "%d.13.%d" % (d, y)]
    elif lang == "#": bad += ["%d March %d" % (d, y) if order != "dm" and order != "md" and order != "ym" and order != "my" else "March %d" % d, "%d" % d]
    elif lang == "R": bad += ["%d Foo" % d, "%d 3 %d" % (d, y)]
    t = r.choice(bad)
    return fmt, t if t.strip() else "?"


DATE = ["DATE_DOES_NOT_MATCH_EXPECTED_FORMAT", "INVALID_GREGORIAN_DATE", "INVALID_JAPANESE_IMPERIAL_DATE", "YEAR_OR_MONTH_NOT_PRESENT_IN_NON_RECURRING_DATE", "MONTH_OR_DAY_NOT_PRESENT_IN_RECURRING_DATE", "DAY_NOT_PRESENT_IN_FULL_DATE", "YEAR_PRESENT_IN_RECURRING_DATE"]


def dates(env):
    r = env.rng
    facts, want, bad = [], {}, []
    for i in range(r.choice([1, 20, 60])):
        n, k = "f%d" % i, r.random()
        if k < .68:
            f = r.choice(list(FORMATS))
            t, e = date(r, f)
        elif k < .76: f, t, e = era(r)
        elif k < .84: f, t, e = saka(r)
        elif k < .92:
            f = r.choice(list(LITERALS))
            t, e = r.choice(["yes", "no", "x", "☐", "—", "  ", "true", "0"]), LITERALS[f]
        elif k < .97:
            f, t = nondate(r)
            bad.append((n, ["DATE_DOES_NOT_MATCH_EXPECTED_FORMAT"], t.strip()))
            facts.append(ixmini.fact(n, "S", t, format="ixt:" + f))
            continue
        else:
            f, c = r.choice([("date-day-month-yearx", "UNSUPPORTED_DATE_FORMAT"), ("datefoo", "UNSUPPORTED_DATE_FORMAT"), ("fixed-nothing", "UNSUPPORTED_LITERAL_FACT_FORMAT"), ("num-dot-decimal", "UNSUPPORTED_NON_NUMERIC_FACT_FORMAT")])
            bad.append((n, [c], "ixt:" + f))
            facts.append(ixmini.fact(n, "S", "12", format="ixt:" + f))
            continue
        if e is None: bad.append((n, ["INVALID_GREGORIAN_DATE", "INVALID_JAPANESE_IMPERIAL_DATE"], t.strip()))
        else: want[n] = (e, f, t)
        facts.append(ixmini.fact(n, "S", t, format="ixt:" + f))
    F = env.open(ixmini.write(env, facts))
    env.digest = [str(want), str(bad)]
    got = {x.get_id(): str(x) for x in F.get_all_facts()}
    for n, (e, f, t) in want.items():
        expect(n in got, "lost", "an inline date is not reported", "%r" % ((f, t),))
        expect(got[n] == e, "value:" + f, "an inline date or literal has another value than it displays", "format %s text %r\nexpected %r\nreported %r" % (f, t, e, got[n]))
    errs = F.get_all_errors()
    left = list(zip(codes(errs), [e.get_message() for e in errs]))
    for n, cs, part in bad:
        hit = [x for x in left if (x[0] in cs or cs[0] in DATE and x[0] in DATE) and "'%s'" % part in x[1]]
        expect(hit, "diagnosed:" + cs[0], "no diagnostic for text that is no such date", "%s %s %r\nreported %r; have %s" % (n, cs, part, got.get(n), left[:6]))
    # one problem may have several diagnostics
    about = {part for _, _, part in bad}
    left = [x for x in left if not any("'%s'" % p in x[1] for p in about)]
    expect(not left, "spurious", "diagnostics for well-formed dates", left[:3])


CASES = dict(dates=dates)
