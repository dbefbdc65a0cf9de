"""The contracts: executable specification of legend855/chrono-cpp.

Every function here is written once and used twice: with symbolic values, as
the postcondition the verifier has to establish for the real code, and with
plain Python values, as the oracle a concrete run of the real code is compared
with.  Only arithmetic, comparisons and the small capture interface below are
used, so that both readings are the same text.
"""

FIELDS = ("year", "month", "mday", "wday", "hour", "min", "sec", "tzoffset")
TAGS = ("ENCasualTimeParser", "ENCasualDateParser", "ENDeadlineFormatParser", "ENDayOfTheWeekParser",
        "ENMonthNameMiddleEndianParser", "ENTimeLaterParser", "ENMonthNameParser", "ENTimeAgoFormatParser",
        "ENISOFormatParser", "ENTimeExpressionParser", "ENUSHolidaysParser", "ENRelativeDateFormatParser",
        "ENMergeDateRangeRefiner", "ENMergeDateAndTimeRefiner", "ExtractTimeZoneAbbreviation")
INT_MAX = 2147483647
US = 1000000
SEC, MINUTE, HOUR, DAY = US, 60 * US, 3600 * US, 86400 * US
MIN_YEAR, MAX_YEAR = 1400, 9999
LIMIT = {"year": 2730, "month": 32767, "week": 285000, "day": 2000000, "hour": 48000000}


class NoResult(Exception):
    """The phrase names no date that can be represented."""


class Unspecified(Exception):
    """The property leaves open what this phrase gives."""


class Any:
    """A value the property leaves open."""
    def __repr__(self):
        return "*"


ANY = Any()

# ---------------------------------------------------------------- calendar
CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


class Calendar:
    """Proleptic Gregorian calendar; day numbers as in Boost (Julian day)."""

    def eom(self, y, m):
        if m == 2:
            return 29 if leap(y) else 28
        return 30 if m in (4, 6, 9, 11) else 31

    def dn(self, y, m, d):
        p = y - 1
        return 1721425 + 365 * p + p // 4 - p // 100 + p // 400 + CUM[m - 1] + (1 if m > 2 and leap(y) else 0) + d

    def ymd(self, n):
        if not (self.MIN <= n <= self.MAX):
            raise NoResult("outside the calendar")
        r = n - 1721426                      # days since 0001-01-01
        q400, r = divmod(r, 146097)
        q100 = min(r // 36524, 3)
        r -= q100 * 36524
        q4, r = divmod(r, 1461)
        q1 = min(r // 365, 3)
        r -= q1 * 365
        y = 400 * q400 + 100 * q100 + 4 * q4 + q1 + 1
        m = 12
        while CUM[m - 1] + (1 if m > 2 and leap(y) else 0) > r:
            m -= 1
        return y, m, r - CUM[m - 1] - (1 if m > 2 and leap(y) else 0) + 1


CAL = Calendar()
Calendar.MIN = CAL.dn(1400, 1, 1)
Calendar.MAX = CAL.dn(9999, 12, 31)


def wday(dn):
    """0 = Sunday"""
    return (dn + 1) % 7


def add_months(cal, dn, n):
    """The day n months on, the last day of a month staying the last day."""
    y, m, d = cal.ymd(dn)
    t = y * 12 + (m - 1) + n
    y2, m2 = t // 12, t % 12 + 1
    if y2 < MIN_YEAR or y2 > MAX_YEAR:
        raise NoResult("outside the calendar")
    last = cal.eom(y2, m2)
    if d == cal.eom(y, m) or d > last:
        d = last
    return cal.dn(y2, m2, d)


class Ref:
    """A reference time: day number and time of day."""

    def __init__(self, dn, h, mi, s, us=0):
        self.dn, self.h, self.mi, self.s, self.us = dn, h, mi, s, us

    @property
    def total(self):
        return self.dn * DAY + self.h * HOUR + self.mi * MINUTE + self.s * SEC + self.us


# ---------------------------------------------------------------- results
class Comps:
    """View of a date: each field explicit (True), implied (False) or unset, with its value."""

    def __init__(self, f=None):
        self.f = dict(f or {})

    def copy(self):
        return Comps(self.f)

    def set(self, k, v):
        self.f[k] = (True, v)

    def imply(self, k, v):
        c, _ = self.f.get(k, (False, 0))
        if c is ANY:
            return
        if not c:
            self.f[k] = (False, v)

    def any(self, k):
        self.f[k] = (ANY, ANY)

    def get(self, k):
        v = self.f.get(k, (False, 0))[1]
        return 0 if v is ANY else v

    def certain(self, k):
        return self.f.get(k, (False, 0))[0]

    def date(self, cal, dn, put):
        y, m, d = cal.ymd(dn)
        put("year", y)
        put("month", m)
        put("mday", d)

    def imply_date(self, cal, dn):
        self.date(cal, dn, self.imply)

    def set_date(self, cal, dn):
        self.date(cal, dn, self.set)


class Res:
    """View of a result."""

    def __init__(self, index=0, text="", start=None, end=None, tags=()):
        self.index, self.text, self.start, self.end = index, text, start or Comps(), end
        self.tags = set(tags) if isinstance(tags, (tuple, list, set)) else tags.copy()
        self.anytags = set()
        self.open = False
        self.opentext = False

    def copy(self):
        r = Res(self.index, self.text, self.start.copy(), self.end.copy() if self.end else None, self.tags)
        r.anytags = set(self.anytags)
        return r


def possible_comps(cal, c):
    y, m, d = c.get("year"), c.get("month"), c.get("mday")
    if y < MIN_YEAR or y > MAX_YEAR or m < 1 or m > 12 or d < 1:
        return False
    if d > cal.eom(y, m):
        return False
    if c.get("hour") < 0 or c.get("hour") > 24:
        return False
    return not (c.get("min") < 0 or c.get("min") > 59 or c.get("sec") < 0 or c.get("sec") > 59)


def possible(cal, r):
    if not possible_comps(cal, r.start):
        return False
    return r.end is None or possible_comps(cal, r.end)


def instant(cal, c):
    """Microseconds of a possible date."""
    return (cal.dn(c.get("year"), c.get("month"), c.get("mday")) * DAY
            + c.get("hour") * HOUR + c.get("min") * MINUTE + c.get("sec") * SEC)


MON = ("Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec")


def render_instant(cal, t):
    """(year, month, day, hour, minute, second) of an instant"""
    dn = t // DAY
    y, m, d = cal.ymd(dn)
    r = t % DAY
    return y, m, d, r // HOUR, r % HOUR // MINUTE, r % MINUTE // SEC


def render(cal, r):
    shift = 0
    if "ExtractTimeZoneAbbreviation" in r.tags:
        shift = r.start.get("tzoffset") * MINUTE
    out = [render_instant(cal, instant(cal, r.start) + shift)]
    if r.end is not None:
        out.append(render_instant(cal, instant(cal, r.end) + shift))
    return out


def render_text(parts):
    return " - ".join("%04d-%s-%02d %02d:%02d:%02d" % (y, MON[m - 1], d, h, mi, s) for y, m, d, h, mi, s in parts)


# ---------------------------------------------------------------- vocabularies
INTEGER = {w: i + 1 for i, w in enumerate(
    "one two three four five six seven eight nine ten eleven twelve".split())}
_ORD = ("first second third fourth fifth sixth seventh eighth ninth tenth eleventh twelfth thirteenth fourteenth "
        "fifteenth sixteenth seventeenth eighteenth nineteenth twentieth").split()
ORDINAL = {w: i + 1 for i, w in enumerate(_ORD)}
ORDINAL.update({"twenty " + w: 21 + i for i, w in enumerate(_ORD[:9])})
ORDINAL.update({"thirtieth": 30, "thirty first": 31})
MONTH = {}
for _i, _w in enumerate("january february march april may june july august september october november december".split()):
    for _k in {_w, _w[:3], _w[:3] + "."}:
        MONTH[_k] = _i + 1
MONTH.update({"sept": 9, "sept.": 9})
WEEKDAY = {}
for _i, _w in enumerate("sunday monday tuesday wednesday thursday friday saturday".split()):
    WEEKDAY[_w] = WEEKDAY[_w[:3]] = _i
WEEKDAY.update({"tues": 2, "thur": 4, "thurs": 4})
TIMEZONE = {}
for _p in """ACDT 630 ACST 570 ADT -180 AEDT 660 AEST 600 AFT 270 AKDT -480 AKST -540 ALMT 360 AMST -180 AMT -240 ANAST 720
 ANAT 720 AQTT 300 ART -180 AST -240 AWDT 540 AWST 480 AZOST 0 AZOT -60 AZST 300 AZT 240 BNT 480 BOT -240 BRST -120
 BRT -180 BST 60 BTT 360 CAST 480 CAT 120 CCT 390 CDT -300 CEST 120 CET 60 CHADT 825 CHAST 765 CKT -600 CLST -180 CLT -240
 COT -300 CST -360 CVT -60 CXT 420 ChST 600 DAVT 420 EASST -300 EAST -360 EAT 180 ECT -300 EDT -240 EEST 180 EET 120
 EGST 0 EGT -60 EST -300 ET -300 FJST 780 FJT 720 FKST -180 FKT -240 FNT -120 GALT -360 GAMT -540 GET 240 GFT -180
 GILT 720 GMT 0 GST 240 GYT -240 HAA -180 HAC -300 HADT -540 HAE -240 HAP -420 HAR -360 HAST -600 HAT -90 HAY -480 HKT 480
 HLV -210 HNA -240 HNC -360 HNE -300 HNP -480 HNR -420 HNT -150 HNY -540 HOVT 420 ICT 420 IDT 180 IOT 360 IRDT 270
 IRKST 540 IRKT 540 IRST 210 IST 330 JST 540 KGT 360 KRAST 480 KRAT 480 KST 540 KUYT 240 LHDT 660 LHST 630 LINT 840
 MAGST 720 MAGT 720 MART -510 MAWT 300 MDT -360 MESZ 120 MEZ 60 MHT 720 MMT 390 MSD 240 MSK 240 MST -420 MUT 240 MVT 300
 MYT 480 NCT 660 NDT -90 NFT 690 NOVST 420 NOVT 360 NPT 345 NST -150 NUT -660 NZDT 780 NZST 720 OMSST 420 OMST 420
 PDT -420 PET -300 PETST 720 PETT 720 PGT 600 PHOT 780 PHT 480 PKT 300 PMDT -120 PMST -180 PONT 660 PST -480 PT -480
 PWT 540 PYST -180 PYT -240 RET 240 SAMT 240 SAST 120 SBT 660 SCT 240 SGT 480 SRT -180 SST -660 TAHT -600 TFT 300 TJT 300
 TKT 780 TLT 540 TMT 300 TVT 720 ULAT 480 UTC 0 UYST -120 UYT -180 UZT 300 VET -210 VLAST 660 VLAT 660 VUT 660 WAST 120
 WAT 60 WEST 60 WESZ 60 WET 0 WEZ 0 WFT 720 WGST -120 WGT -180 WIB 420 WIT 540 WITA 480 WST 780 WT 0 YAKST 600 YAKT 600
 YAPT 600 YEKST 360 YEKT 360""".split("\n"):
    _q = _p.split()
    TIMEZONE.update({_q[i]: int(_q[i + 1]) for i in range(0, len(_q), 2)})

# ---------------------------------------------------------------- patterns
_NUM = r"one|two|three|four|five|six|seven|eight|nine|ten|eleven|twelve"
_DAYNAME = (r"Sun(?:day)?|Mon(?:day)?|Tue(?:s(?:day)?)?|Wed(?:nesday)?|Thu(?:r(?:s(?:day)?)?)?|Fri(?:day)?|Sat(?:urday)?")
_ORDRE = (r"first|second|third|fourth|fifth|sixth|seventh|eighth|ninth|tenth|eleventh|twelfth|thirteenth|fourteenth|"
          r"fifteenth|sixteenth|seventeenth|eighteenth|nineteenth|twentieth|twenty[ -]first|twenty[ -]second|"
          r"twenty[ -]third|twenty[ -]fourth|twenty[ -]fifth|twenty[ -]sixth|twenty[ -]seventh|twenty[ -]eighth|"
          r"twenty[ -]ninth|thirtieth|thirty[ -]first")
_SEP = "\\.|\\:|\\\xef\xbc\x9a"           # full-width colon as UTF-8 bytes
_SEP2 = "\\:|\\\xef\xbc\x9a"
_AMPM = r"A\.M\.?|P\.M\.?|AM?|PM?|O\W*CLOCK"
_RANGE = "\\-|\\\xe2\x80\x93|\\~|\\\xe3\x80\x9c|to|\\?"
PATTERN = {
    "casualdate": r"(\b)(now|today|tonight|last\s*night|(?:tomorrow|tmr|yesterday)\s*|tomorrow|tmr|yesterday)(\b)",
    "casualtime": r"(\b)((this)?\s*(morning|afternoon|evening|noon|night))(\b)",
    "weekday": (r"(\b)(earl(?:ier|y)|late)?(?:\s*(this|last|next)\s*)?(" + _DAYNAME
                + r")(?:\s*(this|last|next)\s*)?(?:(week)\s*)?(\b)"),
    "deadline": (r"(\b)(within|in)\s+((?:" + _NUM + r")|[0-9]+|an?(?:\s+few)?|half(?:\s+an?)?)\s+"
                 r"(sec(?:ond)?s?|min(?:ute)?s?|h(?:ou)?rs?|days?|w(?:ee)?ks?|months?|y(?:ea)?rs?)(\b)"),
    "iso": (r"(\b)([0-9]{4})\-([0-9]{1,2})\-([0-9]{1,2})(?:T([0-9]{1,2}):([0-9]{1,2})"
            r"(?::([0-9]{1,2})(?:\.(\d{1,4}))?)?(?:Z|([+-]\d{2}):?(\d{2})?)?)?(\b)"),
    "monthday": (r"(\b)(?:(?:on\s*?)?(" + _DAYNAME + r")\s*,?\s*)?"
                 r"(Jan(?:uary|\.)?|Feb(?:ruary|\.)?|Mar(?:ch|\.)?|Apr(?:il|\.)?|May\.?|Jun(?:e|\.)?|Jul(?:\.|y)?|"
                 r"Aug(?:ust|\.)?|Sep(?:\.|t(?:\.|ember)?)?|Oct(?:ober|\.)?|Nov(?:\.|ember)?|Dec(?:ember|\.)?)"
                 r"(?:-|\/|\s*,?\s*)(([0-9]{1,2})(?:st|nd|rd|th)?|" + _ORDRE + r")(?!\s*(?:am|pm))\s*"
                 r"(?:(?:to|\-)\s*(([0-9]{1,2})(?:st|nd|rd|th)?|" + _ORDRE + r")\s*)?"
                 r"(?:(?:-|\/|\s*,?\s*)(?:([0-9]{4})\s*(BE|AD|BC)?|([0-9]{1,4})\s*(AD|BC))\s*)?(\b)(?!\:\d)"),
    "month": (r"(^|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|Apr\.?|April|May\.?|Jun\.?|June|Jul\.?|"
              r"July|Aug\.?|August|Sep\.?|Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December)\s*"
              r"(?:[,-]?\s*([0-9]{4})(\s*(?:BE|AD|BC))?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$)"),
    "relative": (r"(\b)(this|next|last|past)\s*((?:" + _NUM + r")|[0-9]+|few|half(?:\s*an?)?)?\s*"
                 r"(seconds?|min(?:ute)?s?|hour(?:s)?|day(?:s)?|week(?:s)?|month(?:s)?|year(?:s)?)(?=\s*)(\b)"),
    "ago": (r"(\b)(?:within\s*)?((?:((?:" + _NUM + r")|[0-9]+|an?(?:\s*few)?|half(?:\s*an?)?)\s*"
            r"(sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*)+)(?:ago|before|earlier)(\b)"),
    "time": (r"(^|\s|T)(?:(?:at|from)\s*)??(\d{1,4}|noon|midnight)(?:(?:" + _SEP + r")(\d{1,2})(?:(?:" + _SEP2
             + r")(\d{2})(?:\.(\d{1,6}))?)?)?(?:\s*(" + _AMPM + r"))?(?=\W|$) ?((^|\s*)(" + _RANGE
             + r")\s*(\d{1,4})(?:(?:" + _SEP + r")(\d{1,2})(?:(?:" + _SEP + r")(\d{1,2})(?:\.(\d{1,6}))?)?)?(?:\s*("
             + _AMPM + r"))?(\b))?"),
    "later": (r"(\b)((?:((?:" + _NUM + r")|[0-9]+|an?(?:\s*few)?|half(?:\s+an?)?)\s+"
              r"(sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*)+)"
              r"(?:later|after|from now|henceforth|forward|out)(\b)"),
    "holiday": (r"(\b)(Independence|President\'s|New\s*Year\'s(?:\s*eve)?|Columbus|MLK|"
                r"Martin\s*Luther\s*King\s*(?:Junior|Jr|Jnr)|Thanksgiving|Memorial|Labor|Veteran(?:s|\'s)|"
                r"Christmas\s*(?:eve)?|black\s*Friday)\s*(?:day)?(\b)"),
    "week": r"(\b)((?:last|next)\s+(?:(\d+)|(\w{3,9}))?\s*weeks?|this\s*week)(\b)",
    "unit": (r"((?:eight|eleven|five|four|nine|one|seven|six|ten|three|twelve|two)|[0-9]+|an?(?:\s*few)?|half(?:\s*an?)?)"
             r"\s*(sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*"),
}


# ---------------------------------------------------------------- counts
def count(m, g):
    """The count of a captured number: (value, halves) with halves true for 'half'."""
    n = m.lookup(g, INTEGER, None)
    if n is not None:
        return n, False
    if m.eq(g, "a") or m.eq(g, "an"):
        return 1, False
    if m.has(g, "few"):
        return 3, False
    if m.has(g, "half"):
        return 0, True
    n = m.num(g)
    return n, False


def checked(n, limit):
    if n > limit:
        raise NoResult("count too large")
    return n


HALF = {"hour": ("minute", 30), "minute": ("second", 30), "second": ("second", 1), "week": ("day", 3),
        "day": ("hour", 12), "month": ("day", 15), "year": ("month", 6)}
SCALE = {"hour": HOUR, "minute": MINUTE, "second": SEC}
# compound durations are applied in this order
ORDER = ("day", "hour", "minute", "month", "second", "week", "year")


def unit_of(m, g):
    for u in ("hour", "min", "sec", "week", "day", "month", "year"):
        if m.has(g, u):
            return {"min": "minute", "sec": "second"}.get(u, u)
    return None


def move(cal, t, unit, n, sign):
    """An instant moved by n units."""
    dn, rest = t // DAY, t % DAY
    if unit in SCALE:
        return t + sign * n * SCALE[unit]
    if unit == "day":
        dn = dn + sign * n
    elif unit == "week":
        dn = dn + sign * 7 * n
    elif unit == "month":
        dn = add_months(cal, dn, sign * n)
    else:
        dn = add_months(cal, dn, sign * 12 * n)
    return dn * DAY + rest


def clock(put, t):
    r = t % DAY
    put("hour", r // HOUR)
    put("min", r % HOUR // MINUTE)
    put("sec", r % MINUTE // SEC)


# ---------------------------------------------------------------- parsers
def x_casualdate(m, ref, cal):
    r = Res(tags={"ENCasualDateParser"})
    c, dn = r.start, ref.dn
    if m.begins(0, "tonight"):
        c.imply("hour", 22)
    elif m.begins(0, "tomorrow") or m.begins(0, "tmr"):
        if ref.h > 0:
            dn = dn + 1
    elif m.begins(0, "yesterday"):
        dn = dn - 1
        c.imply("hour", ref.h)
    elif m.begins(0, "last"):
        c.imply("hour", 0)
        if ref.h > 6:
            dn = dn - 1
    elif m.eq(0, "now"):
        c.set("hour", ref.h)
        c.set("min", ref.mi)
        c.set("sec", ref.s)
    c.set_date(cal, dn)
    return r


def x_casualtime(m, ref, cal):
    r = Res(tags={"ENCasualTimeParser"})
    c = r.start
    c.imply("hour", m.lookup(4, {"morning": 6, "noon": 12, "afternoon": 15, "evening": 20, "night": 20}, 0))
    c.imply_date(cal, ref.dn)
    c.imply("wday", wday(ref.dn))
    c.imply("min", ref.mi)
    return r


def x_weekday(m, ref, cal):
    r = Res(tags={"ENDayOfTheWeekParser"})
    c = r.start
    day = m.lookup(4, WEEKDAY, None)
    mod = ""
    if m.empty(3):
        if not m.empty(5):
            mod = m.choose(5, ("this", "last", "next"))
    elif m.empty(5):
        mod = m.choose(3, ("this", "last", "next"))
    dn = ref.dn - wday(ref.dn) + day
    if mod == "last":
        c.set_date(cal, dn - 7)
    elif mod == "next":
        c.set_date(cal, dn + 7)
    else:
        c.imply_date(cal, dn)
    if m.eq(2, "earlier") or m.eq(2, "early"):
        c.imply("hour", 6)
        c.imply("min", 1)
    elif m.eq(2, "late"):
        c.imply("hour", 20)
        c.imply("min", 1)
    return r


def deadline_unit(m, g):
    if m.begins(g, "h"):
        return "hour"
    if m.begins(g, "min"):
        return "minute"
    if m.begins(g, "sec"):
        return "second"
    if m.begins(g, "day"):
        return "day"
    if m.begins(g, "w"):
        return "week"
    if m.begins(g, "mon"):
        return "month"
    return "year"


def moved(r, ref, cal, n, half, unit, sign):
    """Implied fields of the reference moved by n (or half) units."""
    c = r.start
    if half:
        small, k = HALF[unit]
        t = move(cal, ref.total, small, k, sign)
    else:
        if unit in LIMIT:
            n = checked(n, LIMIT[unit])
        t = move(cal, ref.total, unit, n, sign)
    c.imply_date(cal, t // DAY)
    if unit in SCALE:
        clock(c.imply, t)
    elif half and unit == "day":
        clock(c.imply, t)
        c.any("sec")
    return r


def x_deadline(m, ref, cal):
    n, half = count(m, 3)
    unit = deadline_unit(m, 4)
    if not half and n > INT_MAX:
        raise NoResult("count too large")
    r = Res(tags={"ENDeadlineFormatParser"})
    if unit not in SCALE:
        r.anytags.add("ENDeadlineFormatParser")
    return moved(r, ref, cal, n, half, unit, 1)


def moved_fragments(frag, ref, cal, sign, tag):
    """frag: unit -> count (None when absent)"""
    r = Res(tags={tag})
    t = ref.total
    for u in ORDER:
        n = frag.get(u)
        if n is None:
            continue
        if u in LIMIT:
            n = checked(n, LIMIT[u])
        t = move(cal, t, u, n, sign)
        cal.ymd(t // DAY)
    some = lambda us: any(frag.get(u) is not None and frag.get(u) > 0 for u in us)
    if some(("hour", "minute", "second")):
        clock(r.start.set, t)
    if some(("day", "month", "year", "week")):
        r.start.set_date(cal, t // DAY)
    else:
        r.start.imply_date(cal, t // DAY)
    return r


def x_ago(m, ref, cal):
    return moved_fragments(m.fragments(2), ref, cal, -1, "ENTimeAgoFormatParser")


def x_later(m, ref, cal):
    return moved_fragments(m.fragments(2), ref, cal, 1, "ENTimeLaterParser")


def x_relative(m, ref, cal):
    r = Res(tags={"ENRelativeDateFormatParser"})
    unit = unit_of(m, 4)
    if m.eq(2, "this"):
        if not m.empty(3) or unit in SCALE or unit == "day":
            raise NoResult("'this' with a count or a smaller unit")
        y, mo, d = cal.ymd(ref.dn)
        s, e = r.start, Comps()
        if unit == "week":
            first = ref.dn - wday(ref.dn)
            s.imply_date(cal, first)
            e.imply_date(cal, first + 6)
        elif unit == "month":
            s.imply("mday", 1)
            e.imply("mday", cal.eom(y, mo))
            for c in (s, e):
                c.set("month", mo)
                c.set("year", y)
        else:
            for c, md in ((s, (1, 1)), (e, (12, 31))):
                c.imply("month", md[0])
                c.imply("mday", md[1])
                c.set("year", y)
        r.end = e
        return r
    sign = 1 if m.eq(2, "next") else -1
    if m.empty(3):
        n, half = 1, False
    else:
        n, half = count(m, 3)
    if half and unit == "second":
        raise Unspecified()
    if not half and unit not in LIMIT:
        n = checked(n, INT_MAX)
    return moved(r, ref, cal, n, half, unit, sign)


def x_week(m, ref, cal):
    r = Res()
    r.anytags.add("ENRelativeDateFormatParser")
    n = 1
    if not m.empty(3):
        n = m.num(3)
        if n > INT_MAX:
            raise NoResult("count too large")
    elif not m.empty(4):
        n = m.lookup(4, INTEGER, None)
        if n is None:
            raise NoResult("unknown count")
    dn = ref.dn
    if m.begins(2, "last"):
        dn = dn - 7 * checked(n, LIMIT["week"])
    elif m.begins(2, "next"):
        dn = dn + 7 * checked(n, LIMIT["week"])
    r.start.imply_date(cal, dn)
    return r


def x_iso(m, ref, cal):
    r = Res(tags={"ENISOFormatParser"})
    c = r.start
    c.set("year", m.num(2))
    c.set("month", m.num(3))
    c.set("mday", m.num(4))
    if not m.empty(5):
        c.set("hour", m.num(5))
        c.set("min", m.num(6))
        if not m.empty(7):
            c.set("sec", m.num(7))
        off = 0
        if not m.empty(9):
            off = 60 * m.absnum(9)
            if not m.empty(10):
                off = off + m.num(10)
            if m.begins(9, "-"):
                off = -off
        c.set("tzoffset", off)
    return r


def era_year(m, y, era):
    """A written year: era is the group of its era."""
    if not m.empty(era):
        if m.has(era, "be"):
            return y - 543
        if m.has(era, "bc"):
            return -y
        return y
    if y < 100:
        return y + 2000
    return y


def distance(a, b):
    d = a - b
    return d if d >= 0 else -d


def nearest_year(cal, ref, mo, day):
    """The year among previous, current, next in which mo/day is nearest to the reference."""
    y, _, _ = cal.ymd(ref.dn)
    if day > cal.eom(y, mo):
        raise NoResult("no such date in the reference year")

    def at(yy):
        if yy < MIN_YEAR or yy > MAX_YEAR:
            raise NoResult("outside the calendar")
        e = cal.eom(yy, mo)
        return cal.dn(yy, mo, day if day <= e else e)

    here, nxt, prv = at(y), at(y + 1), at(y - 1)
    if distance(nxt, ref.dn) < distance(here, ref.dn):
        return y + 1
    if distance(prv, ref.dn) < distance(here, ref.dn):
        return y - 1
    return y


def day_number(m, g, gnum):
    if m.empty(gnum):
        return m.ordinal(g)
    return m.num(gnum)


def x_monthday(m, ref, cal):
    r = Res(tags={"ENMonthNameMiddleEndianParser"})
    c = r.start
    mo = m.lookup(3, MONTH, None)
    day = day_number(m, 4, 5)
    if day == 0 or day > 31:
        raise NoResult("no such day")
    if not m.empty(8):
        y = era_year(m, m.num(8), 9)
    elif not m.empty(10):
        y = era_year(m, m.num(10), 11)
    else:
        y = nearest_year(cal, ref, mo, day)
    c.set("mday", day)
    c.set("month", mo)
    c.set("year", y)
    if not m.empty(2):
        c.set("wday", m.lookup(2, WEEKDAY, None))
    if not m.empty(6):
        e = c.copy()
        e.set("mday", day_number(m, 6, 7))
        e.set("hour", 23)
        e.set("min", 59)
        r.end = e
    return r


def x_month(m, ref, cal):
    r = Res(tags={"ENMonthNameParser"})
    c = r.start
    mo = m.lookup(2, MONTH, None)
    c.imply("mday", 1)
    c.set("month", mo)
    if not m.empty(3):
        c.set("year", era_year(m, m.num(3), 4))
    else:
        c.imply("year", nearest_year(cal, ref, mo, 1))
    return r


def clock_value(m, gh, gm):
    """hour and minute as written"""
    if m.eq(gh, "noon"):
        h = 12
    elif m.eq(gh, "midnight"):
        h = 0
    else:
        h = m.num(gh)
    mi = 0
    if not m.empty(gm):
        mi = m.num(gm)
    elif h > 100:
        h, mi = h // 100, h % 100
    return h, mi


def meridiem(m, g):
    """'a', 'p', 'o' or '' when not written"""
    if m.empty(g):
        return ""
    return "a" if m.begins(g, "a") else "p" if m.begins(g, "p") else "o"


def x_time(m, ref, cal):
    r = Res(tags={"ENTimeExpressionParser"})
    c = r.start
    if not m.empty(4):
        s = m.num(4)
        if s > 59:
            raise NoResult("second")
        c.set("sec", s)
    h, mi = clock_value(m, 2, 3)
    if mi > 59 or h > 24:
        raise NoResult("minute or hour")
    ap = meridiem(m, 6)
    if ap != "":
        if h > 12:
            raise NoResult("am/pm with an hour above 12")
        if ap == "a" and h == 12:
            h = 0
        elif ap == "p" and h != 12:
            h = h + 12
    e = None
    if not m.empty(7) and not m.range_is_offset(7):
        e, h = range_end(m, h, ap)
    c.set("hour", h)
    c.set("min", mi)
    c.imply_date(cal, ref.dn)
    if e is not None:
        e.imply_date(cal, ref.dn)
        r.end = e
    return r


def range_end(m, h, ap):
    """(end or None when it is invalid, hour of the start)"""
    th, tm = clock_value(m, 10, 11)
    if tm > 59 or th > 24:
        return None, h
    tap = meridiem(m, 14)
    if tap != "":
        if th > 12:
            return None, h
        if tap == "a" and th == 12:
            th = 0
        elif tap == "p" and th != 12:
            th = th + 12
        if tap == "p" and ap == "" and h < 12:
            h = h + 12
    elif ap == "a" and th == 12:
        th = 0
    elif ap == "p" and th < 12:
        th = th + 12
    e = Comps()
    if not m.empty(12):
        s = m.num(12)
        if s > 59:
            return None, h
        e.set("sec", s)
    e.set("hour", th)
    e.set("min", tm)
    return e, h


def nth_wday(cal, y, mo, wd, n):
    """Day number of the n-th weekday wd of a month (n = 5: the last one)."""
    if n == 5:
        last = cal.dn(y, mo, cal.eom(y, mo))
        return last - (wday(last) - wd) % 7
    first = cal.dn(y, mo, 1)
    return first + (wd - wday(first)) % 7 + 7 * (n - 1)


def x_holiday(m, ref, cal):
    r = Res(tags={"ENUSHolidaysParser"})
    c = r.start
    y, _, _ = cal.ymd(ref.dn)
    fixed, float_ = None, None
    if m.begins(2, "independence"):
        fixed = (7, 4)
    elif m.begins(2, "new"):
        fixed = (12, 31) if m.has(2, "eve") else (1, 1)
    elif m.begins(2, "veteran"):
        fixed = (11, 11)
    elif m.begins(2, "christmas"):
        fixed = (12, 24) if m.has(2, "eve") else (12, 25)
    elif m.begins(2, "mlk") or m.begins(2, "martin"):
        float_ = (1, 1, 3, 0)
    elif m.begins(2, "labor"):
        float_ = (9, 1, 1, 0)
    elif m.begins(2, "president"):
        float_ = (2, 1, 3, 0)
    elif m.begins(2, "thanksgiving"):
        float_ = (11, 4, 4, 0)
    elif m.begins(2, "black"):
        float_ = (11, 4, 4, 1)
    elif m.begins(2, "memorial"):
        float_ = (5, 1, 5, 0)
    elif m.begins(2, "columbus"):
        float_ = (10, 1, 2, 0)
    if fixed is not None:
        c.set("year", y)
        c.set("month", fixed[0])
        c.set("mday", fixed[1])
    else:
        mo, wd, n, plus = float_
        dn = nth_wday(cal, y, mo, wd, n) + plus
        c.set_date(cal, dn)
        c.set("wday", (wd + plus) % 7)
    c.set("hour", 0)
    c.set("min", 0)
    return r


EXTRACT = {k[2:]: v for k, v in list(globals().items()) if k.startswith("x_")}
PARSERS = tuple(EXTRACT)
TOOL = ("casualtime", "deadline", "weekday", "casualdate", "monthday", "later", "month", "ago", "time", "iso", "holiday", "week")     # the parsers of the command line tool


# ---------------------------------------------------------------- refiners
def size(s):
    return len(s) if isinstance(s, str) else s.size()


def overlap(results):
    """results: list of views ordered by index"""
    if len(results) < 2:
        return results
    out = []
    prev = results[0]
    for cur in results[1:]:
        done, prev = overlap_step(prev, cur)
        if done is not None:
            out.append(done)
    if not nothing(prev):
        out.append(prev)
    return out


def overlap_step(prev, cur):
    """(the result that is settled now or None, the one still open)"""
    if cur.index < prev.index + size(prev.text):
        return None, cur if size(cur.text) > size(prev.text) else prev
    return prev, cur


def nothing(r):
    return r.index == 0 and size(r.text) == 0


def merged_clock(d, t):
    c = d.copy()
    if t.certain("hour"):
        c.set("hour", t.get("hour"))
        c.set("min", t.get("min"))
        if t.certain("sec"):
            c.set("sec", t.get("sec"))
        else:
            c.imply("sec", t.get("sec"))
    else:
        c.imply("hour", t.get("hour"))
        c.imply("min", t.get("min"))
        c.imply("sec", t.get("sec"))
    return c


def is_date_only(r):
    return not r.start.certain("hour")


def is_time_only(r):
    return not r.start.certain("month") and not r.start.certain("mday")


def span(text, a, b):
    lo = a.index if a.index <= b.index else b.index
    ea, eb = a.index + size(a.text), b.index + size(b.text)
    hi = ea if ea >= eb else eb
    return lo, text[lo:hi]


def merge_date_time(cal, text, d, t):
    r = d.copy()
    r.start = merged_clock(d.start, t.start)
    if d.end is not None or t.end is not None:
        de = d.end if d.end is not None else d.start
        te = t.end if t.end is not None else t.start
        e = merged_clock(de, te)
        if d.end is None and instant(cal, e) < instant(cal, r.start):
            dn = cal.dn(e.get("year"), e.get("month"), e.get("mday")) + 1
            if dn > cal.MAX:                     # no day follows the last one
                e = None
            else:
                y, m, dd = cal.ymd(dn)
                put = e.set if e.certain("mday") else e.imply
                put("mday", dd)
                put("month", m)
                put("year", y)
        r.end = e
    r.index, r.text = span(text, d, t)
    r.tags = d.tags | t.tags | {"ENMergeDateAndTimeRefiner"}
    return r


def pairwise(results, merge):
    """Left to right, merge neighbours; merge(a, b) gives None when they do not merge."""
    if len(results) < 2:
        return results
    out, i = [], 0
    while i < len(results):
        r, k = pair_step(results[i], results[i + 1] if i + 1 < len(results) else None, merge)
        out.append(r)
        i += k
    return out


def pair_step(a, b, merge):
    """(the next result, how many it is made of)"""
    r = merge(a, b) if b is not None else None
    return (a, 1) if r is None else (r, 2)


def datetime(cal, text, results):
    return pairwise(results, datetime_merge(cal, text))


def datetime_merge(cal, text, combine=merge_date_time):
    def merge(a, b):
        if is_date_only(a) and is_time_only(b):
            return combine(cal, text, a, b)
        if is_date_only(b) and is_time_only(a):
            return combine(cal, text, b, a)
        return None
    return merge


def merge_range(cal, text, a, b):
    if instant(cal, a.start) > instant(cal, b.start):
        a, b = b, a
    r = a.copy()
    r.end = b.start.copy()
    r.index, r.text = span(text, a, b)
    r.tags = a.tags | b.tags | {"ENMergeDateRangeRefiner"}
    return r


def range_(cal, text, results):
    return pairwise(results, range_merge(cal, text))


def range_merge(cal, text, combine=merge_range):
    def merge(a, b):
        if a.end is None and b.end is None:
            lo, hi = a.index + size(a.text), b.index
            between = text[lo:] if hi < lo else text[lo:hi]
            if any(w in between for w in ("and", "to", "through", "-")):
                return combine(cal, text, a, b)
        return None
    return merge


def timezone(text, results):
    return [timezone_of(text, r.copy()) for r in results]


def timezone_of(text, r):
    """A trailing abbreviation; the text of a tagged result is left open."""
    if "ENTimeExpressionParser" not in r.tags:
        return r
    at = r.index + size(r.text)
    if at > size(text):
        return r
    off = zone_offset(tz_name(text[at:]))
    if off is None:
        return r
    for c in (r.start, r.end):
        if c is not None and not c.certain("tzoffset"):
            c.set("tzoffset", off)
    r.tags.add("ExtractTimeZoneAbbreviation")
    r.opentext = True
    return r


def zone_offset(w):
    """minutes of a known abbreviation, or None"""
    return w.offset() if hasattr(w, "offset") else TIMEZONE.get(w)


def tz_name(rest):
    """The abbreviation when it is all that is left (blanks before it, parentheses)."""
    if hasattr(rest, "tz_name"):
        return rest.tz_name()
    s = rest.lstrip(" \t\n\v\f\r")
    if s.startswith("("):
        s = s[1:]
    if s.endswith(")"):
        s = s[:-1]
    if 2 <= len(s) <= 5 and all("a" <= ch <= "z" or "A" <= ch <= "Z" for ch in s):
        return "".join(chr(ord(ch) - 32) if "a" <= ch <= "z" else ch for ch in s)
    return None
