"""Text and time: unit strings (units.py), the coupler date file and time
stamps (io.py, time.py)."""
import io

SPACE = [(9, 13), (28, 32), (133, 133), (160, 160), (5760, 5760), (8192, 8202), (8232, 8233), (8239, 8239), (8287, 8287), (12288, 12288)]

BOUNDS = {
    "C31": "all pairs of strings of up to four characters each (up to six and two), long strings which differ in up to two at the beginning, end or in the middle, every character any code point",
    "C30": "every whole microsecond of the years 1 to 9999, in units from days to microseconds, and from 1678 to 2261 in nanoseconds",
    "C25": "calendars 0 to 99, every date of the year 1 on (1600 on for the Gregorian calendar), fields of one to six digits with and without leading zeros, "
    "four ways of spacing, with and without comments and further lines",
}
OUTSIDE = {
    "C31": "other long strings",
    "C30": "parts of a microsecond, units longer than a day, not-a-time",
    "C25": "files with missing fields or lines; time zones; dates that the calendar does not have",
}
ASSUMPTIONS = [
    "quotients of double-precision numbers are within half a unit in the last place of the exact ones, and the datetime module rounds them to the nearest microsecond",
    "the date library keeps the fields and calendar it is given (the real one runs in replays)"]


# -- unit strings -----------------------------------------------------------------
def letter(env, name):
    """Any code point; the smallest choices are a space, letters and a slash."""
    i = env.int(name, 0, 0x10FFFF)
    code = i
    for k, c in enumerate((32, 109, 77)):
        code = env.ite(i == k, c, env.ite(i == c, k, code))
    return code


def is_space(env, c):
    return env.Or(*[env.And(c >= a, c <= b) for a, b in SPACE])


def equal_but_for_space(env, a, b):
    def trims(s):
        n = len(s)
        sp = [is_space(env, c) for c in s]
        out = [(env.And(*sp), [])]
        for i in range(n):
            for j in range(i + 1, n + 1):
                out.append((env.And(*sp[:i], *sp[j:], env.Not(sp[i]), env.Not(sp[j - 1])), s[i:j]))
        return out

    all_a, all_b = trims(a), trims(b)
    return env.Or(*[
        env.And(ca, cb, *[x == y for x, y in zip(ta, tb)])
        for ca, ta in all_a for cb, tb in all_b if len(ta) == len(tb)
    ])


COMMON = "kg m^-2 s^-1 (liquid water equivalent) per  layer\tof K/Pa"  # no white space at its ends


def trimmed_equal(env, a, b):
    """Equal but for white space at the end."""
    def heads(s):
        return [(env.And(*[is_space(env, c) for c in s[i:]], *([env.Not(is_space(env, s[i - 1]))] if i else [])), s[:i]) for i in range(len(s) + 1)]

    return env.Or(*[env.And(ca, cb, *[x == y for x, y in zip(ta, tb)]) for ca, ta in heads(a) for cb, tb in heads(b) if len(ta) == len(tb)])


def run_units(env, cfg):
    a = [letter(env, f"a{k}") for k in range(cfg["na"])]
    b = [letter(env, f"b{k}") for k in range(cfg["nb"])]
    if cfg.get("common"):
        # long strings which differ in a few characters at one end, or around a part in the middle
        common = [ord(c) for c in COMMON]
        if cfg["common"] == "middle":
            want = env.And(len(a) == len(b), *[x == y for x, y in zip(a, b)])
            a, b = common + a + common[::-1], common + b + common[::-1]
        else:
            side = 1 if cfg["common"] == "first" else -1
            want = trimmed_equal(env, a[::side], b[::side])
            a, b = (common + a, common + b) if side == 1 else (a + common, b + common)
    else:
        want = equal_but_for_space(env, a, b)
    x, y = env.text(a), env.text(b)
    what = lambda: f"{x!r} and {y!r}"  # noqa
    got = env.util.units_are_equal(x, y)
    env.check(env.Iff(got, want), "unit strings are equal exactly if they are the same but for white space around them", what)
    raised = False
    try:
        r = env.util.ensure_equal_units(x, y)
        env.check(r is None, "ensuring equal units returns nothing")
    except env.util.UnitsError:
        raised = True
    env.check(env.Iff(want, not raised), "a UnitsError is raised exactly if the units differ", what)
    env.cover("raised" if raised else "equal")


# -- the coupler file --------------------------------------------------------------
CALENDARS = {1: "360_day", 2: "julian", 3: "gregorian", 4: "noleap"}
MONTHS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


class Date:
    """What the date library is asked for."""

    def __init__(self, calendar, fields):
        self.calendar = calendar
        self.year, self.month, self.day, self.hour, self.minute, self.second = fields


# -- time stamps ---------------------------------------------------------------------
def run_stamp(env, cfg):
    import datetime
    import os
    import time

    unit = cfg["unit"]
    # the years 1 to 9999; a nanosecond count holds 1678 to 2261 only
    day = env.int("day", -106751, 106750) if unit == "ns" else env.int("day", -719162, 2932896)
    sec = env.int("sec", 0, 86399)
    us = env.int("us", 0, 999999)
    if unit in ("D", "h", "m", "s"):
        env.assume(us == 0)
    elif unit == "ms":
        env.assume(us % 1000 == 0)
    per = {"D": 86400, "h": 3600, "m": 60}.get(unit, 1)
    if per > 1:
        env.assume(sec % per == 0)
        count = (day * 86400 + sec) // per
    elif unit == "ms":
        count = (day * 86400 + sec) * 1000 + us // 1000
    else:
        total = (day * 86400 + sec) * 10**6 + us
        count = {"s": day * 86400 + sec, "us": total, "ns": total * 1000}[unit]
    if env.symbolic:
        from symx import times

        stamp = times.DT64(count, unit)
        before = (stamp.n, stamp.unit)
    else:
        import numpy as np

        os.environ["TZ"] = "XST-05:30"  # not the zone of the result
        time.tzset()
        stamp = np.datetime64(int(count), unit)
    got = env.util.datetime64_to_datetime(stamp)
    if env.symbolic:
        env.check(isinstance(got, times.SymDatetime), "a time stamp becomes a datetime", lambda: f"{got!r}")
        zone, value = got.tzinfo, got.us
    else:
        env.check(isinstance(got, datetime.datetime), "a time stamp becomes a datetime", lambda: f"{got!r}")
        zone, value = got.tzinfo, (got.replace(tzinfo=None) - datetime.datetime(1970, 1, 1)) // datetime.timedelta(microseconds=1)
    env.check(zone is None, "the datetime has no time zone")
    env.check(value == (day * 86400 + sec) * 10**6 + us, "the datetime is the instant of the time stamp, to the microsecond", lambda: f"{stamp} gives {got}")
    env.cover("converted")


def stubs(ctx, cfg):
    if cfg["kind"] == "stamp":
        from symx import times

        return {"datetime": times.module()}
    if cfg["kind"] != "coupler":
        return {}
    from symx.core import Unsupported
    from symx.loader import StubModule

    def cls(calendar):
        def init(self, year, month=1, day=1, hour=0, minute=0, second=0, microsecond=0, calendar=calendar, **k):
            if k or microsecond != 0:
                raise Unsupported("date options")
            if any(isinstance(x, float) for x in (hour, minute, second)):
                raise Unsupported("fractional date")
            Date.__init__(self, calendar, (year, month, day, hour, minute, second))

        return type("StandInDate", (Date,), {"__init__": init})

    names = {"Datetime360Day": "360_day", "DatetimeJulian": "julian", "DatetimeGregorian": "gregorian", "DatetimeNoLeap": "noleap",
             "DatetimeProlepticGregorian": "proleptic_gregorian", "DatetimeAllLeap": "all_leap", "datetime": "standard"}
    return {"cftime": StubModule("cftime", {k: cls(v) for k, v in names.items()})}


class Lines:
    def __init__(self, lines):
        self.lines = lines

    def readline(self):
        return self.lines.pop(0) if self.lines else ""

    def readlines(self):
        out, self.lines = self.lines, []
        return out

    def read(self):
        out = ""
        for x in self.readlines():
            out = out + x
        return out

    def __iter__(self):
        while self.lines:
            yield self.lines.pop(0)


def digits(env, name, n):
    """n decimal digits: their codes and the number they make."""
    ds = [env.int(f"{name}_{k}", 0, 9) for k in range(n)]
    v = 0
    for d in ds:
        v = v * 10 + d
    return [d + 48 for d in ds], v


def run_coupler(env, cfg):
    U = env.util
    tens = env.choice("calendar_tens", cfg.get("tens", [0]))
    cal = tens * 10 + env.choice("calendar", cfg["calendars"])
    widths = env.choice("widths", cfg["widths"])
    lead, sep, pad = env.choice("spacing", [("     ", "    ", "  "), ("", " ", ""), (" ", "\t", " "), ("\t", " \t ", "\r")])
    comment = env.choice("comment", ["", "(Calendar: no_calendar=0, thirty_day_months=1, julian=2, gregorian=3, noleap=4)", "7 8 9"])
    text = lambda s: [ord(c) for c in s]  # noqa
    names = ("year", "month", "day", "hour", "minute", "second")

    def line(prefix, values):
        out = text(lead)
        for k, v in enumerate(values):
            out += (text(sep) if k else []) + v
        return out + text(pad) + (text("   " + comment) if comment else []) + text("\n")

    fields = {n: digits(env, "now_" + n, w) for n, w in zip(names, widths)}
    y, m, d = (fields[n][1] for n in names[:3])
    env.assume(y >= (1600 if cal == 3 else 1))
    env.assume(env.And(m >= 1, m <= 12, d >= 1, fields["hour"][1] <= 23, fields["minute"][1] <= 59, fields["second"][1] <= 59))
    if cal == 1:
        env.assume(d <= 30)
    else:
        leap = {2: y % 4 == 0, 3: env.And(y % 4 == 0, env.Or(y % 100 != 0, y % 400 == 0))}.get(cal, False)
        env.assume(env.Or(*[env.And(m == k + 1, d <= n) for k, n in enumerate(MONTHS)], env.And(m == 2, d == 29, leap)))
    first = line("cal", [text(str(cal).zfill(env.choice("calendar_width", cfg.get("calwidths", [1]))))])
    start = line("start", [digits(env, "start_" + n, w)[0] for n, w in zip(names, widths)])
    if cfg.get("broken_calendar"):
        code = env.int("broken", 33, 126)
        env.assume(env.And(*[code != ord(c) for c in "+-_"], env.Or(code < 48, code > 57)))
        where = env.choice("where", [0, 1])
        f = [line("cal", [[code] + text(str(cal)) if where else text(str(cal)) + [code]]), start, line("now", [fields[n][0] for n in names])]
        lines = [env.text(c) for c in f]
        try:
            r = U.io.get_current_date_from_coupler_res(Lines(lines) if env.symbolic else io.StringIO("".join(lines)))
        except Exception as e:
            if type(e).__name__ in ("Unsupported", "PathAbort", "Violated", "Budget"):
                raise
            env.cover("broken calendar")
            return
        env.fail("a calendar that is not a number is an error", lambda: f"{lines[0]!r} gives {r}")
    if cfg.get("broken"):
        n = env.choice("broken_field", names)
        broken = env.int("broken", 33, 126)
        env.assume(env.And(*[broken != ord(c) for c in "+-_"]))
        env.assume(env.Or(broken < 48, broken > 57, broken == fields[n][0][-1]))
        fields[n][0][-1] = broken
    now = line("now", [fields[n][0] for n in names])
    more = env.choice("more", [[], ["  some more text\n"]])
    lines = [env.text(first), env.text(start), env.text(now)] + more
    f = Lines(lines) if env.symbolic else io.StringIO("".join(lines))
    if cal not in CALENDARS:
        try:
            r = U.io.get_current_date_from_coupler_res(f)
        except Exception as e:
            if type(e).__name__ in ("Unsupported", "PathAbort", "Violated", "Budget"):
                raise
            env.cover("unknown calendar")
            return
        env.fail("a calendar that is not known is an error", f"calendar {cal} gives {r}")
    if cfg.get("broken"):
        try:
            U.io.get_current_date_from_coupler_res(f)
        except ValueError:
            raised = True
        else:
            raised = False
        env.check(env.Iff(raised, env.Or(broken < 48, broken > 57)), "a field that is not a number is an error, and only that", lambda: repr(lines[2]))
        env.cover("broken" if raised else "sound")
        return
    got = U.io.get_current_date_from_coupler_res(f)
    c = {"standard": "gregorian"}.get(got.calendar, got.calendar)
    env.check(c == CALENDARS[cal], "the date is in the calendar the first line names", lambda: f"calendar {cal} gives {got.calendar}")
    for n in names:
        env.check(getattr(got, n) == fields[n][1], "the date has the fields of the third line", lambda: f"{n} of {got}")
    env.check(isinstance(got, Date) if env.symbolic else got.microsecond == 0, "the date is a date of the library")
    env.cover("date")


def run(env, cfg):
    globals()["run_" + cfg["kind"]](env, cfg)


def configs(tier, prop):
    out = []

    def add(name, kind, **k):
        k.setdefault("max_models", 24)
        k.setdefault("max_paths", 200000)
        out.append(dict(name=name, kind=kind, **k))

    if prop == "C31":
        n = 4
        for a in range(n + 1):
            for b in range(n + 1):
                add(f"lengths {a} {b}", "units", na=a, nb=b)
        for a, b in ((5, 1), (1, 5), (6, 2), (2, 6)):
            add(f"lengths {a} {b}", "units", na=a, nb=b)
        for where in ("first", "last", "middle"):
            for a, b in ((1, 1), (2, 2), (2, 0), (0, 1)):
                add(f"long, common part {where}, {a} {b}", "units", na=a, nb=b, common=where)
        if tier != "quick":
            for a, b in ((5, 4), (5, 5), (4, 5), (6, 4)):
                add(f"lengths {a} {b}", "units", na=a, nb=b)
        return out
    if prop == "C30":
        for u in ("D", "h", "m", "s", "ms", "us", "ns"):
            add("unit " + u, "stamp", unit=u)
        return out
    full, short = [4, 2, 2, 2, 2, 2], [4, 1, 1, 1, 1, 1]
    mixed = [[4, 1, 2, 1, 2, 1], [3, 2, 1, 2, 1, 2], [1, 2, 2, 2, 2, 2]]
    for c in CALENDARS:
        add(f"calendar {c}", "coupler", calendars=[c], widths=[full, short] if c != 3 else [full, [4, 1, 2, 1, 2, 1]])
        if c != 3:
            add(f"calendar {c} other widths", "coupler", calendars=[c], widths=mixed)
        add(f"calendar {c} wide", "coupler", calendars=[c], widths=[[6, 2, 5, 2, 3, 2], [5, 4, 3, 3, 2, 6]], calwidths=[2, 4])
    add("broken calendar", "coupler", calendars=[2], widths=[full], broken_calendar=True)
    add("broken fields", "coupler", calendars=[2], widths=[full], broken=True)
    add("unknown calendars", "coupler", calendars=[0, 5, 6, 7, 8, 9], widths=[full])
    add("unknown calendars of two digits", "coupler", tens=[1, 2, 4], calendars=[1, 2, 3, 4, 7], widths=[full])
    return out
