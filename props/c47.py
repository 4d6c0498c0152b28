"""C47 local time is the wall clock in force right now"""
import os
import time as real_time
from datetime import datetime as real_datetime
from datetime import timedelta as real_timedelta
from datetime import timezone as real_timezone

BOUNDS = ("all zones with a standard offset of -12..14 h and a daylight shift of -2..2 h, both in full minutes, with and without daylight "
          "rules, in effect or not; all instants; ages of files -10..400 days and limits 0..400 days on a grid of 10 s")
OUTSIDE = "instants other than the current one (zones have one fixed offset), changes of the zone while a query runs, file systems with coarser time stamps"
STUBS = ["time/datetime/timezone of the helper module -> symbolic clock and zone (replays: real zones set by TZ)"]
MODULES = ()
TIME = True


def cases(tier):
    return [("zone", "zone", {}), ("now", "now", {}), ("date", "date", {}), ("older", "older", {})]


class Local:
    """struct_time"""

    def __init__(self, off, dst, name):
        self.tm_gmtoff, self.tm_isdst, self.tm_zone = off, dst, name


class Clock:
    """module time"""

    def __init__(self, std, shift, rule, active):
        self.daylight = int(rule)
        self.timezone = -std
        self.altzone = -(std + shift) if rule else -std
        self.tzname = ("STD", "DST") if rule else ("STD", "STD")
        self.off = std + shift if active else std
        self.active = active

    def localtime(self, *_a):
        return Local(self.off, int(self.active), self.tzname[int(self.active)])

    def time(self):
        return 1_750_000_000.0


class Zone:
    utc = real_timezone.utc

    def __init__(self, offset, name=None):
        self.offset, self.name = offset, name

    def utcoffset(self, _dt=None):
        return self.offset

    def tzname(self, _dt=None):
        return self.name


class Stamp:
    def __init__(self, zone, what="now"):
        self.tzinfo, self.what = zone, what

    def utcoffset(self):
        return self.tzinfo.utcoffset(None)

    def astimezone(self, tz=None):
        return Stamp(tz or Stamp.local())

    @staticmethod
    def local():
        from shepherd_core.data_models.base import timezone as m
        return Zone(real_td(m.time.off), "local")

    def date(self):
        return Stamp(self.tzinfo or Stamp.local(), "date")

    def isoformat(self):
        return Stamp(self.tzinfo or Stamp.local(), self.what + "-iso")

    def strftime(self, fmt):
        if fmt == "%Y-%m-%d":
            return self.date().isoformat()
        raise NotImplementedError(fmt)


class Datetime:
    @staticmethod
    def now(tz=None):
        return Stamp(tz)

    @staticmethod
    def fromtimestamp(x, tz=None):
        assert x == 1_750_000_000.0
        return Stamp(tz)


def real_td(seconds):
    from symx.symtime import TDShim
    return TDShim(seconds=seconds)


def td(sx, seconds):
    return real_td(seconds) if sx.sym else real_timedelta(seconds=seconds)


def seconds(td):
    return td.total_seconds()


def posix(name, off):
    """offset of a POSIX zone counts westwards"""
    off = -off
    s, off = ("-" if off < 0 else ""), abs(off)
    return f"{name}{s}{off // 3600}:{off // 60 % 60:02}"


class setting:
    """zone in which the helper runs; yields the offset in force"""

    def __init__(self, sx):
        self.sx = sx

    def __enter__(self):
        sx = self.sx
        std = sx.int("std", -12 * 60, 14 * 60) * 60
        rule = sx.flag("rule")
        active = rule and sx.flag("active")
        shift = sx.int("shift", -120, 120) * 60 if rule else 0
        off = std + shift if active else std
        if sx.sym:
            from shepherd_core.data_models.base import timezone as m
            self.keep = {k: m.__dict__.get(k) for k in ("time", "datetime", "timezone", "timedelta")}
            from symx.symtime import TDShim
            m.time, m.datetime, m.timezone, m.timedelta = Clock(std, shift, rule, active), Datetime, Zone, TDShim
            return off
        self.keep = os.environ.get("TZ")
        day = real_datetime.now(real_timezone.utc).timetuple().tm_yday
        tz = posix("STD", std)
        if rule:
            # the daylight period holds either new year or the first of July, as zones do
            anchors = [1, 182, 366]
            near = min(anchors, key=lambda k: abs(k - day))
            if active:
                a, b = min(near, day) - 10, max(near, day) + 10
            else:
                far = 182 if near != 182 else 1
                a, b = far - 10, far + 10
            tz += posix("DST", std + shift) + f",J{(a - 1) % 365 + 1},J{(b - 1) % 365 + 1}"
        os.environ["TZ"] = tz
        real_time.tzset()
        return off

    def __exit__(self, *a):
        if self.sx.sym:
            from shepherd_core.data_models.base import timezone as m
            m.__dict__.update(self.keep)
            return
        os.environ.pop("TZ", None)
        if self.keep is not None:
            os.environ["TZ"] = self.keep
        real_time.tzset()


def zone(sx):
    from shepherd_core import local_tz
    with setting(sx) as off:
        tz = local_tz()
        sx.check_eq("offset in force", seconds(tz.utcoffset(None)), off)
        sx.observe("off", off)


def now(sx):
    from shepherd_core import local_now
    with setting(sx) as off:
        t = local_now()
        sx.check_eq("offset in force", seconds(t.utcoffset()), off)
        if sx.sym:
            sx.check("current instant", t.what == "now")
        else:
            sx.check("current instant", abs(t.timestamp() - real_time.time()) < 5)


def date(sx):
    from shepherd_core.data_models.base.timezone import local_iso_date

    def today(off):
        return real_datetime.now(real_timezone(real_timedelta(seconds=off))).date().isoformat()

    with setting(sx) as off:
        before = None if sx.sym else today(off)
        d = local_iso_date()
        if sx.sym:
            sx.check("date of today", isinstance(d, Stamp) and d.what == "date-iso")
            sx.check_eq("where the user is", seconds(d.utcoffset()), off)
        else:
            sx.check("date of today", d in (before, today(off)))
            # at least one of these zones has another date than the others
            for std in (-12, 0, 14):
                os.environ["TZ"] = posix("STD", std * 3600)
                real_time.tzset()
                want = [today(std * 3600)]
                d = local_iso_date()
                sx.check("where the user is", d in (*want, today(std * 3600)))


def older(sx):
    """age of a file"""
    import shepherd_core.testbed_client.fixtures as m
    # ages and limits never coincide, also not their multiples
    age = sx.int("age", -10 * 8640, 400 * 8640) * 10 + 5
    limit = sx.int("limit", 0, 400 * 8640) * 10
    delta = td(sx, limit)
    if sx.sym:
        class Path:
            @staticmethod
            def stat():
                class Stat:
                    st_mtime = (sx.now() - td(sx, age)).timestamp()
                    st_mtime_ns = st_mtime * 10**9
                    st_ctime = st_atime = st_birthtime = 0
                return Stat

            def exists(self):
                return True
        p = Path()
    else:
        p = sx.tmpdir() / "f"
        p.write_bytes(b"")
        t = real_time.time_ns() - age * 10**9
        os.utime(p, ns=(t, t))
    sx.check("older than the limit", sx.iff(m.file_older_than(p, delta), age > limit))
    sx.observe("older", sx.is_true(age > limit))
