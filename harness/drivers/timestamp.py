"""Drives the date conversions (C18)."""
import os
import time
from datetime import datetime, timezone, timedelta
from core import T
from warcio import timeutils as tu


def dtup(d):
    return [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond]


def mkdt(t, aware):
    # aware: False, True (UTC) or [minutes east of UTC]
    if isinstance(aware, list):
        return datetime(*t, tzinfo=timezone(timedelta(minutes=aware[0])))
    return datetime(*t, tzinfo=timezone.utc if aware else None)


def is_utc(d):
    return d.tzinfo is not None and d.utcoffset() == timedelta(0)


def ep(sec):
    return list(divmod(sec, 86400))


CONV = {
    ('ts', 'dt'): ('ts2dt', lambda x, a: tu.timestamp_to_datetime(x, tz_aware=True) if a else tu.timestamp_to_datetime(x)),
    ('iso', 'dt'): ('iso2dt', lambda x, a: tu.iso_date_to_datetime(x, tz_aware=True) if a else tu.iso_date_to_datetime(x)),
    ('http', 'dt'): ('http2dt', lambda x, a: tu.http_date_to_datetime(x, tz_aware=True) if a else tu.http_date_to_datetime(x)),
    ('dt', 'ts'): ('dt2ts', lambda x, a: tu.datetime_to_timestamp(x)),
    ('dt', 'iso'): ('dt2iso', lambda x, a: tu.datetime_to_iso_date(x)),
    ('dt', 'isou'): ('dt2isou', lambda x, a: tu.datetime_to_iso_date(x, use_micros=True)),
    ('dt', 'http'): ('dt2http', lambda x, a: tu.datetime_to_http_date(x)),
    ('ts', 'iso'): ('ts2iso', lambda x, a: tu.timestamp_to_iso_date(x)),
    ('ts', 'http'): ('ts2http', lambda x, a: tu.timestamp_to_http_date(x)),
    ('ts', 'sec'): ('ts2sec', lambda x, a: tu.timestamp_to_sec(x)),
    ('sec', 'ts'): ('sec2ts', lambda x, a: tu.sec_to_timestamp(x)),
    ('iso', 'ts'): ('iso2ts', lambda x, a: tu.iso_date_to_timestamp(x)),
    ('http', 'ts'): ('http2ts', lambda x, a: tu.http_date_to_timestamp(x)),
}
CONV[('isou', 'dt')], CONV[('isou', 'ts')] = CONV[('iso', 'dt')], CONV[('iso', 'ts')]


def enc(form, x):
    return T(x) if form in ('ts', 'iso', 'isou', 'http') else ep(x) if form == 'sec' else dtup(x)


def run(s):
    os.environ['TZ'] = s.get('tz', 'UTC')
    time.tzset()
    evs = []
    try:
        for o in s['ops']:
            if o['op'] == 'path':
                form, x = o['form'], o['val']
                if form == 'dt':
                    x = mkdt(x, o.get('aware'))
                for k, g in enumerate(o['path']):
                    aware = bool((o.get('mask', 0) >> k) & 1)
                    fn, f = CONV[(form, g)]
                    ev = {'fn': fn, 'inp': enc(form, x), 'off': o['aware'][0] if k == 0 and isinstance(o.get('aware'), list) else 0, 'out': [], 'exc': '', 'aware': False, 'want': aware, 'lo': [], 'hi': []}
                    evs.append(ev)
                    try:
                        x = f(x, aware)
                        ev['out'] = enc(g, x)
                        if g == 'dt':
                            ev['aware'] = is_utc(x)
                    except Exception as e:
                        ev['exc'] = type(e).__name__
                        break
                    form = g
            elif o['op'] == 'now':
                for fn, f in (('now', tu.timestamp_now), ('now20', tu.timestamp20_now)):
                    a = int(time.time())
                    x = f()
                    evs.append({'fn': fn, 'inp': [], 'off': 0, 'out': T(x), 'exc': '', 'aware': False, 'want': False, 'lo': ep(a), 'hi': ep(int(time.time()) + 1)})
                x, y = tu.timestamp20_now(), tu.timestamp20_now()
                evs.append({'fn': 'order', 'inp': T(x), 'off': 0, 'out': T(y), 'exc': '', 'aware': False, 'want': False, 'lo': [], 'hi': []})
    finally:
        os.environ['TZ'] = 'UTC'
        time.tzset()
    return {'evs': evs}
