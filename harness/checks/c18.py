from core import Check

OFFSETS = [60, -60, 330, -480, 720, -720, 840, 1439, -1439, 1, -1, 0, 545]
ZONES = ['UTC', 'America/Los_Angeles', 'Asia/Kolkata', 'Australia/Lord_Howe', 'XYZ-14', 'ABC+12', 'EST5EDT,M3.2.0,M11.1.0']


class C18(Check):
    pid = 'C18'
    driver = 'timestamp'
    trace = 'TraceTimestamp'
    technique = ('TLA+ calendar and conversion functions with their laws checked by TLC; chains of conversions generated by '
                 'TLC replayed in several time zones and every result validated by TLC')
    level_note = ('TLC checks inverse, validity and monotonicity laws of the specified conversions over boundary dates and all '
                  'conversion chains of the depth; the chains, and random dates and timestamp texts, are run through the real '
                  'functions under several local time zones and each result must be the specified one. Dates 1900 to 2999.')
    assumptions = ['years 1900 to 2999']

    def zone(self, r):
        return r.choice([False, False, True, [r.choice(OFFSETS)]])

    def http(self):
        """an HTTP date in one of its forms"""
        r = self.rng
        y, m, d = r.choice([r.randrange(1969, 2069), r.randrange(1969, 2069), r.randrange(1900, 3000)]), r.randrange(1, 13), r.randrange(1, 29)
        t = '%02d:%02d:%02d' % (r.randrange(24), r.randrange(60), r.randrange(60))
        wd = r.randrange(7)
        day = 'Mon Tue Wed Thu Fri Sat Sun'.split()[wd]
        long = 'Monday Tuesday Wednesday Thursday Friday Saturday Sunday'.split()[wd]
        mon = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()[m - 1]
        dd = r.choice(['%02d', '%02d', '%d']) % d
        z = r.choice([' GMT', ' GMT', '', ' UTC', ' +0000', ' Z'])
        k = r.randrange(6)
        if k == 0:
            s = '%s, %02d-%s-%02d %s GMT' % (long, d, mon, y % 100, t)
        elif k == 1:
            s = '%s %s %2d %s %d' % (day, mon, d, t, y)
        elif k == 2:
            s = '%s %s %d %s%s' % (dd, mon, y, t, z)
        elif k == 3:
            s = '%s, %s-%s-%d %s GMT' % (day, dd, mon, y, t)
        else:
            s = '%s, %s %s %d %s%s' % (day, dd, mon, y, t, z)
        return {'op': 'path', 'form': 'http', 'val': s, 'path': r.choice([['dt', 'http', 'dt'], ['ts'], ['dt', 'iso']]), 'mask': r.randrange(4)}

    def scenarios(self):
        r = self.rng
        scn = []
        gen = self.gen('MCTimestamp', env={'DEPTH': '2' if self.quick else '3'})
        for g in gen:
            scn.append({'tz': r.choice(ZONES), 'ops': [{'op': 'path', 'form': 'dt', 'val': g['d'], 'aware': self.zone(r),
                                                       'path': g['path'][1:], 'mask': r.randrange(16)}]})
        # ends of months, in years of all kinds
        for y in [1896, 1900, 1996, 2000, 2001, 2023, 2024, 2096, 2100, 2200, 2300, 2400, 2500, 2800, 2900, 2999] + [r.randrange(1900, 3000) for _ in range(4 if self.quick else 200)]:
            for m in [2, r.choice([4, 6, 9, 11]), r.randrange(1, 13)]:
                ops = [{'op': 'path', 'form': 'ts', 'val': '%04d%02d' % (y, m) + t, 'path': r.choice([['dt'], ['iso'], ['http'], ['sec', 'ts'], ['dt', 'ts']]), 'mask': r.randrange(2)}
                       for t in ('', '2', '28', '29', '30', '31', '32', '00', '2924', '290060', '29235960', '28' + '9' * r.randrange(8))]
                scn.append({'tz': r.choice(ZONES), 'ops': ops})
        for i in range(150 if self.quick else 2000):
            ops = []
            for _ in range(10):
                k = r.randrange(5)
                if k == 0:
                    n = r.randrange(0, 18)
                    t = ''.join(r.choice('0123456789') for _ in range(n))
                    if r.random() < 0.6 and n >= 4:
                        t = str(r.choice([1, 1899, 1900, 1970, 2000, 2014, 2900, 2999, 3000, 9999])).zfill(4) + t[4:]
                    if r.random() < 0.5 and n >= 6:
                        t = t[:4] + r.choice(['00', '01', '02', '12', '13', '99']) + t[6:]
                    if r.random() < 0.5 and n >= 8:
                        t = t[:6] + r.choice(['00', '01', '28', '29', '30', '31', '32']) + t[8:]
                    if r.random() < 0.25 and n:
                        j = r.randrange(n)
                        t = t[:j] + r.choice('abcXYZ') * r.randrange(1, 4) + t[j + 1:]
                    ops.append({'op': 'path', 'form': 'ts', 'val': t, 'path': r.choice([['dt'], ['iso'], ['http'], ['sec'], ['sec', 'ts'], ['dt', 'ts']]), 'mask': r.randrange(2)})
                elif k == 1:
                    t = ''.join(r.choice('0123456789-: _+.aT') for _ in range(r.randrange(0, 18)))
                    ops.append({'op': 'path', 'form': 'ts', 'val': t, 'path': ['dt'], 'mask': 0})
                elif k == 2:
                    d = [r.randrange(1900, 3000), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60), r.randrange(1000000)]
                    t = '%04d-%02d-%02dT%02d:%02d:%02d' % tuple(d[:6])
                    frac = ''.join(r.choice('0123456789') for _ in range(r.randrange(0, 10)))
                    t += ('.' + frac if frac else '') + r.choice(['Z', 'Z', ''])
                    ops.append({'op': 'path', 'form': 'iso', 'val': t, 'path': r.choice([['dt', 'isou', 'dt'], ['ts', 'iso'], ['dt', 'http', 'dt', 'ts']]), 'mask': r.randrange(8)})
                elif k == 3:
                    ops.append({'op': 'path', 'form': 'sec', 'val': r.choice([0, -1, 1, 2**31 - 1, 2**31, 2**32, r.randrange(-2208988800, 32503680000)]),
                                'path': r.choice([['ts', 'sec', 'ts'], ['ts', 'http', 'ts', 'sec']]), 'mask': 0})
                else:
                    d = [r.randrange(1900, 3000), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60), r.randrange(1000000)]
                    p = r.choice([['http', 'dt', 'iso'], ['ts', 'sec', 'ts', 'dt'], ['isou', 'dt', 'isou', 'ts', 'http', 'dt']])
                    ops.append({'op': 'path', 'form': 'dt', 'val': d, 'path': p, 'mask': r.randrange(64), 'aware': self.zone(r)})
            ops.append(self.http())
            if i % 5 == 0:
                ops.append({'op': 'now'})
            scn.append({'tz': r.choice(ZONES), 'ops': ops})
        return scn


CHECK = C18
