from core import Check
from checks.c05 import lines_data


class C17(Check):
    pid = 'C17'
    driver = 'reader'
    trace = 'TraceReader'
    technique = ('TLA+ model of the limited stream refined to an abstract stream (TLC, exhaustive); '
                 'its behaviours replayed and all recorded calls validated against the specification by TLC')
    level_note = ('The limited-stream model (limits added at any time) is explored exhaustively by TLC within '
                  'small constants and refines the abstract stream; its behaviours and random larger ones are '
                  'replayed and each recorded call, with the bytes taken from the source and the reported '
                  'position, is judged by the specification in TLC. Trusted: TLC; sources that return data until '
                  'their end. ')
    assumptions = ['the source returns at least one byte until its end and at most as many as asked for']

    def scenarios(self):
        r = self.rng
        scn = []
        for g in self.gen('MCLimit', env={'DEPTH': '3' if self.quick else '4'}):
            # without a limit there is nothing to check
            if not any(o['op'] == 'wrap' for o in g['ops']) or (self.quick is False and r.random() < 0.6):
                continue
            if self.quick and r.random() < 0.5:
                continue
            for o in g['ops']:
                if r.random() < 0.3:
                    o['text'] = True
            scn.append({'kind': 'limit', 'prop': 'C17', 'raw': g['raw'], 'limits': [], 'ops': g['ops'],
                        'how': r.choice([('read', 2), ('read', -1), ('readline', -1), ('readline', 1)])})
        for i in range(600 if self.quick else 6000):
            n = r.choice([0, 1, 2, 10, 100, 1000, 3000])
            lims = [r.choice([0, 1, 2, n, n, max(n - 1, 0), n + 1, n // 2, n + 1000, None, 'abc', -1, '-3', str(n // 3), ' 7 ', 16384])
                    for _ in range(r.randrange(1, 4))]
            s = {'kind': 'limit', 'prop': 'C17', 'raw': list(lines_data(r, n)), 'limits': lims, 'ops': [],
                 'how': r.choice([('read', 7), ('read', -1), ('readline', -1), ('readline', 3), ('read', 1000), ('read', 16384)]),
                 'direct': r.random() < 0.5}
            for _ in range(r.randrange(0, 10)):
                if r.random() < 0.15:
                    s['ops'].append({'op': 'wrap', 'n': r.choice([-1, 0, 1, 5, 100, 5000]), 'odd': r.randrange(99), 'text': r.random() < 0.3})
                else:
                    s['ops'].append({'op': r.choice(['read', 'readline']), 'n': r.choice([-1, 0, 1, 2, 3, 10, 64, 1000, 16384])})
            if r.random() < 0.4:
                s['pieces'] = [r.choice([1, 2, 3, 50]) for _ in range(r.randrange(1, 4))]
                s['exact'] = False
            scn.append(s)
        return scn


CHECK = C17
