from checks.c02 import Base


class C01(Base):
    pid = 'C01'
    technique = ('TLA+ definition of what a written record reads back as; sequences of records from a TLC-explored '
                 'writer model and generated at random written and iterated by the real code, each read-back judged by TLC')
    level_note = ('Every configuration of the writer model (MCWriter: type, HTTP headers, stream, length, digests) and '
                  'random sequences of records of all types, versions, compressions, payload sizes over all internal buffer '
                  'boundaries, payloads looking like record boundaries or gzip data, are written by the real writer and read '
                  'by the real iterator; TLC compares type, headers, HTTP headers and content with the specification. Trusted: zlib, TLC. ')
    assumptions = ['records are given well-formed (header text without line breaks, names without colon or blanks at either end)']

    def scenarios(self):
        scn = self.model() + self.random(900 if self.quick else 9000, bigs=12)
        for s in scn:
            s['back'] = 1
            s['ops'] = [o for o in s['ops'] if o[0] != 'contents' or self.rng.random() < 0.3]
        return scn


CHECK = C01
