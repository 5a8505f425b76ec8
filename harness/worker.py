"""Executes scenarios on the real code, one JSON line in, one recorded case out.
A scenario that does not finish within the limit is recorded as a hang."""
import importlib
import json
import os
import signal
import sys
import traceback


class Hang(BaseException):
    pass


def on_alarm(sig, frm):
    raise Hang()


def main():
    driver, fin, fout = sys.argv[1:4]
    limit = int(os.environ.get('VERIF_CASE_TIMEOUT', '20'))
    try:
        mod = importlib.import_module('drivers.' + driver)
    except Exception:
        if any('/warcio/' in f.filename for f in traceback.extract_tb(sys.exc_info()[2])):
            raise          # the code under test does not even import
        traceback.print_exc()
        sys.stderr.write('HARNESS import\n')
        sys.exit(3)
    signal.signal(signal.SIGALRM, on_alarm)
    with open(fout, 'w') as out:
        for line in open(fin):
            s = json.loads(line)
            try:
                signal.alarm(limit)
                try:
                    case = mod.run(s)
                finally:
                    signal.alarm(0)
            except Hang:
                case = {'dead': 1}
            except Exception as e:
                # an error outside of a recorded call: raised by warcio, or by the driver when
                # given something else than what it knows; errors of the system are no verdict
                traceback.print_exc()
                tb = traceback.extract_tb(sys.exc_info()[2])
                if any('/warcio/' in f.filename for f in tb[1:]) or not isinstance(e, (OSError, MemoryError)):
                    case = {'dead': 1, 'why': traceback.format_exc()[-1500:]}
                else:
                    sys.stderr.write('HARNESS\n')
                    sys.exit(3)
            case['id'] = s['id']
            out.write(json.dumps(case) + '\n')
            out.flush()


main()
