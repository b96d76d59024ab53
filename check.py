#!/opt/venv/bin/python -B
"""check.py <PROPERTY>: decide one property; see DESIGN.md.

Exit 0 if it held on everything explored, 1 with a VIOLATION line otherwise, 2 if the machinery failed.
"""
import os
import signal
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))

import common  # noqa: E402

MODULES = {
    'sync': ['S01', 'S02', 'S03', 'S06', 'S09'],
    'hist': ['S04', 'S05'],
    'lists': ['L01', 'L02', 'L03', 'L04', 'L05'],
    'docs': ['D01', 'D02', 'D04'],
    'multi': ['D03'],
    'disk': ['B01', 'B02'],
    'auth': ['S08'],
    'dig': ['S10', 'S11'],
    'state': ['C02'],
    'cli': ['C05'],
    'expl': ['C04'],
    'net': ['C01', 'C03'],
    'map': ['M01', 'S07'],
    'pub': ['E01'],
}


def main():
    """Run one check."""
    prop = sys.argv[1]
    mod = [m for m in MODULES if prop in MODULES[m]]
    if not mod:
        print('unknown property ' + prop)
        return 2
    chk = common.Check(prop)

    def late(*_):
        raise common.MachineryError('out of time')
    signal.signal(signal.SIGALRM, late)
    if not common.THOROUGH:
        signal.alarm(850)
    try:
        m = __import__('check_' + mod[0])
        getattr(m, prop)(chk)
    except common.CodeCrash as e:
        chk.violation('the code under test crashed or hung', {'input': e.item, 'trace': e.text[-1500:]})
    except common.MachineryError as e:
        print('MACHINERY: ' + str(e)[-4000:])
        return 2
    except (OSError, MemoryError):
        traceback.print_exc()
        return 2
    except Exception:
        # the harness runs without exception on the unchanged code
        chk.violation('result of the code under test cannot be interpreted', {'trace': traceback.format_exc()[-1500:]})
    finally:
        signal.alarm(0)
    return chk.finish()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
