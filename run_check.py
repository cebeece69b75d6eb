#!/opt/venv/bin/python
"""run_check.py <PROPERTY ID> [--tier quick|thorough] [--replay FILE] [--only sub,...] [--scale X]"""
import os
import sys
import argparse

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import env  # noqa: E402,F401


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from pbt import core
    try:
        rc = core.run_property(a.property.lower(), a.tier, seed, replay=a.replay,
                               only=a.only.split(',') if a.only else None, scale=a.scale)
    except Exception:
        import traceback
        tb = sys.exc_info()[2]
        traceback.print_exc()
        if core._through_repo(tb):
            # the code under test cannot even be imported
            print('the code under test fails on import')
            rp = os.path.join(env.VERIF, 'replays', a.property+'-import.txt')
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            open(rp, 'w').write(traceback.format_exc())
            print('VIOLATION property=%s replay=%s' % (a.property, rp))
            rc = 1
        else:
            rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
