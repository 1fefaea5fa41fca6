import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import hob


def main(fn):
    try:
        fn()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print('ERROR: the check itself failed: no verdict')
        sys.exit(2)
