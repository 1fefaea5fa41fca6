"""setup_cmd: build variants once so that the checks find them cached."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import hob
for v in ('plain', 'asan', 'count'):
    try:
        print(v, hob.build(v))
    except hob.HarnessError as e:
        print('setup: %s' % e)
        sys.exit(1)
