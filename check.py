#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] | check.py --setup | check.py --replay FILE"""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vlib
import props


def main():
    a = sys.argv[1:]
    if a[0] == '--setup':
        vlib.engine()
        vlib.cli()
        return 0
    if a[0] == '--replay':
        r = json.load(open(a[1]))
        if 'dir' not in r:
            print(json.dumps(r, indent=1))
            return 0
        how, ok, reach, out = vlib.replay_native(vlib.native(r['dir']), r['entry'], r['inputs'], r.get('deep', 0))
        print(out)
        print('%s: %s (%s)' % (r['entry'], 'holds' if ok else 'violated', how))
        return 0 if ok else 1
    deep = '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough'
    run = vlib.Run(a[0], deep)
    try:
        return props.CHECKS[a[0]](run)
    except vlib.Inconclusive as e:
        print('INCONCLUSIVE %s: %s' % (a[0], e))
        return 4
    except Exception:
        traceback.print_exc()
        return 5


sys.exit(main())
