#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough   |   check.py --replay FILE"""
import importlib, json, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.dont_write_bytecode = True
import vt


def main():
    if sys.argv[1] == '--replay':
        v = json.load(open(sys.argv[2]))
        pid = os.path.basename(sys.argv[2]).split('_')[0]
        c = vt.Check(pid, 'quick')
        try:
            tr = c.execute(v['adapter'], [v['job']])
            c.validate(v['module'], v['adapter'], [v['job']], tr)
            for x in c.violations:
                print('VIOLATION property=%s replay=%s' % (pid, sys.argv[2]))
                print(json.dumps(x['detail'], indent=1)[:4000])
            return 1 if c.violations else 0
        finally:
            c.cleanup()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = vt.Check(pid, tier, seed)
    try:
        mod = importlib.import_module('p_' + pid)
        mod.run(c)
        return c.finish(getattr(mod, 'LEVEL', 'model_checking'))
    finally:
        c.cleanup()


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
