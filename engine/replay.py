"""Re-run a reported counterexample on the real code: python -m engine.replay FILE.json"""
import json
import sys
from engine import run, env


def main():
    with open(sys.argv[1]) as fh:
        r = json.load(fh)
    d = run.Driver(r['check'], r['tier'], r['config'])
    cfg = d.cfgs[0]
    try:
        out, err, job = d.native(cfg, [{'inputs': r['inputs']}], kind='translated' if r['impl'] == 'cy' else None)
    finally:
        if d.scratch:
            d.scratch.close()
    print(json.dumps(out, indent=1) if out else err)
    bad = out is None or out[0]['failed'] or out[0]['end'] != 'return'
    print('reproduced' if bad else 'not reproduced')
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()
