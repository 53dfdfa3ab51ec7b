#!/opt/venv/bin/python
"""replay.py FILE: run a recorded counterexample against the untouched source in /repo. Exit 1 if it reproduces."""
import json
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)


def main():
    rec = json.load(open(sys.argv[1]))
    from sx import harness
    r = harness.run_native(rec['module'], rec['fn'], rec['params'], rec['inputs'])
    print('property', rec['property'], 'case', rec['case'], 'inputs', json.dumps(rec['inputs'])[:1000])
    print('status', r['status'], 'failed checks:', r['fails'], 'exception:', r['exc'], r.get('where'))
    for l, v in r['observed'][:20]:
        print('  observed', l, str(v)[:300])
    return 1 if r['status'] in ('fail', 'exc') else 0


if __name__ == '__main__':
    sys.exit(main())
