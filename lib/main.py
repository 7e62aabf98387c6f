"""Entry point: which models, scenarios and trace specifications decide each property."""
import json
import os
import random
import sys
import time
import traceback

import core
import props


def replay(path):
    with open(path) as f:
        r = json.load(f)
    ck = core.Check('replay', 'quick', 1)
    ck.classes = core.build()
    lines = r['scenario'].strip('\n').split('\n')
    head = lines[0].split()
    s = core.Scenario(head[1], [x.split('=', 1) for x in head[2:]], lines[1:])
    rej = ck.conformance(r['component'], r['module'], [s], judge=set(r['judge']), consts=r['consts'], shards=1,
                         only=r['target'], props=r.get('jvm'))
    for x in rej:
        ck.violation(x, r['property'])
    if not rej:
        print('the trace is accepted')
    return 1 if rej else 0


def main(args):
    if len(args) == 2 and args[0] == 'replay':
        return replay(args[1])
    if args == ['setup']:
        print('classes in ' + core.build())
        return 0
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        ck = core.Check(prop, tier, seed)
        props.run(ck)
        return ck.finish(props.assumptions(prop))
    except core.Infra as e:
        print('ERROR %s: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
