#!/usr/bin/env python
"""run.py <property id> [--tier quick|thorough] [--replay FILE]
Started by check.sh, which builds /repo and sets the environment."""
import argparse
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--family', help='only this family (for development)')
    ap.add_argument('--scale', type=float, help='examples of the quick tier, in units of the stated numbers (for development)')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    from harness import core
    core.import_hypothesis()
    if a.scale:
        core.QUICK, core.SHRINK_SECONDS = a.scale, 1.0
    import warnings
    warnings.simplefilter('ignore')
    import clawpack.pyclaw  # noqa: F401  (from /repo, through the editable loader)
    real = os.path.realpath(clawpack.pyclaw.__file__)
    if not real.startswith('/repo/'):
        print('clawpack.pyclaw is not from /repo: ' + real, file=sys.stderr)
        return 3
    import logging
    logging.disable(logging.CRITICAL)
    prop = importlib.import_module('props.' + a.property.lower())
    if a.family:
        prop.FAMILIES = [f for f in prop.FAMILIES if f.name in a.family.split(',')]
    if a.replay:
        rep = json.load(open(a.replay))
        fam = [f for f in prop.FAMILIES if f.name == rep['family']][0]
        import tempfile
        wd = tempfile.mkdtemp()
        kind, msg = core._confirm(fam, rep['case'], wd, 300)
        import shutil
        shutil.rmtree(wd, ignore_errors=True)
        if kind == 'ok':
            print('replay: the property holds on this case')
            return 0
        print('family %s: %s: %s' % (fam.name, kind, msg))
        print('VIOLATION property=%s replay=%s' % (prop.ID, os.path.abspath(a.replay)))
        return 1
    return core.run_property(prop, a.tier, a.seed, VERIF, a.jobs)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
