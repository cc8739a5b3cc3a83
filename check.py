#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, importlib, json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core

FAMILY = {}
for fam, props in {
        'f_cli': 'C27',
        'f_http': 'C28',
        'f_stream': 'C29',
        'f_graph': 'C30',
        'f_detect': 'C26',
        'f_pack': 'C23 C24',
        'f_out': 'C25',
        'f_range': 'C22',
        'f_csv': 'C17 C18 C19 C20 C21',
        'f_dc': 'C15 C16',
        'f_multi': 'C11 C12',
        'f_buf': 'C13 C14',
        'f_pipeline': 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10',
}.items():
    for p in props.split():
        FAMILY[p] = fam


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    a = ap.parse_args()
    try:
        r = None
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
        ctx = core.Ctx(a.prop, a.tier, a.seed)
        fam = importlib.import_module(FAMILY[a.prop])
        ctx.build()
        if a.replay:
            recs = ctx.execute([r['record']['sc']], 'replay')
            ctx.validate(r['module'], recs, cfg=r['cfg'], env=r['env'], focus=r['focus'], what='replay', view=getattr(fam, 'view', None))
            print(json.dumps(recs[0])[:4000])
            for p in ctx.violations:
                print('VIOLATION property=%s replay=%s' % (a.prop, p))
            sys.exit(1 if ctx.violations else 0)
        for k in range(core.rounds(a.prop, ctx.quick)):
            # each round is a fresh choice of scenarios
            ctx.round(k)
            r = fam.check(ctx)
            if r != 0:
                break
        ctx.report()
        sys.exit(r)
    except core.ToolError as e:
        print('TOOL ERROR: %s' % e)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)


main()
