import os
import sys
import traceback

from . import project, report


def registry():
    from .checks import carry, combine, existence, failures, fortran, inputs, limits, options, outputs, ranks, threads, types
    return {'C01': failures.c01, 'C02': combine.c02, 'C03': combine.c03, 'C04': failures.c04, 'C05': failures.c05, 'C06': failures.c06,
            'C07': outputs.c07, 'C08': outputs.c08,
            'C09': ranks.c09, 'C10': ranks.c10, 'C11': inputs.c11, 'C12': options.c12, 'C13': fortran.c13, 'C14': fortran.c14,
            'C15': threads.c15, 'C16': limits.c16, 'C17': options.c17, 'C18': types.c18, 'C19': carry.c19, 'C20': existence.c20}


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    fn = registry()[pid]
    rep = report.Report(pid, tier)
    try:
        fn(rep)
        return rep.finish()
    except project.AnalysisBroken as e:
        print('ANALYSIS BROKEN: %s' % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 4
