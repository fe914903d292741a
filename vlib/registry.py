"""Property -> check."""
from . import core, run
from . import props_leaf as L
from . import props_lib as A
from . import props_life as F
from . import props_loose as W
from . import props_ref as R
from . import props_sem as P
from . import props_share as S
from . import props_files as D
from . import props_engine as E

CHECKS = {'C09': F.c09, 'C13': F.c13, 'C14': F.c14, 'C15': F.c15, 'C20': F.c20, 'C22': W.c22, 'C01': P.c01, 'C02': P.c02, 'C03': P.c03, 'C04': P.c04, 'C05': P.c05, 'C06': R.c06, 'C07': R.c07, 'C16': R.c16, 'C21': R.c21, 'C08': P.c08, 'C10': P.c10, 'C23': P.c23, 'C17': L.c17, 'C18': L.c18, 'C19': L.c19, 'C11': A.c11, 'C12': A.c12, 'C24': S.c24, 'C25': D.c25, 'C26': E.c26}


def replay(ctx, rec):
    """Repeat one recorded violation."""
    if rec.get('kind') == 'sv':
        c = core.revive(rec['case'])
        libs = sorted({l for combo in c['combos'] for l in combo})
        own = bool(c.get('pat'))
        exe = run.build(ctx.work, libs, defs=['DRV_ENGINE'] if own else [])
        if c.get('throws'):
            core.sv_batch(ctx, exe, [c], (), module='TEngine', inv='CheckE')
        else:
            core.sv_batch(ctx, exe, [c], rec['asp'])
        print('violated again' if ctx.violations else 'holds now')
    else:
        raise run.CheckError('no replay for ' + str(rec.get('kind')))
