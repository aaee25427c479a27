"""S06: Speccon1dUnsat against the weak form of its documented coupled water/air equations."""
from harness import *
import fort
import speccon_ref as R
from s03 import compare
from geotecha.speccon.speccon1d_unsat import Speccon1dUnsat

CHECK = Check('S06', rule='at least one non-zero load acts and output is asked for after it starts', setup=fort.speccon,
              assumptions=['load histories start from zero and last until the last output time', 'coefficients are of order one (S07 covers other magnitudes)',
                           'profile layers are at least 0.05 of the depth thick',
                           'sign conventions of the coefficients are those of the documentation, so that the problem is dissipative with real decay rates (other cases are skipped)'])


@CHECK.test(R.unsat_inputs(), quick=900, thorough=40000)
def solution(c):
    if not R.has_load(c):
        return False
    r = R.unsat_ref(c)
    if r is None:
        label('skipped: oscillating or growing problem')
        return False
    a = Speccon1dUnsat(R.unsat_text(c))
    a.make_all()
    for k in ('porw', 'pora', 'avpw', 'avpa'):
        compare(getattr(a, k), getattr(r, k), c, k)
    hm = c['H'] * c['mvref']
    for k in ('setw', 'seta', 'set'):
        compare(np.asarray(getattr(a, k)) / hm, getattr(r, k) / hm, c, k)
    return R.load_size(c) > 0 and np.abs(r.porw).max() > 0
