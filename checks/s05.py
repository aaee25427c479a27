"""S05: Speccon1dVRC against the weak form of its documented coupled soil/column equations."""
from harness import *
import fort
import speccon_ref as R
from s03 import compare
from geotecha.speccon.speccon1d_vrc import Speccon1dVRC

CHECK = Check('S05', rule='at least one non-zero load acts and output is asked for after it starts', setup=fort.speccon,
              assumptions=['load histories start from zero and last until the last output time', 'coefficients are of order one (S07 covers other magnitudes)',
                           'profile layers are at least 0.05 of the depth thick'])


@CHECK.test(R.vrc_inputs(), quick=900, thorough=40000)
def solution(c):
    if not R.has_load(c):
        return False
    a = Speccon1dVRC(R.vrc_text(c))
    a.make_all()
    r = R.vrc_ref(c)
    for k in ('por', 'pors', 'porc', 'avp', 'avps', 'avpc'):
        compare(getattr(a, k), getattr(r, k), c, k)
    hm = c['H'] * c['mvref']
    compare(np.asarray(a.set) / hm, r.set / hm, c, 'set')
    return R.load_size(c) > 0 and np.abs(r.por).max() > 0
