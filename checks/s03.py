"""S03: Speccon1dVR against the weak form of its documented governing equation."""
from harness import *
import fort
import speccon_ref as R
from geotecha.speccon.speccon1d_vr import Speccon1dVR

CHECK = Check('S03', rule='at least one non-zero load acts and output is asked for after it starts', setup=fort.speccon,
              assumptions=['load histories start from zero and last until the last output time', 'coefficients are of order one (S07 covers other magnitudes)',
                           'profile layers are at least 0.05 of the depth thick'])


def compare(got, want, c, what, tol=2e-5):
    close(np.asarray(got), want, tol, 1e-9, what, scale=max(np.abs(want).max(), 0.02 * R.load_size(c)))


@CHECK.test(R.vr_inputs(), quick=900, thorough=40000)
def solution(c):
    if not (c['vert'] or c['rad']) or not R.has_load(c):
        return False
    a = Speccon1dVR(R.vr_text(c))
    a.make_all()
    r = R.vr_ref(c)
    compare(a.por, r.por, c, 'por')
    compare(a.avp, r.avp, c, 'avp')
    hm = c['H'] * c['mvref']
    compare(np.asarray(a.set) / hm, r.set / hm, c, 'set')
    return R.load_size(c) > 0 and np.abs(r.por).max() > 0
