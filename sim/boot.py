"""Import kalepy from the working tree with the simulator's seams in place."""
import os
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')

for _k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'NUMBA_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
sys.dont_write_bytecode = True

from sim import sched  # noqa: E402

sched.install_lock_seam()
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

import logging  # noqa: E402
logging.disable(logging.CRITICAL)

import numpy as np  # noqa: E402
np.seterr(all='ignore')
import kalepy as kale  # noqa: E402

_f = os.path.realpath(kale.__file__)
if not _f.startswith(os.path.realpath(REPO) + os.sep):
    raise ImportError('kalepy was imported from %s, not from %s' % (_f, REPO))

from sim import bitgen, entropy  # noqa: E402
BG = bitgen.install()
BG.reset(1)
entropy.install()


def warm(kde=True, plots=False):
    """Compile the usual numba specialisations once (inherited by forked workers)."""
    rng = np.random.default_rng(0)
    if kde:
        for kern in ['gaussian', 'box', 'parabola', 'triweight']:
            forms = [rng.normal(size=7), rng.normal(size=(2, 7)), np.asfortranarray(rng.normal(size=(2, 7)))]
            if kern in ('gaussian', 'box'):
                forms += [np.array([1, 5, 2, 4, 4]), np.array([[1, 5, 2, 4, 4], [2, 4, 5, 5, 1]])]
            if kern == 'gaussian':
                forms += [rng.normal(size=7).astype('float32'), rng.normal(size=(2, 7)).astype('float32')]
                a = rng.normal(size=(2, 14))
                forms += [a[:, ::2], a[0, ::2], a[:, ::-1], a[0, ::-1], np.array(a), np.array(a[0])]
                for b in forms[-2:]:
                    b.flags.writeable = False
            for data in forms:
                k = kale.KDE(data, kernel=kern)
                d = k.ndim
                k.pdf(rng.normal(size=(d, 3)))
                if d == 1:
                    k.pdf(rng.normal(size=3))
                    continue
                k.pdf(np.asfortranarray(rng.normal(size=(d, 3))))
                k.pdf(rng.normal(size=3), params=0)
                if kern == 'gaussian' and data.dtype == float and data.flags.c_contiguous:
                    k.pdf(np.array([[1, 2], [0, 4]]))
                k.pdf(rng.normal(size=(2, 3)), params=[1, 0])
                k.pdf(([0.1, 0.2], [0.3, 0.4]), grid=True)
                kale.KDE(data, kernel=kern, reflect=[None, [-9., None]]).pdf(rng.normal(size=(2, 3)))
    if plots:
        # fonts and imports only: kalepy's own plotting code first runs inside of the simulated runs
        import matplotlib.pyplot as plt
        import mpl_toolkits.mplot3d  # noqa
        fig, ax = plt.subplots(2, 2)
        ax[0, 0].scatter([0, 1], [1, 2])
        ax[0, 1].contour(np.arange(9.0).reshape(3, 3))
        ax[1, 0].hist2d(rng.normal(size=9), rng.normal(size=9))
        fig.canvas.draw()
        plt.close('all')
