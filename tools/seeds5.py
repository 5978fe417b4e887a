import sys; sys.path.insert(0, '/verif/tools')
from demo import py
D, F = 'matersdk/io/pwmat/output/dostotalspin.py', 'matersdk/io/pwmat/output/fatabandstructureTxt.py'
N = 'matersdk/feature/deepmd/preprocess.py'
HEAD = '''import warnings; warnings.filterwarnings('ignore')
import sys, numpy as np
'''
SEEDS = {
 'C25a': dict(prop='C25', file=D, edits=[("df_dos.loc[:, tmp_mask].sum(axis=1)", "df_dos.loc[:, tmp_mask].abs().sum(axis=1)")],
   needs='a negative density (spin difference, interpolation)', breaks='the density of an element is the sum of absolute values',
   **py(HEAD + '''from matersdk.io.pwmat.output.dostotalspin import Dostotalspin
open('DOS.totalspin', 'w').write('#  Energy Total Mo-s Mo-p S-s\\n -1.0 3.0 1.5 -0.25 1.75\\n 0.0 2.0 1.0 0.5 0.5\\n')
t = Dostotalspin('DOS.totalspin').get_pdos_elements()
sys.exit(0 if np.allclose(t['Mo'], [1.25, 1.5]) and np.allclose(t['S'], [1.75, .5]) else 1)
''')),
 'C25b': dict(prop='C25', file=F, edits=[("        df = self._preprocess()\n        ### Step 1. 每条能带", "        df = self._preprocess().drop_duplicates()\n        ### Step 1. 每条能带")],
   needs='two bands degenerate at a k-point, with equal weights', breaks='rows move to other bands',
   **py(HEAD + '''from matersdk.io.pwmat.output.fatabandstructureTxt import FatbandStructure
open('f.txt', 'w').write(' KPOINT ENERGY weight_tot Mo-4Dxy S-3Px\\n BAND 1\\n 0.0 -1.0 1.0 0.5 0.5\\n 0.1 -1.1 1.0 0.4 0.6\\n\\n BAND 2\\n 0.0 -1.0 1.0 0.5 0.5\\n 0.1 2.0 1.0 0.3 0.7\\n\\n')
l = [np.asarray(x, dtype=float) for x in FatbandStructure('f.txt').get_total_dfs_lst()]
sys.exit(0 if len(l) == 2 and all(x.shape == (2, 5) for x in l) and np.allclose(l[1][:, 1], [-1, 2]) else 1)
''')),
 'C25c': dict(prop='C25', file=D, edits=[('df_pdos_orbitals = df_dos.drop(labels=["Total"], axis=1)', 'df_pdos_orbitals = df_dos.drop(labels=["Total"], axis=1)\n            df_pdos_orbitals = df_pdos_orbitals.loc[:, (df_pdos_orbitals != 0).any()]')],
   needs='an orbital whose density is zero in every row', breaks='the orbital is left out of the table',
   **py(HEAD + '''from matersdk.io.pwmat.output.dostotalspin import Dostotalspin
open('DOS.totalspin', 'w').write('#  Energy Total Mo-s Mo-p S-s\\n -1.0 3.0 1.5 0.0 1.75\\n 0.5 2.0 1.0 0.0 0.5\\n')
t = Dostotalspin('DOS.totalspin').get_pdos_orbitals()
sys.exit(0 if list(t.columns) == ['Energy', 'Mo-s', 'Mo-p', 'S-s'] and np.allclose(t['Mo-p'], 0) else 1)
''')),

 'C27a': dict(prop='C27', file=N, edits=[("for tmp_idx in structure_indices\n", "for tmp_idx in sorted(set(structure_indices))\n")],
   needs='a structure index given twice', breaks='the statistics count the structure once',
   **py(HEAD + '''from types import SimpleNamespace as S
import contextlib, io
from matersdk.io.publicLayer.structure import DStructure
from matersdk.feature.deepmd.preprocess import NormalizerPremise
g = np.random.default_rng(1)
st = [DStructure(lattice=np.eye(3) * 4.2, species=[3, 14, 14], coords=g.random((3, 3))) for _ in range(2)]
f = lambda ix: NormalizerPremise.concat_tildeRs4calc_stats(S(structures_lst=st), ix, 3.2, 2., 14, [3, 14], [40, 45], [3, 3, 3])
with contextlib.redirect_stdout(io.StringIO()):
    a, b, c = f([1, 0, 1]), f([1]), f([0])
sys.exit(0 if a.shape == (2, 255, 4) and np.allclose(a, np.concatenate([b, c, b], axis=1)) else 1)
''')),
 'C27b': dict(prop='C27', file=N, edits=[("tmp_dstd = self.dstds[tmp_idx_center_an]", "tmp_dstd = self.dstds[min(tmp_idx_nbr_an, len(self.dstds) - 1)]")],
   needs='two centre species with different deviations', breaks='features are divided by the deviation of the other species',
   **py(HEAD + '''import contextlib, io
from matersdk.io.publicLayer.structure import DStructure
from matersdk.feature.deepmd.preprocess import TildeRNormalizer
st = DStructure(lattice=np.eye(3) * 4.2, species=[3, 14, 14], coords=np.random.default_rng(1).random((3, 3)))
f = lambda D: TildeRNormalizer(3.2, 2., [3, 14], [3, 14], [40, 45], [3, 3, 3], np.zeros((2, 4)), D)._normalize(st)
with contextlib.redirect_stdout(io.StringIO()):
    a, da = f(np.ones((2, 4)))
    b, db = f(np.array([[2.] * 4, [4.] * 4]))
q = {'3': 2., '14': 4.}
sys.exit(0 if all(np.allclose(b[k] * q[k.split('_')[0]], a[k]) and np.allclose(db[k] * q[k.split('_')[0]], da[k]) for k in a) else 1)
''')),
 'C27c': dict(prop='C27', file=N, edits=[("        result = tildeR_derivatives_array / dstd", "        tildeR_derivatives_array /= dstd\n        result = tildeR_derivatives_array")],
   needs='the caller uses the derivatives again after normalising them', breaks='the derivatives handed in are changed',
   **py(HEAD + '''from matersdk.feature.deepmd.preprocess import TildeRPairNormalizer
x = np.random.default_rng(1).random((2, 3, 4, 3))
k = x.copy()
n = TildeRPairNormalizer(davg=np.zeros((1, 4)), dstd=np.array([[2., .5, .5, .5]]))
a, b = n.normalize_derivative(x), n.normalize_derivative(x)
sys.exit(0 if np.array_equal(x, k) and np.allclose(a, b) and np.allclose(a[..., 0, :], k[..., 0, :] / 2) else 1)
''')),
}
