import sys; sys.path.insert(0, '/verif/tools')
from demo import py
F = 'matersdk/data/struct_collection.py'
HEAD = '''import warnings; warnings.filterwarnings('ignore')
import sys, os, contextlib, io, numpy as np
from matersdk.io.publicLayer.structure import DStructure
from matersdk.data.struct_collection import StructCollection
g = np.random.default_rng(1)
st = lambda e: DStructure(lattice=np.eye(3) * 4.2, species=[3, 14], coords=g.random((2, 3)), site_properties=dict(atomic_force=list(g.random((2, 3))), atomic_energy=[np.array([x]) for x in e]))
'''
SEEDS = {
 'C28a': dict(prop='C28', file=F, edits=[("            if np.any(self.virial_tensors_array != 0):\n                np.save", "            if np.any(virial_array[set_stt_idx:set_end_idx] != 0):\n                np.save")],
   needs='virials that are 0 in every frame of one set but not of another', breaks='the set has no virial file',
   **py(HEAD + '''V = np.zeros((5, 3, 3)); V[4, 1, 2] = .5
c = StructCollection([st([1., 2.]) for _ in range(5)], np.arange(5.), np.zeros(5), np.zeros(5), V)
with contextlib.redirect_stdout(io.StringIO()):
    c.to('out', 2)
try:
    sys.exit(0 if np.allclose(np.concatenate([np.load('out/set.%03d/virial.npy' % k) for k in range(3)]), V.reshape(5, 9)) else 1)
except OSError:
    sys.exit(1)
''')),
 'C28b': dict(prop='C28', file=F, edits=[("            if np.any(atomic_energy_array != 0):", "            if np.all(atomic_energy_array != 0):")],
   needs='one atomic energy of exactly 0', breaks='no atomic energies are stored',
   **py(HEAD + '''c = StructCollection([st([1., 2.]), st([0., 3.])], np.arange(2.), np.zeros(2), np.zeros(2), np.zeros((2, 3, 3)))
with contextlib.redirect_stdout(io.StringIO()):
    c.to('out', 2)
sys.exit(0 if os.path.exists('out/set.000/atom_energy.npy') and np.allclose(np.load('out/set.000/atom_energy.npy'), [[1, 2], [0, 3]]) else 1)
''')),
 'C28c': dict(prop='C28', file=F, edits=[("                if tmp_dict[tmp_key] > return_dict[tmp_key]:", "                if tmp_dict[tmp_key] > return_dict[list(return_dict)[0]]:")],
   needs='two neighbour elements, the first with more neighbours than the second', breaks='the largest count of the second element is missed',
   **py(HEAD + '''from matersdk.io.publicLayer.neigh import StructureNeighborsUtils as U
s = [DStructure(lattice=np.eye(3) * 4.2, species=[14, 14, 14, 3], coords=g.random((4, 3))) for _ in range(3)]
c = StructCollection(s, np.zeros(3), np.zeros(3), np.zeros(3), np.zeros((3, 3, 3)))
with contextlib.redirect_stdout(io.StringIO()):
    d = [U.get_max_num_nbrs_real_element(structure=x, rcut=3.5, nbr_elements=['Si', 'Li'], scaling_matrix=[3, 3, 3]) for x in s]
    r = c.get_max_num_nbrs_real_element(3.5, ['Si', 'Li'], [3, 3, 3])
sys.exit(0 if all(r[k] == max(x[k] for x in d) for k in d[0]) else 1)
''')),
}
