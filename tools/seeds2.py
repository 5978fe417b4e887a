import sys; sys.path.insert(0, '/verif/tools')
from demo import cxx, py
NB = 'nblist/include/'
S = 'matersdk/io/publicLayer/structure.py'
HEAD = 'import numpy as np, os, sys\nfrom matersdk.io.publicLayer.structure import DStructure\n'
SEEDS = {
 'C05a': dict(prop='C05', file='source/nblist/include/binLinkedList.h',
   edits=[('this->prim_cell_idx_xyz[ii] = this->scaling_matrix[ii] / 2 - 1;', 'this->prim_cell_idx_xyz[ii] = this->scaling_matrix[ii] / 2;')],
   needs='an even scaling factor', breaks='with an even scaling factor the primitive cell is taken to be another image',
   **cxx('''int main(){ double lat[3][3]={{3,0,0},{0,3,0},{0,0,3}}; int z[1]={1}; double (*c)[3]=(double(*)[3])malloc(24); c[0][0]=c[0][1]=c[0][2]=0.5;
 Structure<double> s(1,lat,z,c,false); free(c); int sc[3]={4,1,1}; Supercell<double> S(s,sc);
 const double* x=S.get_structure().get_cart_coords()[S.get_owned_atom_idxs()[0]];
 return std::abs(x[0]-1.5)<1e-9 && std::abs(x[1]-1.5)<1e-9 ? 0 : 1; }''', [NB+'binLinkedList.h'])),
 'C06a': dict(prop='C06', file='source/nblist/include/structure.h',
   edits=[('            std::abs(this->basis_vectors[0][1]) + \n            std::abs(this->basis_vectors[1][1]) + \n            std::abs(this->basis_vectors[2][1])', '            std::abs(this->basis_vectors[0][1] + this->basis_vectors[1][1]) + \n            std::abs(this->basis_vectors[2][1])')],
   needs='a cell whose first two vectors have y components of opposite sign', breaks='the projected length along y is too short',
   **cxx('''int main(){ double lat[3][3]={{4,-1,0},{0,4,0},{0,0,4}}; int z[1]={1}; double (*c)[3]=(double(*)[3])malloc(24); c[0][0]=c[0][1]=c[0][2]=0.5;
 Structure<double> s(1,lat,z,c,false); free(c); const double* l=s.get_projected_lengths();
 return std::abs(l[1]-5)<1e-9 ? 0 : 1; }''', [NB+'structure.h'])),
 'C07a': dict(prop='C07', file='source/nblist/include/binLinkedList.h',
   edits=[('extending_matrix[ii] = std::ceil( this->rcut / prim_interplanar_distances[ii] );', 'extending_matrix[ii] = std::ceil( this->rcut / std::sqrt(structure.get_basis_vectors()[ii][0]*structure.get_basis_vectors()[ii][0] + structure.get_basis_vectors()[ii][1]*structure.get_basis_vectors()[ii][1] + structure.get_basis_vectors()[ii][2]*structure.get_basis_vectors()[ii][2]) );')],
   needs='a strongly sheared cell, whose planes are closer than its vectors are long', breaks='the supercell does not reach to the cutoff, neighbours are missing',
   **cxx('''int main(){ double lat[3][3]={{4,0,0},{6,2,0},{0,0,9}}; int z[1]={1}; double (*c)[3]=(double(*)[3])malloc(24); c[0][0]=c[0][1]=c[0][2]=0.1;
 Structure<double> s(1,lat,z,c,false); free(c); bool p[3]={true,true,true}; double rc=6.2; NeighborList<double> nl(s,rc,p,false);
 int n=0; for(int i=-20;i<=20;i++)for(int j=-20;j<=20;j++)for(int k=-3;k<=3;k++){ if(!i&&!j&&!k)continue; double x=4*i+6*j,y=2*j,w=9*k; if(x*x+y*y+w*w<=rc*rc) n++; }
 return (int)nl.get_neighbor_lists()[0].size()==n ? 0 : 1; }''', [NB+'neighborList.h'])),
 'C07b': dict(prop='C07', file='source/nblist/include/binLinkedList.h',
   edits=[('( relative_distance2 > EPSILON ) ', '( neigh_atom_idx % this->supercell.get_prim_num_atoms() != prim_atom_idx )')],
   needs='a cell with an edge below the cutoff', breaks='periodic images of the atom itself are not listed',
   **cxx('''int main(){ double lat[3][3]={{3,0,0},{0,9,0},{0,0,9}}; int z[2]={1,8}; double (*c)[3]=(double(*)[3])malloc(48); for(int k=0;k<3;k++){c[0][k]=0.1;c[1][k]=0.3;}
 Structure<double> s(2,lat,z,c,false); free(c); bool p[3]={true,true,true}; NeighborList<double> nl(s,3.5,p,false);
 return nl.get_max_num_neigh_atoms_ssss(1,1)==2 ? 0 : 1; }''', [NB+'neighborList.h'])),
 'C08a': dict(prop='C08', file='source/nblist/include/neighborList.h',
   edits=[('        tmp_neigh_atomic_numbers.resize(this->neighbor_lists[ii].size());\n        if (supercell_atomic_numbers[ii] == center_atomic_number) {', '        if (tmp_neigh_atomic_numbers.size() < this->neighbor_lists[ii].size()) tmp_neigh_atomic_numbers.resize(this->neighbor_lists[ii].size());\n        if (supercell_atomic_numbers[ii] == center_atomic_number) {')],
   needs='a later atom with fewer neighbours than an earlier one of the same element', breaks='neighbours of the earlier atom are counted for the later one',
   **cxx('''int main(){ double lat[3][3]={{30,0,0},{0,30,0},{0,0,30}}; int z[6]={1,1,1,8,8,8}; double q[6]={5,15,5.5,6.05,3.8,16}; double (*c)[3]=(double(*)[3])malloc(144); for(int i=0;i<6;i++){c[i][0]=q[i];c[i][1]=c[i][2]=1;}
 Structure<double> s(6,lat,z,c,true); free(c); bool p[3]={true,true,true}; NeighborList<double> nl(s,1.6,p,true);
 return nl.get_max_num_neigh_atoms_ssss(1,8)==2 && nl.get_max_num_neigh_atoms_ssss(1,1)==1 ? 0 : 1; }''', [NB+'neighborList.h'])),
 'C08b': dict(prop='C08', file='source/nblist/include/neighborList.h',
   edits=[('firstneigh[ii*umax_num_neigh_atoms + jj] = this->neighbor_lists[ii][jj] % inum;', 'firstneigh[ii*umax_num_neigh_atoms + jj] = this->neighbor_lists[ii][jj] - prim_cell_idx * inum;')],
   needs='a neighbour in another periodic image', breaks='neighbours outside the cell get an index that is no atom of the cell',
   **cxx('''int main(){ double lat[3][3]={{9,0,0},{0,9,0},{0,0,9}}; int z[2]={1,8}; double (*c)[3]=(double(*)[3])malloc(48); for(int k=0;k<3;k++){c[0][k]=0.5;c[1][k]=0.5;} c[0][0]=0.05; c[1][0]=0.95;
 Structure<double> s(2,lat,z,c,false); free(c); bool p[3]={true,true,true}; NeighborList<double> nl(s,2.0,p,false);
 int inum,ng,il[2],nn[2],fn[8],ty[2]; double rel[24]; nl.find_info4mlff(inum,il,nn,fn,rel,ty,ng,4);
 return nn[0]==1 && fn[0]==1 && nn[1]==1 && fn[4]==0 ? 0 : 1; }''', [NB+'neighborList.h'])),
 'C10a': dict(prop='C10', file=S,
   edits=[('key_idxs = np.array(sorted(key_idxs, key=lambda tmp_key_idx: tmp_key_idx))', 'key_idxs = np.array(key_idxs)')],
   needs='a cell that lists its atoms in an order other than ascending atomic number', breaks='the indices of the central cell are not in ascending order / atom order',
   **py(HEAD + '''s = DStructure(np.diag([4., 5, 6]), ['O', 'H', 'O'], [[0, 0, 0], [.5, .5, .5], [.25, .1, .1]])
sc = [3, 3, 3]
for mark in (True, False):
    try:
        k = [int(i) for i in s.get_key_idxs(scaling_matrix=sc)]
    except TypeError:
        k = [int(i) for i in s.get_key_idxs(sc)]
sys.exit(0 if k == sorted(k) else 1)
''')),
 'C11a': dict(prop='C11', file='matersdk/io/publicLayer/neigh.py',
   edits=[('max_num_nbrs=max_num_nbrs[tmp_nbr_an_idx],', 'max_num_nbrs=max_num_nbrs[0],')],
   needs='two neighbour elements with different capacities', breaks='the capacity of the first element is used for all',
   **py(HEAD + '''from matersdk.io.publicLayer.neigh import StructureNeighborsDescriptor as SD, StructureNeighborsUtils as U
s = DStructure(np.diag([3., 3, 9]), ['H', 'O'], [[0, 0, 0], [.4, .5, .1]])
sn = SD.create('v1', structure=s, rcut=3.2, scaling_matrix=[3, 3, 3], reformat_mark=True, coords_are_cartesian=True)
g = U.get_nbrs_indices(sn, [1, 8], [1, 8], [5, 9])
sys.exit(0 if g.shape == (2, 14) and list(g[0, :5]) == [1, 1, 1, 1, 0] else 1)
''')),
 'C14a': dict(prop='C14', file='matersdk/feature/graph/edge.py',
   edits=[('shift_x = int( (self.scaling_matrix[0]-1) / 2 )', 'shift_x = int( (self.scaling_matrix[1]-1) / 2 )'),
          ('shift_y = int( (self.scaling_matrix[1]-1) / 2 )', 'shift_y = int( (self.scaling_matrix[0]-1) / 2 )')],
   needs='scaling factors that differ along x and y', breaks='the images are taken along the wrong axes',
   **py(HEAD + '''from matersdk.feature.graph.edge import AdjacentMatrix
lat = np.diag([4., 4, 4]); fr = np.array([[.1, .1, .1], [.9, .1, .1]])
s = DStructure(lat, ['H', 'H'], fr)
m = AdjacentMatrix(structure=s, rcut=1.5, scaling_matrix=[3, 1, 1]).get_adjacent_matrix()
sys.exit(0 if np.array_equal(m, [[0, 1], [1, 0]]) else 1)
''')),
 'C16a': dict(prop='C16', file=S,
   edits=[('self.frac_coords[idx_site, 2]\n', 'self.frac_coords[idx_site, 2] % 1\n')],
   needs='an atom outside the unit cell along the third vector', breaks='the written atom.config moves the atom back into the cell',
   **py(HEAD + '''s = DStructure(np.diag([3., 4, 9]), ['H', 'O'], [[0, 0, 0.25], [.4, .5, 1.25]])
f = os.path.join(os.environ['SCRATCH'], 'atom.config')
s.to(f, 'pwmat', False)
g = DStructure.from_file(f, 'pwmat')
sys.exit(0 if np.allclose(g.frac_coords, s.frac_coords, atol=1e-6) else 1)
''')),
 'C24a': dict(prop='C24', file=S,
   edits=[('            for tmp_site in self.sites:\n                if str(tmp_site.specie) == tmp_specie:', '            for tmp_site in self.sites:\n                if str(tmp_site.specie).startswith(tmp_specie):')],
   needs='two elements, one symbol a prefix of the other (S, Si)', breaks='atoms of the longer symbol are counted for the shorter one as well',
   **py(HEAD + '''s = DStructure(np.diag([3., 4, 9]), ['Si', 'S', 'Si'], [[0, 0, 0.25], [.4, .5, .25], [.1, .7, .8]], site_properties=dict(magmom=[0, 0, 0]))
g = s.reformat_elements(['S', 'Si'])
sys.exit(0 if [str(q) for q in g.species] == ['S', 'Si', 'Si'] else 1)
''')),
 'C18a': dict(prop='C18', file='matersdk/calculation/kpoints/kmesh.py',
   edits=[('if self.structure.judge_vacuum_exist()[idx_direction]:', 'if self.structure.judge_vacuum_exist()[2 - idx_direction]:')],
   needs='a slab with vacuum along the first vector', breaks='the mesh is 1 along the third vector instead of along the vacuum',
   **py(HEAD + '''from matersdk.calculation.kpoints.kmesh import KMesh
s = DStructure(np.diag([30., 4, 5]), ['Si', 'S'], [[0.4, 0, 0.25], [.45, .5, .75]])
f = os.path.join(os.environ['SCRATCH'], 'atom.config')
s.to(f, 'pwmat', False)
k = [int(x) for x in KMesh(file_format='pwmat', file_path=f).get_kmesh(0.05)]
sys.exit(0 if k == [1, 5, 4] else 1)
''')),
 'C22a': dict(prop='C22', file='matersdk/feature/avg/msd.py',
   edits=[('(structure_1.cart_coords - structure_1.get_centroid().reshape(1,3))', '(structure_1.cart_coords - structure_2.get_centroid().reshape(1,3))')],
   needs='two frames whose centroids differ', breaks='the drift of the centroid is not taken out',
   **py(HEAD + '''from matersdk.feature.avg.msd import Msd
class T:
    def get_all_frame_structures(self):
        return [DStructure(np.diag([9., 9, 9]), ['H', 'O'], np.array([[1., 1, 1], [3, 3, 3]]) + k * np.array([1., 0, 0]), coords_are_cartesian=True) for k in range(3)]
if __name__ == '__main__':
    g = Msd(T()).calc_msd_sub_centroid()
    sys.exit(0 if len(g) == 2 and np.allclose(g, 0) else 1)
''')),
 'C20a': dict(prop='C20', file='matersdk/adalearn/generator/perturbation.py',
   edits=[('            for kk in range(len(tmp_system.coords)):', '            for kk in range(1, len(tmp_system.coords)):')],
   needs='the first atom of a structure', breaks='the first atom is never displaced',
   **py(HEAD + '''from matersdk.adalearn.generator.perturbation import PerturbStructure
s = DStructure(np.diag([4., 5, 6]), ['H', 'O'], [[.1, .2, .3], [.5, .5, .5]])
bad = 0
for q in PerturbStructure(s).perturb(5, 0.0, 0.1):
    bad += bool(np.abs((q.frac_coords - s.frac_coords)).max(axis=1).min() < 1e-9)
sys.exit(1 if bad else 0)
''')),
 'C23a': dict(prop='C23', file='matersdk/io/pwmat/input/gen_vext.py',
   edits=[("' '.join([str(value) for value in self.vr_center])", "' '.join([str(round(value, 3)) for value in self.vr_center])")],
   needs='a centre given to more than three decimals', breaks='the centre of the potential is rounded in the file',
   **py('''import os, sys
from matersdk.io.pwmat.input.gen_vext import GenVext
f = os.path.join(os.environ['SCRATCH'], 'gen.vext')
GenVext([0.12345, 0.5, 0.25], 1, True, 1.0, 2.0, 3.0).to(f)
v = [l for l in open(f) if 'VR_CENTER' in l][0].split('=')[1].split()
sys.exit(0 if [float(x) for x in v] == [0.12345, 0.5, 0.25] else 1)
''')),
}
