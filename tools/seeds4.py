import sys; sys.path.insert(0, '/verif/tools')
from demo import cxx, py
S = 'source/descriptor/deepmd/include/se.h'


def at(head, a, b, end='\ntemplate'):
    t = open('/repo/' + S).read()
    i = t.index(head)
    j = t.index(end, i)
    s = t[i:j]
    assert s.count(a) == 1, (head, a, s.count(a))
    return [(s, s.replace(a, b))]


LIST = '''int il[1]={0}, nn[1]={3}, nb[3]={1,2,3}, *fn[1]={nb}, ty[4]={1,1,2,3};
 double X[4][3]={{0,0,0},{1,.2,.3},{0,1.5,.4},{.3,.1,2.0}}, *x[4]={X[0],X[1],X[2],X[3]}; int zc[1]={1}, zn[3]={1,2,3}, w[3]={1,2,1};
'''
SEEDS = {
 'C26a': dict(prop='C26', file=S,
   edits=at('CoordType*** TildeR<CoordType>::generate(\n', '            nstart_idxs[ii] += num_neigh_atoms_lst[jj];', '            nstart_idxs[ii] = num_neigh_atoms_lst[jj];'),
   needs='three or more neighbour species', breaks='the third block of columns starts inside the second one',
   **cxx('''int main(){ ''' + LIST + ''' double*** t = deepPotSE::TildeR<double>::generate(1,il,nn,fn,x,ty,1,zc,3,zn,w,4.0,1.0);
 double*** p = deepPotSE::PairTildeR<double>::generate(1,il,nn,fn,x,ty,1,3,1,4.0,1.0); double*** q = deepPotSE::PairTildeR<double>::generate(1,il,nn,fn,x,ty,1,2,2,4.0,1.0);
 for(int k=0;k<4;k++) if(t[0][3][k]!=p[0][0][k] || t[0][1][k]!=q[0][0][k] || t[0][2][k]!=0) return 1; return 0; }''', ['descriptor/deepmd/include/se.h'])),
 'C26b': dict(prop='C26', file=S,
   edits=at('CoordType**** PairTildeR<CoordType>::deriv(\n', 'diff_cart_coord[0] * diff_cart_coord[2] * std::pow(distance_ji_recip, 3) * switch_func.get_deriv2r(distance_ji)',
            'diff_cart_coord[0] * diff_cart_coord[1] * std::pow(distance_ji_recip, 3) * switch_func.get_deriv2r(distance_ji)'),
   needs='a neighbour between the inner radius and the cutoff', breaks='one derivative is not the derivative of the feature',
   **cxx('''int main(){ ''' + LIST + ''' double**** d = deepPotSE::PairTildeR<double>::deriv(1,il,nn,fn,x,ty,1,3,1,4.0,1.0);
 for(int a=0;a<3;a++){ double h=1e-5, z=X[0][a]; X[0][a]=z+h; double*** p = deepPotSE::PairTildeR<double>::generate(1,il,nn,fn,x,ty,1,3,1,4.0,1.0);
  X[0][a]=z-h; double*** m = deepPotSE::PairTildeR<double>::generate(1,il,nn,fn,x,ty,1,3,1,4.0,1.0); X[0][a]=z;
  for(int k=0;k<4;k++) if(fabs((p[0][0][k]-m[0][0][k])/(2*h)-d[0][0][k][a])>1e-6) return 1; } return 0; }''', ['descriptor/deepmd/include/se.h'])),
 'C26c': dict(prop='C26', file=S,
   edits=at('void TildeR<CoordType>::calc_num_neigh_atoms_lst() {', '            if (tmp_num_neigh_atoms > this->num_neigh_atoms_lst[ii])\n', '            if (tmp_num_neigh_atoms != this->num_neigh_atoms_lst[ii])\n'),
   needs='a crystal whose last centre has fewer neighbours of a species than another one', breaks='the inferred width is the last count and not the largest: the features overrun their rows',
   **cxx('''int main(){ double lat[3][3]={{20,0,0},{0,20,0},{0,0,20}}; int z[4]={1,1,1,1}; double (*c)[3]=(double(*)[3])malloc(96);
 double v[4][3]={{.1,.1,.1},{.15,.1,.1},{.1,.15,.1},{.6,.6,.6}}; memcpy(c,v,96);
 Structure<double> s(4,lat,z,c,false); bool pbc[3]={true,true,true}; NeighborList<double> nl(s,2.5,pbc,true); int e[1]={1};
 deepPotSE::TildeR<double> t(nl,1,e,1,e,1.0); return t.get_num_neigh_atoms()==nl.get_max_num_neigh_atoms() ? 0 : 1; }''', ['nblist/include/structure.h', 'nblist/include/binLinkedList.h', 'nblist/include/neighborList.h', 'descriptor/deepmd/include/se.h'])),
}
