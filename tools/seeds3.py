import sys; sys.path.insert(0, '/verif/tools')
from demo import cxx, py


def cut(f, head, end, a, b):
    t = open('/repo/' + f).read()
    i = t.index(head)
    j = t.index(end, i + len(head))
    s = t[i:j]
    assert s.count(a) == 1, (head, a, s.count(a))
    return [(s, s.replace(a, b))]


N = 'source/nblist/include/structure.h'
Q = 'source/descriptor/mtp/include/mtpMRadial.h'
B = 'source/descriptor/mtpr/include/basis.h'
SEEDS = {
 'C09a': dict(prop='C09', file=N,
   edits=cut(N, 'Structure<CoordType>::Structure(const Structure &rhs)', '/**', '        this->pseudo_orgin[2] = rhs.pseudo_orgin[2];\n', '        this->pseudo_orgin[2] = 0;\n'),
   needs='copy of a structure expanded along the third axis', breaks='the copy has another origin than the source',
   **cxx('''int main(){ double lat[3][3]={{4,0,0},{0,4,0},{0,0,4}}; int z[1]={1}; double (*c)[3]=(double(*)[3])malloc(24); c[0][0]=c[0][1]=c[0][2]=0.5;
 Structure<double> s(1,lat,z,c,false); free(c); int m[3]={1,1,3}; s.make_supercell(m); Structure<double> t(s);
 for(int k=0;k<3;k++) if(s.get_pseudo_origin()[k]!=t.get_pseudo_origin()[k]) return 1; return 0; }''', ['nblist/include/structure.h'])),
 'C09b': dict(prop='C09', file=Q,
   edits=cut(Q, 'MtpQ<CoordType>& MtpQ<CoordType>::operator=(const MtpQ& rhs)', 'template', '    this->switch_func2 = rhs.switch_func2;\n', ''),
   needs='assignment between radial functions of different cutoffs, followed by an evaluation', breaks='the target goes on using its old cutoff',
   **cxx('''int main(){ mtp::MtpQ<double> a(4,5.0,1.0), b(4,8.0,2.0); b=a; a.build(3.0); b.build(3.0);
 for(int k=0;k<4;k++) if(!(a.get_result()[k]==b.get_result()[k])) return 1; return 0; }''', ['descriptor/mtp/include/mtpMRadial.h'])),
 'C09c': dict(prop='C09', file=B,
   edits=cut(B, 'RB_Chebyshev<CoordType>::RB_Chebyshev(RB_Chebyshev&& rhs)', 'RB_Chebyshev<CoordType>& ', '    rhs._ders2r = nullptr;\n', ''),
   needs='a moved-from object that is destroyed', breaks='the derivative block is released twice',
   **cxx('''int main(){ { mtpr::RB_Chebyshev<double> a(6,5.0,1.0); a.build(3.0); mtpr::RB_Chebyshev<double> b(std::move(a)); if(b.size()!=6) return 1; } return 0; }''', ['descriptor/mtpr/include/basis.h'])),
}
