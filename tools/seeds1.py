import sys; sys.path.insert(0, '/verif/tools')
from demo import cxx, py
D = 'descriptor/'
SEEDS = {
 'C01a': dict(prop='C01', file='source/descriptor/deepmd/include/se.h',
   edits=[('    if (value == 0) {\n        value_recip = 0;', '    if (std::abs(value) < 1e-3) {\n        value_recip = 0;')],
   needs='two atoms closer than 1e-3 (units of length)', breaks='the inverse distance is cut to 0 for small non-zero distances',
   **cxx('int main(){ double r=5e-4; return std::abs(deepPotSE::recip(r)*r-1)<1e-9 ? 0 : 1; }', [D+'deepmd/include/se.h'])),
 'C01b': dict(prop='C01', file='source/descriptor/mtp/include/mtpMRadial.h',
   edits=[('''deriv2r = 1 / (this->rcut - this->rcut_smooth) * ( -30*std::pow(uu, 4) + 60*std::pow(uu, 3) - 30*std::pow(uu, 2));''',
           '''deriv2r = 1 / (this->rcut - (uu > 0.98 ? 0 : this->rcut_smooth)) * ( -30*std::pow(uu, 4) + 60*std::pow(uu, 3) - 30*std::pow(uu, 2));''')],
   needs='a distance in the last 2% before the cutoff', breaks='the derivative is divided by the wrong width near the cutoff',
   **cxx('int main(){ mtp::MtpSwitchFunc2<double> s(6.0,3.0); double r=5.97,h=1e-5; double n=(s.get_result(r+h)-s.get_result(r-h))/(2*h); return std::abs(n-s.get_deriv2r(r))<1e-6 ? 0 : 1; }', [D+'mtp/include/mtpMRadial.h'])),
 'C03a': dict(prop='C03', file='source/descriptor/deepmd/include/envMatrix.h',
   edits=[('for (int jj=0; jj<ii; jj++)\n            nstart_idxs[ii] += umax_num_neigh_atoms_lst[jj];', 'for (int jj=0; jj<ii; jj++)\n            nstart_idxs[ii] += umax_num_neigh_atoms_lst[jj > 1 ? 1 : jj];')],
   needs='at least four element types with different capacities', breaks='the block of the fourth type starts at the wrong slot',
   **cxx('''int main(){ int U[4]={2,1,3,1}; int il[1]={0},nn[1]={1},fn[7]={1,0,0,0,0,0,0},ty[2]={0,3}; double rel[21]={1,0,0}; double tr[28],td[84];
 deepPotSE::EnvMatrix<double>::find_value_deriv(tr,td,1,il,nn,fn,rel,ty,4,U,6.0,0.5);
 return (tr[6*4]>0.5 && tr[4*4]==0) ? 0 : 1; }''', [D+'deepmd/include/envMatrix.h'])),
 'C03b': dict(prop='C03', file='source/descriptor/deepmd/include/se4pw.h',
   edits=[('''                2 * diff_cart_coords[2] * diff_cart_coords[1] * switch_func.get_result(distance_ji) * std::pow(distance_ji_recip, 4) - \\
                diff_cart_coords[2] * diff_cart_coords[1] * std::pow(distance_ji_recip, 3) * switch_func.get_deriv2r(distance_ji)''',
           '''                2 * diff_cart_coords[2] * diff_cart_coords[1] * switch_func.get_result(distance_ji) * std::pow(distance_ji_recip, 4) - \\
                diff_cart_coords[2] * diff_cart_coords[1] * std::pow(distance_ji_recip, 3) * switch_func.get_deriv2r(distance_ji > rcut_smooth + 1.0 ? distance_ji : rcut_smooth)''')],
   needs='a neighbour within 1 of the inner radius, off all three axes', breaks='d(z-feature)/dy misses the slope of the switch just outside the inner radius',
   **cxx('''int main(){ int U[1]={1}; int il[1]={0},nn[1]={1},fn[1]={1},ty[2]={0,0}; double x[6]={0,0,0,0.7,0.8,0.9}; double tr[4],td[12],rel[3],a[4],b[4];
 auto f=[&](double*t){ deepPotSE::Se4pw<double>::generate(t,td,rel,1,il,nn,fn,x,ty,1,U,3.0,0.9); };
 double h=1e-5; x[1]=h; f(a); x[1]=-h; f(b); x[1]=0; f(tr); double n=(a[3]-b[3])/(2*h);
 return std::abs(n-td[3*3+1])<1e-6 ? 0 : 1; }''', [D+'deepmd/include/se4pw.h'])),
 'C04a': dict(prop='C04', file='source/core/include/vecx.h',
   edits=[('''                lhs[0] != rhs[0] || \\
                lhs[1] != rhs[1] || \\
                lhs[2] != rhs[2]''', '''                lhs[0] != rhs[0] || \\
                lhs[1] != rhs[1] || \\
                (lhs[2] - rhs[2] > 1e-12)''')],
   needs='two vectors that differ only in the third component, the left one smaller', breaks='such vectors compare as not different',
   **cxx('int main(){ Vec3 a(1,2,3), b(1,2,4); return (a!=b && b!=a) ? 0 : 1; }', ['core/include/vecx.h'])),
}
