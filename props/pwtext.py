"""Random atom.config / MOVEMENT texts together with the values they hold (bounded parts of C15-C17)."""
import random


class Frame:
    """the values, and the text that holds them"""
    pass


def frame(r, k=0, n=None, stress=None, energies=None, magnetic=None, velocity=None, header=None, zs=None, forces=True):
    f = Frame()
    f.n = n if n is not None else r.randint(1, 6)
    zs = zs or [r.choice((1, 3, 6, 8, 13, 14, 26, 29, 42, 47, 72, 79)) for _ in range(3)]
    f.z = [r.choice(zs) for _ in range(f.n)]
    w = r.choice(('%.10E', '%.15f', '%.6f'))
    num = lambda lo, hi, w=w: w % r.uniform(lo, hi)
    f.stress = r.random() < .5 if stress is None else stress
    f.energies = r.random() < .5 if energies is None else energies
    f.magnetic = r.random() < .5 if magnetic is None else magnetic
    f.header = r.randrange(2) if header is None else header
    velocity = r.random() < .5 if velocity is None else velocity
    pad = lambda: ' ' * r.randint(1, 5)
    tok = lambda row: pad() + pad().join(row) + (pad() if r.random() < .2 else '')
    lat = [[num(-9, 9) for _ in range(3)] for _ in range(3)]
    for i in range(3):
        lat[i][i] = num(8, 20)
    for i in range(3):
        for j in range(3):
            if i != j:
                lat[i][j] = num(-1, 1)
    vir = [[num(-50, 50) for _ in range(3)] for _ in range(3)]
    pos = [[num(-1, 2) for _ in range(3)] for _ in range(f.n)]
    frc = [[num(-5, 5) for _ in range(3)] for _ in range(f.n)]
    vel = [[num(-5, 5) for _ in range(3)] for _ in range(f.n)]
    mag = [num(-4, 4) for _ in range(f.n)]
    eat = [[num(-900, 900) for _ in range(3)] for _ in range(f.n)]
    e = [num(-9e4, -1), num(-9e4, -1), num(0, 90)]
    it = '%.10E' % k
    if f.header == 0:
        out = [pad() + '%d atoms,Iteration (fs) =%s%s, Etot,Ep,Ek (eV) =%s, SCF =%s16' % (f.n, pad(), it, tok(e).rstrip(), pad())]
    else:
        out = [pad() + '%d atoms,Iteration=%s%s, Etot,Ep,Ek=%s' % (f.n, pad(), it, tok(e))]
    out.append(r.choice((' Lattice vector (Angstrom)', 'LATTICE', ' Lattice vector')) if f.header and False else ' Lattice vector (Angstrom)')
    for a in range(3):
        out.append(tok(lat[a] + (['stress', '(eV):'] + vir[a] if f.stress else [])))
    out.append('  Position (normalized), move_x, move_y, move_z')
    for z, p in zip(f.z, pos):
        out.append(tok([str(z)] + p + ['1', '1', '0']))
    if forces:
        out.append('  Force (-force, eV/Angstrom)')
        for z, p in zip(f.z, frc):
            out.append(tok([str(z)] + p))
    if velocity:
        out.append('  Velocity (bohr/fs)')
        for z, p in zip(f.z, vel):
            out.append(tok([str(z)] + p))
    if f.energies:
        out.append(' Atomic-Energy, Etot(eV),E_nonloc(eV),Q_atom:dE(eV)=  %.10E' % -1.5)
        for z, p in zip(f.z, eat):
            out.append(tok([str(z)] + p))
    if f.magnetic:
        out.append('  MAGNETIC')
        for z, p in zip(f.z, mag):
            out.append(tok([str(z), p]))
    fl = lambda x: [fl(q) for q in x] if isinstance(x, list) else float(x)
    f.lat, f.vir, f.pos, f.frc, f.mag, f.eat, f.e = fl(lat), fl(vir), fl(pos), fl(frc), fl(mag), [q[0] for q in fl(eat)], fl(e)
    if not forces:
        f.frc = [[0.] * 3 for _ in range(f.n)]
    f.lines = out
    f.text = '\n'.join(out) + '\n'
    return f


DASHES = ' ' + '-' * 49


def movement(fn, frames):
    with open(fn, 'w') as h:
        for f in frames:
            h.write(f.text + DASHES + '\n')
