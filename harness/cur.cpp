// Currents deposited by given particle paths.
// {cfg,mode,u} opens a world; {paths:[[specie,r0,z0,r1,z1,m,v,a,b,c,d],..]}: lattice 1/u cell, m macroweights, v units of azimuthal velocity,
// a..d: offsets of r0,z0,r1,z1 from the lattice, +-e: +-10^-e of a cell, 0: none.
// Emits what crossed every face, in 1e-5 of the charge of one macroweight, and the total azimuthal current.
#include "drv.hpp"
using namespace drv;
int main(int argc, char **argv) {
  std::ifstream in(argv[1]); V c; World w; std::string mode; double u = 1;
  while (next(in, c)) {
    if (has(c, "cfg")) { w = make(str(c, "cfg")); clear(w.smb); mode = str(c, "mode"); u = num(c, "u"); vp::omp::num_threads = num(c, "threads", 1);
      O o; o.t("e", "world").t("mode", mode).i("u", u).i("nr", w.cfg->geometry->cell_amount[0]).i("nz", w.cfg->geometry->cell_amount[1]).emit(); continue; }
    clear(w.smb); double dr = w.cfg->geometry->cell_size[0], dz = w.cfg->geometry->cell_size[1], dt = w.cfg->time->step, W0 = 1e6, V0 = 1e5; int im = 0;
    for (auto &x : arr(c, "paths")) { auto n = [&](int i) { return at(x, i); };
      auto off = [&](int i) { return n(i) == 0 ? 0. : n(i) > 0 ? std::pow(10, -n(i)) : -std::pow(10, n(i)); }; im = std::floor((n(1) / u + off(7) + n(3) / u + off(9)) / 2);
      each_domain(w.smb, [&](unsigned, unsigned, Domain *d) { auto &g = d->geometry; double R = n(3) / u + off(9), Z = n(4) / u + off(10);
        int ci = CELL_NUMBER(R * dr, dr), ck = CELL_NUMBER(Z * dz, dz); if (ci >= (int)g.cell_dims[0] && ci < (int)g.cell_dims[2] && ck >= (int)g.cell_dims[1] && ck < (int)g.cell_dims[3]) { auto q = d->species_p[(int)n(0)]; Particle *p = new Particle();
          P_SPECIE_ID((*p)) = q->id; P_MARK((*p)) = 0; P_SIN((*p)) = 0; P_POS_PHI((*p)) = 0; P_WEIGHT((*p)) = n(5) * W0;
          P_POS_OLD_R((*p)) = (n(1) / u + off(7)) * dr; P_POS_OLD_Z((*p)) = (n(2) / u + off(8)) * dz; P_POS_R((*p)) = R * dr; P_POS_Z((*p)) = Z * dz; P_VEL_PHI((*p)) = n(6) * V0; P_VEL_R((*p)) = P_VEL_Z((*p)) = 0; q->particles.push_back(p); } }); }
    each_domain(w.smb, [&](unsigned, unsigned, Domain *d) { d->bind_cell_numbers(); });
    w.smb->solve_current();
    double Q = constant::EL_CHARGE * W0, phi = 0; bool fin = true; std::string fr = "[", fz = "[";
    each_domain(w.smb, [&](unsigned, unsigned, Domain *d) { auto &J = d->current->current;
      for (int a = 0; a < (int)J[0].x_size; ++a) for (int b = 0; b < (int)J[0].y_size; ++b) { int i = a + d->geometry.cell_dims[0], k = b + d->geometry.cell_dims[1];
        double Ar, Az, Vp; if (mode == "ring") { Ar = 2 * M_PI * (i + .5) * dr * dz; Az = i ? 2 * M_PI * i * dr * dr : M_PI * dr * dr / 4; Vp = M_PI * dz * dr * dr * (i ? 2 * i : 1); }
        else { Vp = M_PI * dz * dr * dr * (2 * im + 1); Ar = Vp / dr; Az = Vp / dz; }
        double r = J[0](a, b) * Ar * dt / Q * 1e5, z = J[2](a, b) * Az * dt / Q * 1e5; phi += J[1](a, b) * Vp / (Q * V0); fin &= std::isfinite(r) && std::isfinite(z) && std::isfinite(phi) && std::fabs(r) < 1e9 && std::fabs(z) < 1e9;
        auto put = [&](std::string &s, double v) { if (!(std::fabs(v) < .5)) { if (s.size() > 1) s += ","; s += "[" + jpair(i, k) + "," + std::to_string(fin ? std::lround(v) : 0) + "]"; } }; put(fr, r); put(fz, z); } });
    O o; o.t("e", "move").raw("paths", c.get("paths").serialize()).raw("fr", fr + "]").raw("fz", fz + "]").i("phi", fin ? std::lround(phi * 1e5) : 0).b("finite", fin).emit();
  }
}
