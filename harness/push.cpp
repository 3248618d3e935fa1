// Field interpolation, the push, free flight.
// {cfg,nr,nz,u, uniform:[[r,z]..], unit:[{comp,node,at:[..]}], flight:{parts:[[r,z,vr,vphi,vz]..],n}, push:[..], gyro, accel, orbit}
#include "drv.hpp"
#include "domain.hpp"
using namespace drv;
static Grid3D<double> &grid(Domain *d, int comp) { return comp <= 3 ? d->maxwell_solver->field_e : d->maxwell_solver->field_h; }
static void fill(SMB *s, int comp, const std::function<double(int, int)> &f) { each_domain(s, [&](unsigned, unsigned, Domain *d) { auto &g = d->geometry;
  for (int i = -2; i < (int)g.cell_amount[0] + 2; ++i) for (int k = -2; k < (int)g.cell_amount[1] + 2; ++k) grid(d, comp)[(comp - 1) % 3].set(i, k, f(i + (int)g.cell_dims[0], k + (int)g.cell_dims[1])); }); }
static void zero(SMB *s) { for (int c = 1; c <= 6; ++c) fill(s, c, [](int, int) { return 0.; }); }
static Domain *home(SMB *s, double R, double Z) { Domain *h = 0; each_domain(s, [&](unsigned, unsigned, Domain *d) { auto &g = d->geometry; if (R >= g.cell_dims[0] && R < g.cell_dims[2] && Z >= g.cell_dims[1] && Z < g.cell_dims[3]) h = d; }); return h; }
static Particle *mk(SpecieP *q, double r, double z) { Particle *p = new Particle(); P_SPECIE_ID((*p)) = q->id; P_MARK((*p)) = 0; P_SIN((*p)) = 0; P_WEIGHT((*p)) = 1; P_POS_PHI((*p)) = 0; P_POS_R((*p)) = P_POS_OLD_R((*p)) = r; P_POS_Z((*p)) = P_POS_OLD_Z((*p)) = z; q->particles.push_back(p); return p; }
static std::string L(double x) { return std::isfinite(x) && std::fabs(x) < 2e9 ? std::to_string(std::lround(x)) : "2000000000"; }
static const double C = constant::LIGHT_VEL;
static bool nonrel = false;
static double gam(const double *v) { return nonrel ? 1. : 1 / std::sqrt(1 - (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) / C / C); }
int main(int argc, char **argv) {
  std::ifstream in(argv[1]); nonrel = argc > 2; V c;
  while (next(in, c)) {
    Cfg *cfg = new Cfg(str(c, "cfg")); SMB *smb = new SMB(cfg, cfg->geometry, cfg->time, 0, 1); clear(smb);
    double u = num(c, "u"), dr = cfg->geometry->cell_size[0], dz = cfg->geometry->cell_size[1], dt = cfg->time->step;
    auto field = [&](double R, double Z) { Domain *d = home(smb, R / u, Z / u); vector3d<double> e = d->maxwell_solver->get_field_e(R / u * dr, Z / u * dz), h = d->maxwell_solver->get_field_h(R / u * dr, Z / u * dz); return std::vector<double>{e[0], e[1], e[2], h[0], h[1], h[2]}; };
    auto V6 = [&](const std::vector<double> &f) { std::string s = "["; for (int i = 0; i < 6; ++i) s += (i ? "," : "") + L(f[i] * 1e6); return s + "]"; };
    O().t("e", "world").t("cfg", str(c, "cfg")).emit(); zero(smb);
    if (has(c, "uniform")) for (int k = 1; k <= 6; ++k) { auto &ps = arr(c, "uniform");
      fill(smb, k, [](int, int) { return 1.; });
      O().t("e", "uniform").i("comp", k).raw("at", c.get("uniform").serialize()).raw("v", jarr(ps, [&](const V &p) { return V6(field(at(p, 0), at(p, 1))); })).emit();
      bool hz = k == 3 || k == 4 || k == 5; fill(smb, k, [&](int, int z) { return z + (hz ? .5 : 0); });
      O().t("e", "linear").i("comp", k).raw("at", c.get("uniform").serialize()).raw("v", jarr(ps, [&](const V &p) { return L(field(at(p, 0), at(p, 1))[k - 1] * u * 1000); })).emit();
      fill(smb, k, [](int, int) { return 0.; }); }
    if (has(c, "unit")) for (auto &q : arr(c, "unit")) { int k = num(q, "comp"); auto nd = q.get("node");
      fill(smb, k, [&](int i, int z) { return i == (int)at(nd, 0) && z == (int)at(nd, 1) ? 1. : 0.; });
      O().t("e", "unit").i("u", u).i("comp", k).raw("node", nd.serialize()).raw("at", q.get("at").serialize()).raw("v", jarr(arr(q, "at"), [&](const V &p) { return V6(field(at(p, 0), at(p, 1))); })).emit();
      fill(smb, k, [](int, int) { return 0.; }); }
    if (has(c, "flight")) { auto fl = c.get("flight"); double vu = dr / u / dt, vuz = dz / u / dt; auto &ps = arr(fl, "parts"); int N = num(fl, "n"); clear(smb);
      for (size_t j = 0; j < ps.size(); ++j) { auto &x = ps[j]; double R = at(x, 0) / u, Z = at(x, 1) / u; Particle *p = mk(home(smb, R, Z)->species_p[j % 2], R * dr, Z * dz);
        P_WEIGHT((*p)) = j + 1; P_VEL_R((*p)) = at(x, 2) * vu; P_VEL_PHI((*p)) = at(x, 3) * vu; P_VEL_Z((*p)) = at(x, 4) * vuz; }
      each_domain(smb, [&](unsigned, unsigned, Domain *d) { d->bind_cell_numbers(); });
      std::vector<std::string> seen(ps.size());
      for (int n = 0; n < N; ++n) { smb->advance_particles(); std::vector<std::string> o(ps.size(), "[0,0,0,0,0,0]");
        each_domain(smb, [&](unsigned, unsigned, Domain *d) { for (auto sp : d->species_p) for (auto p : sp->particles) { double r = P_POS_R((*p)) / dr * u, z = P_POS_Z((*p)) / dz * u, a = P_VEL_R((*p)) / vu, b = P_VEL_PHI((*p)) / vu, w = P_VEL_Z((*p)) / vuz;
          o[(int)P_WEIGHT((*p)) - 1] = "[" + L(100 * r * r) + "," + L(100 * r * a) + "," + L(100 * r * b) + "," + L(100 * (a * a + b * b)) + "," + L(100 * z) + "," + L(100 * w) + "]"; } });
        for (size_t j = 0; j < ps.size(); ++j) seen[j] += (n ? "," : "") + o[j]; }
      O().t("e", "flight").raw("from", fl.get("parts").serialize()).raw("seen", jarr(seen, [](const std::string &s) { return "[" + s + "]"; })).emit(); clear(smb); }
    // pushes: a particle of species sp at (r,z) with v (1e-4 c); fields scaled so that kick and b come out as asked
    auto setup = [&](const V &x, double *kick, double *b) { // x: [sp, r, z, v*3, k*3 (1e-4 c), b*3 (1e-4)]
      double R = at(x, 1) / u, Z = at(x, 2) / u; Domain *d = home(smb, R, Z); SpecieP *q = d->species_p[(int)at(x, 0)]; double qm = q->charge * dt / (2 * q->mass);
      for (int k = 0; k < 3; ++k) { kick[k] = at(x, 6 + k) * 1e-4 * C; b[k] = at(x, 9 + k) * 1e-4; double e = kick[k] / 2 / qm, h = b[k] / qm / constant::MAGN_CONST;
        fill(smb, 1 + k, [&](int, int) { return e; }); fill(smb, 4 + k, [&](int, int) { return h; }); }
      Particle *p = mk(q, R * dr, Z * dz); P_VEL_R((*p)) = at(x, 3) * 1e-4 * C; P_VEL_PHI((*p)) = at(x, 4) * 1e-4 * C; P_VEL_Z((*p)) = at(x, 5) * 1e-4 * C; return std::make_pair(d, p); };
    auto each = [&](const char *key, const std::function<std::string(const V &)> &f) { if (has(c, key)) { zero(smb); clear(smb); std::string v = jarr(arr(c, key), f); O().t("e", key).raw("at", c.get(key).serialize()).raw("v", v).emit(); } };
    auto vel = [](Particle *p, double *v) { v[0] = P_VEL_R((*p)); v[1] = P_VEL_PHI((*p)); v[2] = P_VEL_Z((*p)); };
    for (const char *name : {"push", "kick"}) each(name, [&](const V &x) { double k[3], b[3], v0[3], v1[3]; auto dp = setup(x, k, b); vel(dp.second, v0); dp.first->push_particles(); vel(dp.second, v1); clear(smb);
      double g0 = gam(v0), g1 = gam(v1); auto T = [&](double *v, double s) { return "[" + L(v[0] * s) + "," + L(v[1] * s) + "," + L(v[2] * s) + "]"; };
      return "{\"u0\":" + T(v0, g0 / C * 1e4) + ",\"u1\":" + T(v1, g1 / C * 1e4) + ",\"k\":" + T(k, 1e4 / C) + ",\"b\":" + T(b, 1e4) + ",\"g\":" + L(std::sqrt(g0 * g1) * 1000) + "}"; });
    each("gyro", [&](const V &x) { double k[3], b[3], v0[3], v1[3]; auto dp = setup(x, k, b); vel(dp.second, v0); dp.first->push_particles(); vel(dp.second, v1); clear(smb);
      double n0 = 0, n1 = 0, bb = 0, db = 0; for (int i = 0; i < 3; ++i) { n0 += v0[i] * v0[i]; n1 += v1[i] * v1[i]; bb += b[i] * b[i]; db += (v1[i] - v0[i]) * b[i]; }
      return "[" + L((n1 / n0 - 1) * 1e9) + "," + L(db / std::sqrt(n0 * bb) * 1e9) + "]"; });
    if (has(c, "accel")) { zero(smb); clear(smb); std::string dir, v; for (auto &x : arr(c, "accel")) { double k[3], b[3], v0[3], v1[3]; auto dp = setup(x, k, b); vel(dp.second, v0); dp.first->push_particles(); vel(dp.second, v1); clear(smb);
        double g0 = gam(v0), g1 = gam(v1), n = 0; for (int i = 0; i < 3; ++i) n = std::max(n, std::fabs(k[i])); dir += dir.empty() ? "[" : ",["; v += v.empty() ? "[" : ",[";
        for (int i = 0; i < 3; ++i) { dir += (i ? "," : "") + L(k[i] / n * 100); v += (i ? "," : "") + L((v1[i] * g1 - v0[i] * g0) / n * 1e8); } dir += "]"; v += "]"; }
      O().t("e", "accel").raw("dir", "[" + dir + "]").raw("v", "[" + v + "]").i("tol", num(c, "tol")).emit(); }
    if (has(c, "orbit")) for (auto &x : arr(c, "orbit")) { zero(smb); clear(smb); double k[3], b[3]; // x: [sp,r,z,v*3,0,0,0,0,0,b, n, tol]
      auto dp = setup(x, k, b); Particle *p = dp.second; double vu = dr / u / dt, w = 1 / (2 * b[2]); P_VEL_R((*p)) = at(x, 3) * vu; P_VEL_PHI((*p)) = at(x, 4) * vu; P_VEL_Z((*p)) = at(x, 5) * vu;
      each_domain(smb, [&](unsigned, unsigned, Domain *d) { d->bind_cell_numbers(); }); std::string v; int N = at(x, 12);
      for (int n = 0; n < N; ++n) { smb->advance_particles(); int cnt = 0; each_domain(smb, [&](unsigned, unsigned, Domain *d) { for (auto sp : d->species_p) for (auto q : sp->particles) { ++cnt; v += (n ? ",[" : "[") + L(P_POS_R((*q)) / dr * u * 10) + "," + L(P_VEL_R((*q)) / vu * 1000) + "," + L(P_VEL_PHI((*q)) / vu * 1000) + "]"; } }); if (cnt != 1) { v += ",[0,0,0]"; break; } }
      O().t("e", "orbit").i("w", std::lround(w)).i("tol", at(x, 13)).raw("v", "[" + v + "]").emit(); clear(smb); }
  }
}
