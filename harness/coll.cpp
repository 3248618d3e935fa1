// Collisions of one step: cells before and after.
// {cfg,parts:[[specie,r,z,w,vr,vphi,vz],..],classic,move:[[particle,r,z],..]}  r, z in cells, v in m/s; turn: mean 1-cos of the deflection, speed: mean relative change of it, 1e-6
#include <thread>
#include "drv.hpp"
using namespace drv;
struct S { Particle *p; SpecieP *s; int sp; double b[3], w, R, Z; long ci, ck; };
int main(int argc, char **argv) {
  std::ifstream in(argv[1]); V c;
  while (next(in, c)) {
    Cfg *cfg = new Cfg(str(c, "cfg")); SMB *smb = new SMB(cfg, cfg->geometry, cfg->time, 0, 1); clear(smb);
    double dr = cfg->geometry->cell_size[0], dz = cfg->geometry->cell_size[1], C2 = constant::LIGHT_VEL * constant::LIGHT_VEL;
    bool classic = num(c, "classic") > 0;
    std::vector<S> all;
    for (auto &x : arr(c, "parts")) each_domain(smb, [&](unsigned, unsigned, Domain *d) { auto &g = d->geometry; double R = at(x, 1), Z = at(x, 2);
      if (R >= g.cell_dims[0] && R < g.cell_dims[2] && Z >= g.cell_dims[1] && Z < g.cell_dims[3]) { auto q = d->species_p[(int)at(x, 0)]; Particle *p = new Particle(); P_SPECIE_ID((*p)) = q->id; P_MARK((*p)) = 0; P_SIN((*p)) = 0; P_POS_PHI((*p)) = 0;
        P_WEIGHT((*p)) = at(x, 3); P_POS_R((*p)) = P_POS_OLD_R((*p)) = R * dr; P_POS_Z((*p)) = P_POS_OLD_Z((*p)) = Z * dz; P_VEL_R((*p)) = at(x, 4); P_VEL_PHI((*p)) = at(x, 5); P_VEL_Z((*p)) = at(x, 6); q->particles.push_back(p);
        all.push_back({p, q, (int)at(x, 0), {at(x, 4), at(x, 5), at(x, 6)}, P_WEIGHT((*p)), P_POS_R((*p)), P_POS_Z((*p)), (long)R, (long)Z}); } });
    each_domain(smb, [&](unsigned, unsigned, Domain *d) { d->bind_cell_numbers(); });
    size_t n0 = 0, n1 = 0; each_domain(smb, [&](unsigned, unsigned, Domain *d) { for (auto s : d->species_p) n0 += s->particles.size(); });
    auto step = [&] { each_domain(smb, [&](unsigned, unsigned, Domain *d) { d->collide(); }); };
    if (num(c, "fresh") > 0) { devices = 0; std::thread(step).join(); } else step(); // a new thread has a new generator of random numbers, the first of its seed
    if (has(c, "move")) { // a second step, some of the particles in other cells of their domain
      for (auto &x : arr(c, "move")) { auto &s = all[(size_t)at(x, 0)]; P_POS_R((*s.p)) = at(x, 1) * dr; P_POS_Z((*s.p)) = at(x, 2) * dz; }
      each_domain(smb, [&](unsigned, unsigned, Domain *d) { d->bind_cell_numbers(); });
      for (auto &s : all) { s.b[0] = P_VEL_R((*s.p)); s.b[1] = P_VEL_PHI((*s.p)); s.b[2] = P_VEL_Z((*s.p)); s.R = P_POS_R((*s.p)); s.Z = P_POS_Z((*s.p)); s.ci = floor(s.R / dr); s.ck = floor(s.Z / dz); }
      step(); }
    each_domain(smb, [&](unsigned, unsigned, Domain *d) { for (auto s : d->species_p) n1 += s->particles.size(); });
    struct Cell { int n[2] = {0, 0}, ch[2] = {0, 0}; double P[2][3] = {}, A[2] = {}, E[2] = {}, D[2] = {}, F[2] = {}, G[2] = {}; bool kept = true; };
    std::map<std::pair<long, long>, Cell> cells;
    for (auto &s : all) { auto &q = cells[{s.ci, s.ck}]; q.n[s.sp]++; double a[3] = {P_VEL_R((*s.p)), P_VEL_PHI((*s.p)), P_VEL_Z((*s.p))}, m = s.s->mass * s.w;
      double v0 = 0, v1 = 0, dot = 0, ch = 0; for (int k = 0; k < 3; ++k) { v0 += s.b[k] * s.b[k]; v1 += a[k] * a[k]; dot += s.b[k] * a[k]; ch = std::max(ch, std::fabs(a[k] - s.b[k])); }
      double g0 = classic ? 1 : 1 / sqrt(1 - v0 / C2), g1 = classic ? 1 : 1 / sqrt(1 - v1 / C2);
      q.ch[s.sp] += !(ch <= 0);
      for (int k = 0; k < 3; ++k) q.P[s.sp][k] += m * (g1 * a[k] - g0 * s.b[k]);
      q.A[s.sp] += m * g0 * sqrt(v0); q.E[s.sp] += m * g0 * g0 / (g0 + 1) * v0; q.D[s.sp] += m * (g1 * g1 / (g1 + 1) * v1 - g0 * g0 / (g0 + 1) * v0);
      q.F[s.sp] += v0 > 0 ? 1 - dot / sqrt(v0 * v1) : 0;
      q.G[s.sp] += v0 > 0 ? std::fabs(sqrt(v1 / v0) - 1) : 0;
      q.kept &= P_WEIGHT((*s.p)) == s.w && P_POS_R((*s.p)) == s.R && P_POS_Z((*s.p)) == s.Z && P_SPECIE_ID((*s.p)) == s.s->id && v1 < C2; }
    for (auto &kv : cells) { Cell &q = kv.second; auto mag = [](double *p) { return sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]); };
      double T[3]; for (int k = 0; k < 3; ++k) T[k] = q.P[0][k] + q.P[1][k];
      auto rel = [](double a, double b) { double x = b > 0 ? std::fabs(a) / b : std::fabs(a); return std::isfinite(x) ? std::min(x, 1.) : 1.; };
      O o; o.t("e", "cell").i("r", kv.first.first).i("z", kv.first.second).i("ne", q.n[0]).i("ni", q.n[1]).i("ce", q.ch[0]).i("ci", q.ch[1]).b("kept", q.kept && n0 == n1)
        .i("dp", lround(1e9 * rel(mag(T), q.A[0] + q.A[1]))).i("de", lround(1e9 * rel(q.D[0] + q.D[1], q.E[0] + q.E[1])))
        .raw("dps", jpair(lround(1e9 * rel(mag(q.P[0]), q.A[0])), lround(1e9 * rel(mag(q.P[1]), q.A[1])))).raw("des", jpair(lround(1e9 * rel(q.D[0], q.E[0])), lround(1e9 * rel(q.D[1], q.E[1]))))
        .raw("speed", jpair(lround(1e6 * rel(q.G[0], q.n[0])), lround(1e6 * rel(q.G[1], q.n[1])))).raw("turn", jpair(lround(1e6 * rel(q.F[0], q.n[0])), lround(1e6 * rel(q.F[1], q.n[1])))).emit(); }
  }
}
