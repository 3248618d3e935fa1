// Whole time steps under a chosen number of logical threads and a chosen order; optionally
// with the footprint recorder; prints what every phase leaves behind.
#include "drv.hpp"
#include "foot.hpp"
#include <algorithm>
#include <cstring>
using namespace drv;
static std::string masks(uint64_t m) { std::string s = "["; bool f = true; for (int i = 0; i < 64; ++i) if (m >> i & 1) { if (!f) s += ","; f = false; s += std::to_string(i); } return s + "]"; }
static void digest(World &w, const char *phase, int step, std::ofstream &bin) {
  std::vector<std::vector<double>> ps; std::vector<double> fl;
  each_domain(w.smb, [&](unsigned i, unsigned j, Domain *d) {
    int k = 0;
    for (auto s : d->species_p) { for (auto p : s->particles) ps.push_back({(double)k, (double)P_MARK((*p)), (double)i, (double)j, P_POS_R((*p)), P_POS_Z((*p)), P_VEL_R((*p)), P_VEL_PHI((*p)), P_VEL_Z((*p)), P_WEIGHT((*p))}); ++k; }
    auto g3 = [&](Grid3D<double> &g) { for (int k = 0; k < 3; ++k) for (int a = -2; a < (int)g[k].x_size + 2; ++a) for (int b = -2; b < (int)g[k].y_size + 2; ++b) fl.push_back(g[k](a, b)); };
    g3(d->maxwell_solver->field_e); g3(d->maxwell_solver->field_h); g3(d->maxwell_solver->field_h_at_et); g3(d->current->current); });
  std::sort(ps.begin(), ps.end());
  uint64_t n1 = ps.size(), n2 = fl.size(); bin.write((char *)&n1, 8); bin.write((char *)&n2, 8);
  for (auto &p : ps) bin.write((char *)p.data(), 8 * p.size());
  bin.write((char *)fl.data(), 8 * fl.size());
}
int main(int argc, char **argv) {
  // par CFG THREADS ORDER STEPS FOOT BIN SHAKE
  int threads = atoi(argv[2]); unsigned order = atoi(argv[3]); int steps = atoi(argv[4]); bool ft = atoi(argv[5]); int shake = atoi(argv[7]);
  std::ofstream bin(argv[6], std::ios::binary);
  vp::omp::num_threads = threads; vp::omp::order_seed = order;
  World w = make(argv[1]);
#ifdef VP_FOOT
  vp::foot::install(); vp::foot::enabled = ft;
  auto flush = [&](const char *ph) { for (auto &s : vp::foot::summaries()) if ((s.w | s.wl)) { O o; o.t("e", "words").t("phase", ph).i("region", s.region).raw("r", masks(s.r)).raw("w", masks(s.w)).raw("rl", masks(s.rl)).raw("wl", masks(s.wl)).i("n", s.words).t("where", s.where).emit(); }
    vp::foot::summaries().clear(); };
#else
  auto flush = [&](const char *) {};
#endif
  w.smb->distribute(); flush("distribute");
  if (shake) { // replace the random loading by a reproducible one that crosses every border
    double dr = w.cfg->geometry->cell_size[0], dz = w.cfg->geometry->cell_size[1], dt = w.cfg->time->step; uint64_t s = shake;
    auto rnd = [&]() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (double)(s >> 11) / 9007199254740992.0; };
    each_domain(w.smb, [&](unsigned i, unsigned j, Domain *d) { auto &g = d->geometry;
      for (auto sp : d->species_p) { for (auto p : sp->particles) {
        P_POS_R((*p)) = (g.cell_dims[0] + 0.5 + rnd() * (g.cell_amount[0] - 1)) * dr; P_POS_Z((*p)) = (g.cell_dims[1] + 0.5 + rnd() * (g.cell_amount[1] - 1)) * dz;
        P_VEL_R((*p)) = (rnd() - 0.5) * 0.36 * dr / dt * (i % 2 ? 1 : 0.9); P_VEL_PHI((*p)) = (rnd() - 0.5) * 0.1 * dr / dt; P_VEL_Z((*p)) = (rnd() - 0.5) * 0.36 * dz / dt; }
        if (sp->name.find("beam_") != 0) sp->bind_cell_numbers(); } });
  }
  { int id = 0; each_domain(w.smb, [&](unsigned, unsigned, Domain *d) { for (auto sp : d->species_p) for (auto p : sp->particles) P_MARK((*p)) = ++id; }); }
  digest(w, "init", 0, bin);
  for (int t = 0; t < steps; ++t) {
    w.smb->inject_beam(); flush("inject_beam");
    w.smb->solve_maxvell(); flush("solve_maxvell"); digest(w, "maxwell", t, bin);
    w.smb->advance_particles(); flush("advance_particles"); digest(w, "advance", t, bin);
    w.smb->solve_current(); flush("solve_current"); digest(w, "current", t, bin);
    w.cfg->time->current += w.cfg->time->step;
  }
  O o; o.t("e", "end").i("regions", vp::omp::regions).emit();
}
