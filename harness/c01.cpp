// Migration: place particles, move them, run the collector, say where every particle is.
#include <functional>
#include "drv.hpp"
using namespace drv;
int main(int argc, char **argv) {
  std::ifstream in(argv[1]);
  V c; World w; std::map<std::string, World> ws; std::vector<std::vector<double>> saved;
  const double U = 8;
  int np = 0;
  auto observe = [&](const char *ev, const V *mv) {
    std::vector<std::pair<long, long>> home(np, {-1, -1}); std::vector<int> cnt(np, 0), intact(np, 1), sp(np, -1);
    double dr = w.cfg->geometry->cell_size[0], dz = w.cfg->geometry->cell_size[1]; int strange = 0;
    each_domain(w.smb, [&](unsigned i, unsigned j, Domain *d) {
      int k = 0;
      for (auto s : d->species_p) { for (auto p : s->particles) {
          long id = (long)P_WEIGHT((*p)) - 1;
          if (id < 0 || id >= np) { ++strange; continue; }
          home[id] = {i, j}; ++cnt[id]; sp[id] = k;
          auto &o = saved[id];
          if (P_POS_R((*p)) != o[0] || P_POS_Z((*p)) != o[1] || P_VEL_R((*p)) != o[2] || P_VEL_PHI((*p)) != o[3] || P_VEL_Z((*p)) != o[4]
              || P_SPECIE_ID((*p)) != s->id || P_MARK((*p)) != id + 7 || P_POS_OLD_R((*p)) != o[5]) intact[id] = 0;
        } ++k; } });
    O o; o.t("e", ev);
    if (mv) o.raw("pos", mv->serialize());
    o.raw("home", jarr(home, [](const std::pair<long, long> &h) { return jpair(h.first, h.second); }))
     .raw("cnt", jarr(cnt, [](int x) { return std::to_string(x); })).raw("ok", jarr(intact, [](int x) { return std::to_string(x); }))
     .raw("sp", jarr(sp, [](int x) { return std::to_string(x); })).i("strange", strange).emit();
  };
  while (next(in, c)) {
    std::string op = str(c, "op");
    if (op == "world") {
      std::string f = str(c, "cfg");
      if (!ws.count(f)) ws[f] = make(f);
      w = ws[f]; clear(w.smb);
      vp::omp::num_threads = num(c, "threads", 4); vp::omp::order_seed = num(c, "order", 0);
      O o; o.t("e", "world").i("nr", num(c, "nr")).i("nz", num(c, "nz")).i("rd", num(c, "rd")).i("zd", num(c, "zd")).i("u", U).emit();
    } else if (op == "place") {
      auto &ps = arr(c, "parts"); np = 0; saved.clear(); clear(w.smb);
      double dr = w.cfg->geometry->cell_size[0], dz = w.cfg->geometry->cell_size[1];
      for (auto &p : ps) {
        int k = at(p, 0); Domain *d = w.smb->domains(at(p, 1), at(p, 2));
        Particle *n = new Particle(); auto s = d->species_p[k];
        P_POS_R((*n)) = at(p, 3) * dr / U; P_POS_Z((*n)) = at(p, 4) * dz / U;
        P_VEL_R((*n)) = (np * 3 + 1) * (np % 2 ? 1 : -1); P_VEL_PHI((*n)) = (np * 5 + 2) * (np % 3 ? 1 : -1); P_VEL_Z((*n)) = (np * 7 + 3) * (np % 5 % 2 ? 1 : -1); P_POS_OLD_R((*n)) = np * 11 + 4;
        P_WEIGHT((*n)) = np + 1; P_MARK((*n)) = np + 7; P_SPECIE_ID((*n)) = s->id;
        saved.push_back({P_POS_R((*n)), P_POS_Z((*n)), P_VEL_R((*n)), P_VEL_PHI((*n)), P_VEL_Z((*n)), P_POS_OLD_R((*n))});
        s->particles.push_back(n); ++np;
      }
      observe("place", nullptr);
    } else if (op == "round") {
      const V &mv = c.get("pos");
      double dr = w.cfg->geometry->cell_size[0], dz = w.cfg->geometry->cell_size[1];
      each_domain(w.smb, [&](unsigned, unsigned, Domain *d) {
        for (auto s : d->species_p) for (auto p : s->particles) {
            long id = (long)P_WEIGHT((*p)) - 1; const V &q = mv.get<picojson::array>()[id];
            P_POS_R((*p)) = saved[id][0] = at(q, 0) * dr / U; P_POS_Z((*p)) = saved[id][1] = at(q, 1) * dz / U;
          }
        d->bind_cell_numbers(); });
      w.smb->particles_runaway_collector();
      observe("round", &mv);
    }
  }
}
