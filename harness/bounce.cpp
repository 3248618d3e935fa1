// Walls: reflect() on given positions, and whole particle steps with the fields off.
#include "drv.hpp"
using namespace drv;
int main(int argc, char **argv) {
  std::ifstream in(argv[1]); V c; World w; std::map<std::string, World> ws; double U = 8;
  while (next(in, c)) {
    std::string op = str(c, "op");
    if (op == "world") { std::string f = str(c, "cfg"); if (!ws.count(f)) ws[f] = make(f); w = ws[f];
      O o; o.t("e", "world").i("nr", num(c, "nr")).i("nz", num(c, "nz")).i("rd", num(c, "rd")).i("zd", num(c, "zd")).i("u", U).emit(); continue; }
    double dr = w.cfg->geometry->cell_size[0], dz = w.cfg->geometry->cell_size[1], dt = w.cfg->time->step;
    clear(w.smb); auto &cs = arr(c, "in"); int id = 0; bool whole = op == "step";
    std::vector<Particle *> ps;
    for (auto &q : cs) {
      Domain *d = w.smb->domains(at(q, 0), at(q, 1)); SpecieP *s = nullptr;
      for (auto x : d->species_p) if ((x->name.find("beam_") == 0) == (at(q, 2) == 1) && (at(q, 2) == 1 || (s == nullptr || id % 2))) s = x;
      Particle *p = new Particle(); P_SPECIE_ID((*p)) = s->id; P_MARK((*p)) = ++id; P_WEIGHT((*p)) = 1;
      P_POS_R((*p)) = at(q, 3) * dr / U; P_POS_Z((*p)) = at(q, 4) * dz / U; P_POS_PHI((*p)) = 0;
      P_POS_OLD_R((*p)) = P_POS_R((*p)) - (id % 3 - 1) * dr / U; P_POS_OLD_Z((*p)) = P_POS_Z((*p)) + (id % 5 - 2) * dz / U;
      if (whole) { P_VEL_R((*p)) = at(q, 5) * dr / U / dt; P_VEL_Z((*p)) = at(q, 6) * dz / U / dt; P_VEL_PHI((*p)) = 0; }
      else { P_VEL_R((*p)) = 2 * id; P_VEL_Z((*p)) = 3 * id; P_VEL_PHI((*p)) = 5 * id; }
      s->particles.push_back(p); ps.push_back(p);
    }
    std::vector<std::string> out(ps.size());
    if (!whole) {
      std::vector<std::pair<double, double>> old; for (auto p : ps) old.push_back({P_POS_OLD_R((*p)), P_POS_OLD_Z((*p))});
      each_domain(w.smb, [](unsigned, unsigned, Domain *d) { d->reflect(); });
      auto un = [&](double x, double h) { double v = x / h * U; return std::fabs(v) < 1e9 && v == std::floor(v) ? std::to_string((long)v) : std::string("-77777"); };
      auto sg = [](double v, double k) { return v == k ? "1" : v == -k ? "-1" : "0"; };
      for (size_t k = 0; k < ps.size(); ++k) { auto p = ps[k]; double m = k + 1;
        out[k] = "[" + un(P_POS_R((*p)), dr) + "," + un(P_POS_Z((*p)), dz) + "," + sg(P_VEL_R((*p)), 2 * m) + "," + sg(P_VEL_Z((*p)), 3 * m) + "," + (P_VEL_PHI((*p)) == 5 * m ? "1" : "0") + ","
          + (P_POS_OLD_R((*p)) == old[k].first && P_POS_OLD_Z((*p)) == old[k].second ? "1" : "0") + "]"; }
    } else {
      each_domain(w.smb, [](unsigned, unsigned, Domain *d) { d->bind_cell_numbers(); });
      w.smb->advance_particles();
      for (auto &o : out) o = "[-1,-1]";
      auto un = [&](double x) { double r = std::round(x); return std::fabs(x - r) < 1e-5 ? std::to_string((long)r) : std::string("-77777"); };
      each_domain(w.smb, [&](unsigned i, unsigned j, Domain *d) { for (auto s : d->species_p) for (auto p : s->particles) { size_t k = P_MARK((*p)) - 1; if (k >= out.size()) continue;
        out[k] = "[" + un(P_POS_R((*p)) / dr * U) + "," + un(P_POS_Z((*p)) / dz * U) + "," + un(P_VEL_R((*p)) * dt / dr * U) + "," + un(P_VEL_Z((*p)) * dt / dz * U) + "," + std::to_string(i) + "," + std::to_string(j) + "]"; } });
    }
    O o; o.t("e", whole ? "step" : "reflect").raw("in", c.get("in").serialize()).raw("out", jarr(out, [](const std::string &s) { return s; })).emit();
  }
}
