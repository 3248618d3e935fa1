// Injection of beams, step by step.
// {cfg,beams:[{name,s,ln,gap,n,...}],steps,tq,dlq}
#include "drv.hpp"
using namespace drv;
int main(int argc, char **argv) {
  std::ifstream in(argv[1]); V c;
  while (next(in, c)) {
    size_t nb = arr(c, "beams").size();
    for (size_t b = 0; b < nb; ++b) { const V &bm = arr(c, "beams")[b];
      // all beams are in the world; the recording looks at one of them
      Cfg *cfg = new Cfg(str(c, "cfg")); SMB *smb = new SMB(cfg, cfg->geometry, cfg->time, 0, 1); clear(smb);
      double dr = cfg->geometry->cell_size[0], dz = cfg->geometry->cell_size[1]; double macro = cfg->particle_beams[b].macro_amount; int id = cfg->particle_beams[b].id;
      double R = num(bm, "radius") /* cells */, L = num(bm, "ln") / num(c, "q"); int n = num(bm, "n"); double v = num(bm, "velocity"), dl = v * cfg->time->step / dz;
      std::vector<double> off, rows; for (unsigned i = 0; i < smb->r_domains; ++i) { auto &g = smb->domains(i, 0)->geometry; double lo = g.cell_dims[0], hi = std::min<double>(g.cell_dims[2], R); off.push_back(lo); rows.push_back(std::max(0., hi - lo)); }
      auto li = [](double x) { return std::to_string((long)std::floor(x + .5)); };
      O w; w.t("e", "world").t("name", cfg->particle_beams[b].name).i("macro", macro).i("dl", std::lround(dl * 1000)).raw("rows", jarr(rows, [&](double x) { return li(x * 1000); })).raw("off", jarr(off, li)).raw("per", jarr(rows, [&](double x) { return li(1000 * macro * x / (n * R * L)); }));
      for (const char *k : {"s", "ln", "gap", "n"}) w.i(k, num(bm, k)); w.i("from", num(c, "k0") * num(c, "q")).emit();
      // weight of a particle at radius r: density times its share of the volume of the beam
      double unit = 2 * M_PI * num(bm, "density") * (R * dr) * (num(bm, "length") * n) / macro; std::vector<long> near(rows.size(), 0);
      for (int t = 0; t < num(c, "steps"); ++t) { smb->inject_beam(); long stray = 0; std::string rs = "[";
        each_domain(smb, [&](unsigned i, unsigned j, Domain *d) { for (auto sp : d->species_p) if (j || sp->id < 0) stray += sp->particles.size(); });
        for (unsigned i = 0; i < smb->r_domains; ++i) { long cnt = 0, other = 0, low = 0; double rmin = 1e9, rmax = -1e9, zmin = 1e9, zmax = -1e9, wmin = 1e9, wmax = -1e9; bool cells = true;
          for (auto sp : smb->domains(i, 0)->species_p) if ((int)sp->id == id) for (auto p : sp->particles) { ++cnt; double r = P_POS_R((*p)) / dr, z = P_POS_Z((*p)) / dz, x = P_WEIGHT((*p)) / (unit * P_POS_R((*p)));
              rmin = std::min(rmin, r); rmax = std::max(rmax, r); zmin = std::min(zmin, z); zmax = std::max(zmax, z); wmin = std::min(wmin, x); wmax = std::max(wmax, x);
              if (!(r > -100 && r < 1e5 && z > -100 && z < 1e5 && x > 0 && x < 1000)) ++other;
              other += P_VEL_R((*p)) != 0 || P_VEL_PHI((*p)) != 0 || P_VEL_Z((*p)) != v || (int)P_SPECIE_ID((*p)) != id || P_POS_PHI((*p)) != 0;
              cells &= P_CELL_R((*p)) == (int)std::floor(r) && P_CELL_Z((*p)) == (int)std::floor(z);
              low += r < off[i] + .5 + rows[i] / 2; near[i] += z < .5 + dl / 2; }
          if (!cnt) rmin = rmax = zmin = zmax = wmin = wmax = 0;
          auto cl = [](double x) { return std::lround(std::max(-1e9, std::min(1e9, std::isfinite(x) ? x : 1e9))); };
          O o; o.i("n", cnt).i("other", other).i("low", low).i("rmin", cl(rmin * 1000)).i("rmax", cl(rmax * 1000)).i("zmin", cl(zmin * 1000)).i("zmax", cl(zmax * 1000)).i("wmin", cl(wmin * 1e6)).i("wmax", cl(wmax * 1e6)).b("cells", cells);
          rs += (i ? "," : "") + o.s + "}"; }
        O s; s.t("e", "step").i("t", (t + (int)num(c, "k0")) * (int)num(c, "q")).i("stray", stray).raw("rows", rs + "]").emit();
        clear(smb); cfg->time->current += cfg->time->step; }
      O e; e.t("e", "end").raw("near", jarr(near, [](long x) { return std::to_string(x); })).emit(); }
  }
}
