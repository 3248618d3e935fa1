// Initial loading.  {cfg,nr,nz,rd,zd,g,any,tol,macro,want:[..],eigen}
#include "drv.hpp"
#include <algorithm>
using namespace drv;
int main(int argc, char **argv) {
  std::ifstream in(argv[1]); V c;
  while (next(in, c)) {
    Cfg *cfg = new Cfg(str(c, "cfg")); for (auto &s : cfg->particle_species) s.right_density = s.left_density * num(c, "g");
    SMB *smb = new SMB(cfg, cfg->geometry, cfg->time, 0, 1); smb->distribute(); double dr = cfg->geometry->cell_size[0], dz = cfg->geometry->cell_size[1];
    O w; w.t("e", "world"); for (const char *k : {"nr", "nz", "rd", "zd", "g", "tol"}) w.i(k, num(c, k)); w.i("macro", cfg->particle_species[0].macro_amount).b("any", has(c, "any")).b("eigen", has(c, "eigen") && c.get("eigen").get<bool>()).emit();
    auto L = [](double x) { return std::to_string(std::isfinite(x) && std::fabs(x) < 2e9 ? std::lround(x) : 1999999999); };
    for (size_t s = 0; s < cfg->particle_species.size(); ++s) { auto &ps = cfg->particle_species[s]; double n = 0, mean[3] = {0, 0, 0}, sq[3] = {0, 0, 0}, cr[3] = {0, 0, 0}, hm[4][3] = {{0}}, he[4] = {0}, hn[4] = {0}, en = 0; bool vok = true;
      each_domain(smb, [&](unsigned i, unsigned j, Domain *d) { auto &g = d->geometry; auto sp = d->species_p[s]; double rmin = 1e9, rmax = -1e9, zmin = 1e9, zmax = -1e9, sum = 0, sr = 0, rq[4] = {0}, zq[4] = {0}, jq[16] = {0}; bool ok = sp->id == ps.id;
        double r0 = g.cell_dims[0] + .5, r1 = g.cell_dims[2] + ((int)g.cell_dims[2] == (int)num(c, "nr") ? -.5 : .5), z0 = g.cell_dims[1] + .5, z1 = g.cell_dims[3] + ((int)g.cell_dims[3] == (int)num(c, "nz") ? -.5 : .5);
        double wmin = 1e300, wmax = 0;
        for (auto p : sp->particles) { double r = P_POS_R((*p)) / dr, z = P_POS_Z((*p)) / dz, q = P_WEIGHT((*p)); ok &= std::isfinite(r) && std::isfinite(z) && std::isfinite(q) && q > 0 && r > 0 && P_CELL_R((*p)) == (int)std::floor(r) && P_CELL_Z((*p)) == (int)std::floor(z) && (int)P_SPECIE_ID((*p)) == (int)ps.id && P_POS_PHI((*p)) == 0; if (!ok) break;
          rmin = std::min(rmin, r); rmax = std::max(rmax, r); zmin = std::min(zmin, z); zmax = std::max(zmax, z); sum += q; sr += r; wmin = std::min(wmin, q / r); wmax = std::max(wmax, q / r);
          int a = std::max(0, std::min(3, (int)((r - r0) / (r1 - r0) * 4))), b = std::max(0, std::min(3, (int)((z - z0) / (z1 - z0) * 4))); rq[a] += q; zq[b] += q; jq[a * 4 + b] += q;
          double v[3] = {P_VEL_R((*p)), P_VEL_PHI((*p)), P_VEL_Z((*p))}, v2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2], b2 = v2 / constant::LIGHT_VEL / constant::LIGHT_VEL; vok &= b2 < 1 && v2 > 0; if (!vok) continue;
          double gm = 1 / std::sqrt(1 - b2); n += 1; for (int k = 0; k < 3; ++k) { mean[k] += v[k] / std::sqrt(v2); sq[k] += v[k] * v[k] / v2; } int hf[2] = {r > num(c, "nr") * .7, 2 + (z > num(c, "nz") * .5)}; for (int k = 0; k < 3; ++k) { cr[k] += v[k] * v[(k + 1) % 3] / v2; for (int h : hf) hm[h][k] += v[k] / std::sqrt(v2); } double e1 = gm * gm / (gm + 1) * v2 * sp->mass / constant::EL_CHARGE / ps.temperature; for (int h : hf) { hn[h] += 1; he[h] += e1; } en += gm * gm / (gm + 1) * v2 * sp->mass / constant::EL_CHARGE / ps.temperature; }
        std::vector<double> lr, lz; auto lat = [](std::vector<double> v, long &cnt, double &gmin, double &gmax) { std::sort(v.begin(), v.end()); cnt = !v.empty(); gmin = 1e9; gmax = 0; double q = v.empty() ? 0 : v[0]; for (double x : v) if (x - q > 1e-6) { ++cnt; gmin = std::min(gmin, x - q); gmax = std::max(gmax, x - q); q = x; } if (cnt < 2) gmin = gmax = 0; };
        long nlr, nlz; double g1, g2, g3, g4; for (auto p : sp->particles) { lr.push_back(P_POS_R((*p)) / dr); lz.push_back(P_POS_Z((*p)) / dz); } lat(lr, nlr, g1, g2); lat(lz, nlz, g3, g4);
        double k = sum / sr; O o; o.i("nlr", nlr).i("nlz", nlz).raw("g", "[" + L(g1 * 1000) + "," + L(g2 * 1000) + "," + L(g3 * 1000) + "," + L(g4 * 1000) + "]"); o.t("e", "load").t("name", ps.name).i("i", i).i("j", j).b("ok", ok).i("n", sp->particles.size());
        o.raw("rmin", L(rmin * 1000)).raw("rmax", L(rmax * 1000)).raw("zmin", L(zmin * 1000)).raw("zmax", L(zmax * 1000)).raw("wmin", L(wmin / k * 1e6)).raw("wmax", L(wmax / k * 1e6)).raw("sum", L(sum / (ps.left_density * M_PI * dr * dr * dz) * 1000));
        auto qs = [&](double *q, int m = 4) { std::string t = "["; for (int a = 0; a < m; ++a) t += (a ? "," : "") + L(q[a] / sum * 1000); return t + "]"; }; o.raw("rq", qs(rq)).raw("zq", qs(zq)).raw("jq", qs(jq, 16)).emit(); });
      O o; o.t("e", "vel").t("name", ps.name).b("ok", vok).raw("want", L(at(c.get("want"), s) * 1000)).raw("en", L(en / n * 1000)).i("tol", std::lround(6000 * .58 / std::sqrt(n)) + 2); std::string cs = "[", hs = "[";
      for (int k = 0; k < 3; ++k) cs += (k ? "," : "") + L(cr[k] / n * 1000);
      for (int h = 0; h < 4; ++h) { hs += (h ? ",{\"n\":" : "{\"n\":") + L(hn[h]) + ",\"en\":" + L(he[h] / hn[h] * 1000) + ",\"tol\":" + L(6000 * .58 / std::sqrt(hn[h]) + 2) + ",\"m\":["; for (int k = 0; k < 3; ++k) hs += (k ? "," : "") + L(hm[h][k] / hn[h] * 1000); hs += "]}"; }
      o.raw("cr", cs + "]").raw("half", hs + "]");
      auto t3 = [&](double *q) { return "[" + L(q[0] / n * 1000) + "," + L(q[1] / n * 1000) + "," + L(q[2] / n * 1000) + "]"; }; o.raw("mean", t3(mean)).raw("sq", t3(sq)).emit(); } }
}
