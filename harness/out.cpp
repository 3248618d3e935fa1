// Output: grids filled with values that name (step, component, cell); after every step how many
// frames each probe has; at the end everything that was written.
#include "drv.hpp"
#include "outController.hpp"
#include <highfive/H5File.hpp>
using namespace drv;
int main(int argc, char **argv) {
  std::ifstream in(argv[1]); V c; int k = 0;
  while (next(in, c)) {
    Cfg *cfg = new Cfg(str(c, "cfg")); SMB *smb = new SMB(cfg, cfg->geometry, cfg->time, 0, 1);
    std::string fn = "mem" + std::to_string(k++);
    auto *file = new HighFive::File(fn, HighFive::File::Create | HighFive::File::Excl);
    auto *prbs = new std::vector<probe>(cfg->probes);
    OutController oc(file, cfg->geometry, cfg->time, *prbs, smb, cfg->cfg2value(), false);
    int nr = num(c, "nr"), nz = num(c, "nz"), steps = num(c, "steps"), first = num(c, "first", 0);
    auto &g = c.get<picojson::object>();
    O w; w.t("e", "world").i("nr", nr).i("nz", nz).i("rd", num(c, "rd")).i("zd", num(c, "zd")).raw("probes", g["probes"].serialize()).emit();
    auto &ds = vp::h5::stores()[fn]->dsets;
    auto fill = [&](Grid3D<double> &gr, int comp0, Domain *d, int n, bool junk) {
      int r0 = d->geometry.cell_dims[0], z0 = d->geometry.cell_dims[1];
      for (int q = 0; q < 3; ++q) for (int a = -2; a < (int)gr[q].x_size + 2; ++a) for (int b = -2; b < (int)gr[q].y_size + 2; ++b) {
        int R = r0 + a, Z = z0 + b; double v = (R < 0 || Z < 0 || R >= nr || Z >= nz) ? -5 : junk ? -6 : ((n * 9.0 + comp0 + q) * nr + R) * nz + Z;
        gr[q].set(a, b, v); } };
    auto &pl = g["probes"].get<picojson::array>();
    if (has(c, "at")) {       // a sparse history: only these steps are looked at, the clock jumps between them
      int ord = 0;
      for (auto &sv : arr(c, "at")) { long n = (long)sv.get<double>(); ++ord; cfg->time->current = n * cfg->time->step;
        each_domain(smb, [&](unsigned, unsigned, Domain *d) { fill(d->maxwell_solver->field_e, 0, d, ord, false); fill(d->maxwell_solver->field_h_at_et, 3, d, ord, false); fill(d->current->current, 6, d, ord, false); });
        oc();
        std::string f = "["; for (size_t i = 0; i < pl.size(); ++i) { std::string p = pl[i].get("path").get<std::string>(); f += (i ? "," : "") + std::to_string(ds.count(p) ? (long)ds[p].dims[0] : -1); }
        O o; o.t("e", "jump").i("n", n).i("ord", ord).raw("frames", f + "]").emit(); }
      for (auto &pv : pl) { auto &d = ds[pv.get("path").get<std::string>()]; size_t sz = d.dims[0] ? d.data.size() / d.dims[0] : 0; std::string t = "["; bool first = true;
        for (size_t f = 0; f < d.dims[0]; ++f) { bool hit = false; for (size_t q = 0; q < sz; ++q) hit |= d.writes[f * sz + q] > 0; if (!hit) continue;
          std::string v; for (size_t q = 0; q < sz; ++q) v += (q ? "," : "") + std::to_string((long)d.data[f * sz + q]);
          t += std::string(first ? "" : ",") + "{\"f\":" + std::to_string(f) + ",\"v\":[" + v + "]}"; first = false; }
        O o; o.t("e", "sparse").raw("got", t + "]").emit(); }
      O o; o.t("e", "done").i("faults", vp::h5::faults().size()).emit(); delete file; continue;
    }
    for (int n = 0; n < steps; ++n) {
      each_domain(smb, [&](unsigned, unsigned, Domain *d) { fill(d->maxwell_solver->field_e, 0, d, n, false); fill(d->maxwell_solver->field_h, 3, d, n, true);
        fill(d->maxwell_solver->field_h_at_et, 3, d, n, false); fill(d->current->current, 6, d, n, false); });
      oc();
      std::string f = "["; for (size_t i = 0; i < g["probes"].get<picojson::array>().size(); ++i) { std::string p = g["probes"].get<picojson::array>()[i].get("path").get<std::string>();
        f += (i ? "," : "") + std::to_string(ds.count(p) ? (long)ds[p].dims[0] : -1); }
      O o; o.t("e", "step").i("n", n).raw("frames", f + "]").emit();
      cfg->time->current += cfg->time->step;
    }
    for (auto &pv : g["probes"].get<picojson::array>()) { std::string p = pv.get("path").get<std::string>();
      if (!ds.count(p)) { O o; o.t("e", "data").raw("dims", "[]").raw("v", "[]").raw("hit", "[]").emit(); continue; }
      auto &d = ds[p]; O o; o.t("e", "data").raw("dims", jarr(d.dims, [](size_t x) { return std::to_string(x); }))
        .raw("v", jarr(d.data, [](double x) { return std::to_string((long)x); })).raw("hit", jarr(d.writes, [](int x) { return std::to_string(x > 0); })).emit(); }
    std::string set = "[" ; bool ff = true; for (auto &x : ds) { set += (ff ? "" : ",") + picojson::value(x.first).serialize(); ff = false; }
    O o; o.t("e", "end").raw("dsets", set + "]").i("faults", vp::h5::faults().size()).emit();
    delete file;
  }
}
