// One field step from a given state.  {cfg,nr,nz, lay, steps:[{e,h,j}], free:n}
#include "drv.hpp"
#include "domain.hpp"
using namespace drv;
typedef std::vector<std::vector<double>> M; typedef std::vector<M> F;
static int NR, NZ;
static F rd(const V &v) { F f(3, M(NR, std::vector<double>(NZ))); for (int c = 0; c < 3; ++c) for (int i = 0; i < NR; ++i) for (int k = 0; k < NZ; ++k) f[c][i][k] = v.get<picojson::array>()[c].get<picojson::array>()[i].get<picojson::array>()[k].get<double>(); return f; }
typedef std::function<Grid3D<double> &(Domain *)> G;
static void put(SMB *s, G g, const F &f, double u) { each_domain(s, [&](unsigned, unsigned, Domain *d) { auto &x = d->geometry; int i0 = x.cell_dims[0], k0 = x.cell_dims[1];
  for (int c = 0; c < 3; ++c) for (int i = -2; i < (int)x.cell_amount[0] + 2; ++i) for (int k = -2; k < (int)x.cell_amount[1] + 2; ++k) { int a = i + i0, b = k + k0; g(d)[c].set(i, k, a >= 0 && b >= 0 && a < NR && b < NZ ? f[c][a][b] * u : 0); } }); }
static F get(SMB *s, G g) { F f(3, M(NR, std::vector<double>(NZ))); each_domain(s, [&](unsigned, unsigned, Domain *d) { auto &x = d->geometry; for (int c = 0; c < 3; ++c) for (int i = 0; i < (int)x.cell_amount[0]; ++i) for (int k = 0; k < (int)x.cell_amount[1]; ++k) f[c][i + x.cell_dims[0]][k + x.cell_dims[1]] = g(d)(c, i, k); }); return f; }
static std::string mat(const std::function<double(int, int)> &f) { std::string s = "["; for (int i = 0; i < NR; ++i) { s += i ? ",[" : "["; for (int k = 0; k < NZ; ++k) { double v = f(i, k); s += (k ? "," : "") + std::to_string(std::isfinite(v) && std::fabs(v) < 1e8 ? std::lround(v) : 99999999); } s += "]"; } return s + "]"; }
static std::string fld(const std::function<double(int, int, int)> &f) { std::string s = "["; for (int c = 0; c < 3; ++c) s += (c ? "," : "") + mat([&](int i, int k) { return f(c, i, k); }); return s + "]"; }
int main(int argc, char **argv) {
  std::ifstream in(argv[1]); V c; using namespace constant;
  while (next(in, c)) {
    Cfg *cfg = new Cfg(str(c, "cfg")); SMB *smb = new SMB(cfg, cfg->geometry, cfg->time, 0, 1); clear(smb); NR = num(c, "nr"); NZ = num(c, "nz");
    double zf = num(c, "zf", 1), dr = cfg->geometry->cell_size[0], dt = cfg->time->step, uE = dt / EPSILON0 / dr, kap = dt * dt / (EPSILON0 * MAGN_CONST * dr * dr);
    G e = [](Domain *d) -> Grid3D<double> & { return d->maxwell_solver->field_e; }, h = [](Domain *d) -> Grid3D<double> & { return d->maxwell_solver->field_h; }, ht = [](Domain *d) -> Grid3D<double> & { return d->maxwell_solver->field_h_at_et; }, j = [](Domain *d) -> Grid3D<double> & { return d->current->current; };
    M sg(NR, std::vector<double>(NZ)); each_domain(smb, [&](unsigned, unsigned, Domain *d) { auto &x = d->geometry; for (int i = 0; i < (int)x.cell_amount[0]; ++i) for (int k = 0; k < (int)x.cell_amount[1]; ++k) sg[i + x.cell_dims[0]][k + x.cell_dims[1]] = d->maxwell_solver->sigma(i, k); });
    O().t("e", "world").i("nr", NR).i("nz", NZ).i("zf", zf).i("rd", num(c, "rd")).i("zd", num(c, "zd")).emit();
    if (has(c, "lay")) { double s1 = num(c, "s1"), s2 = num(c, "s2"); O().t("e", "layers").raw("lay", c.get("lay").serialize()).i("one", std::lround(s1 / s2 * 1e4)).raw("v", mat([&](int i, int k) { return sg[i][k] / s2 * 1e4; })).emit(); }
    if (has(c, "steps")) for (auto &st : arr(c, "steps")) { F e0 = rd(st.get("e")), h0 = rd(st.get("h")), j0 = rd(st.get("j")); F z(3, M(NR, std::vector<double>(NZ)));
      put(smb, e, e0, uE); put(smb, ht, h0, 1); put(smb, h, z, 0); put(smb, j, j0, 1 / dr); smb->solve_maxvell(); F e1 = get(smb, e), h1 = get(smb, ht), hc = get(smb, h);
      O().t("e", "step").raw("e0", st.get("e").serialize()).raw("h0", st.get("h").serialize()).raw("j", st.get("j").serialize()).raw("e1", fld([&](int c, int i, int k) { return e1[c][i][k] / uE * 1000; }))
        .raw("hd", fld([&](int c, int i, int k) { return (h1[c][i][k] - h0[c][i][k]) / kap * 1000; })).raw("hm", fld([&](int c, int i, int k) { return (2 * hc[c][i][k] - h0[c][i][k] - h1[c][i][k]) / kap * 1000; }))
        .raw("s", mat([&](int i, int k) { double x = sg[i][k] * dt / 2 / EPSILON0 * 1000; return x > 0 && x < 1 ? 1 : x; })).emit(); }
    if (has(c, "free")) { F e0 = rd(c.get("start")), z(3, M(NR, std::vector<double>(NZ))); put(smb, e, e0, uE); put(smb, ht, z, 0); put(smb, h, z, 0); put(smb, j, z, 0); std::string en; double w0 = 0, div = 0, gs = 0; F g0;
      auto gauss = [&](const F &E, int i, int k) { return i ? ((2 * i + 1) * E[0][i][k] - (2 * i - 1) * E[0][i - 1][k]) / (2 * i) + zf * (E[2][i][k] - E[2][i][k - 1]) : 4 * E[0][0][k] + zf * (E[2][0][k] - E[2][0][k - 1]); };
      int N = num(c, "free"); double m0 = 0;
      for (int n = 0; n < N; ++n) { F Hb = get(smb, ht); smb->solve_maxvell(); F E = get(smb, e), Ht = get(smb, ht); double w = 0;
        for (int i = 0; i < NR; ++i) for (int k = 0; k < NZ; ++k) { double v0 = i ? 2 * i : .25, v1 = 2 * i + 1; 
          w += EPSILON0 * (E[0][i][k] * E[0][i][k] * v1 + E[1][i][k] * E[1][i][k] * v0 + E[2][i][k] * E[2][i][k] * v0) + MAGN_CONST * (Hb[0][i][k] * Ht[0][i][k] * v0 + Hb[1][i][k] * Ht[1][i][k] * v1 + Hb[2][i][k] * Ht[2][i][k] * v1);
          m0 = std::max(m0, std::fabs(Ht[0][i][k]) + std::fabs(Ht[2][i][k]));
          if (i < NR - 1 && k < NZ - 1) div = std::max(div, std::fabs((2 * (i + 1) * Ht[0][i + 1][k] - 2 * i * Ht[0][i][k]) / (2 * i + 1) + zf * (Ht[2][i][k + 1] - Ht[2][i][k])));
          if (i < NR - 1 && k > 0 && k < NZ - 1) gs = std::max(gs, std::fabs(gauss(E, i, k) - gauss(e0, i, k) * uE)); }
        if (n == 0) w0 = w; en += (n ? "," : "") + std::to_string(std::isfinite(w) ? std::lround(std::min(w / w0 * 1e4, 1e8)) : 99999999); }
      bool lossy = has(c, "lay"); auto R = [](double x) { return std::isfinite(x) ? std::lround(std::min(x, 1e8)) : 99999999; };
      O().t("e", "free").b("lossy", lossy).b("must", lossy && (at(c.get("lay"), 0) >= 1 || at(c.get("lay"), 1) >= 3 || at(c.get("lay"), 2) >= 3)).i("div", R(div / (m0 + 1e-30) * 1e6)).i("gauss", lossy ? 0 : R(gs / uE * 1e6)).raw("en", "[" + en + "]").emit(); }
  }
}
