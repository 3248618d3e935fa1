// The whole program (its main is renamed), watched once a step from inside of the output phase.
//   step KMIN program-args...    KMIN: first column of nodes where the charge is followed
// The shared memory block is caught when main constructs it (linked with --wrap of its constructor).
#include <csignal>
#include "drv.hpp"
#include "domain.hpp"
#include <highfive/H5File.hpp>
using namespace drv;
int picopic_main(int, char **);
static SMB *smb = nullptr; static Cfg *cfg = nullptr; static TimeSim *clk = nullptr;
extern "C" void real_ctor(SMB *, Cfg *, Geometry *, TimeSim *, int, int) asm("__real__ZN3SMBC1EP3CfgP8GeometryP7TimeSimii");
extern "C" void wrap_ctor(SMB *, Cfg *, Geometry *, TimeSim *, int, int) asm("__wrap__ZN3SMBC1EP3CfgP8GeometryP7TimeSimii");
extern "C" void wrap_ctor(SMB *s, Cfg *c, Geometry *g, TimeSim *t, int a, int b) { real_ctor(s, c, g, t, a, b); smb = s; cfg = c; clk = t; }
typedef std::vector<std::vector<double>> M; typedef std::vector<M> F;
typedef std::function<Grid3D<double> &(Domain *)> G;
static int NR, NZ, kmin; static long n = 0; static FILE *out;
static F get(G g) { F f(3, M(NR, std::vector<double>(NZ))); each_domain(smb, [&](unsigned, unsigned, Domain *d) { auto &x = d->geometry; for (int c = 0; c < 3; ++c) for (int i = 0; i < (int)x.cell_amount[0]; ++i) for (int k = 0; k < (int)x.cell_amount[1]; ++k) f[c][i + x.cell_dims[0]][k + x.cell_dims[1]] = g(d)(c, i, k); }); return f; }
static std::string mat(const std::function<double(int, int)> &f) { std::string s = "["; for (int i = 0; i < NR; ++i) { s += i ? ",[" : "["; for (int k = 0; k < NZ; ++k) { double v = f(i, k); s += (k ? "," : "") + std::to_string(std::isfinite(v) && std::fabs(v) < 1e8 ? std::lround(v) : 99999999); } s += "]"; } return s + "]"; }
static std::string fld(const std::function<double(int, int, int)> &f) { std::string s = "["; for (int c = 0; c < 3; ++c) s += (c ? "," : "") + mat([&](int i, int k) { return f(c, i, k); }); return s + "]"; }
static void put(const O &o) { fprintf(out, "%s}\n", o.s.c_str()); fflush(out); }
static F E0, H0, J0; static M Q0; static double QU = 0, W0 = 0; static long t0 = 0;
static double big(const F &f, double u) { double m = 0; for (auto &a : f) for (auto &b : a) for (double v : b) m = std::max(m, std::fabs(v * u)); return m; }
static void look() {
  using namespace constant;
  NR = cfg->geometry->cell_amount[0]; NZ = cfg->geometry->cell_amount[1];
  double dr = cfg->geometry->cell_size[0], dz = cfg->geometry->cell_size[1], dt = clk->step, zf = std::round(dr / dz);
  F e = get([](Domain *d) -> Grid3D<double> & { return d->maxwell_solver->field_e; }), h = get([](Domain *d) -> Grid3D<double> & { return d->maxwell_solver->field_h_at_et; }), j = get([](Domain *d) -> Grid3D<double> & { return d->current->current; });
  // charge of the particles on the nodes, and the particles themselves
  M q(NR, std::vector<double>(NZ)); long cnt = 0, lost = 0, nan = 0; double W = 0; std::set<const void *> seen; long twice = 0; double qu = 0;
  each_domain(smb, [&](unsigned, unsigned, Domain *d) { auto &g = d->geometry;
    for (auto sp : d->species_p) for (auto &pp : sp->particles) { Particle &p = *pp; double R = P_POS_R(p) / dr, Z = P_POS_Z(p) / dz, w = P_WEIGHT(p), c = sp->charge * w; ++cnt; W += w;
      if (!seen.insert(&p).second) ++twice;
      if (!(std::isfinite(R) && std::isfinite(Z) && std::isfinite(w))) { ++nan; continue; }
      if (std::floor(R) < g.cell_dims[0] || std::floor(R) >= g.cell_dims[2] || std::floor(Z) < g.cell_dims[1] || std::floor(Z) >= g.cell_dims[3]) ++lost;
      qu = std::max(qu, std::fabs(c));
      int i = std::floor(R), k = std::floor(Z); double lo = ((i + .5) * (i + .5) - (R - .5) * (R - .5)) / (2 * R), z = Z - k;
      if (i >= 0 && k >= 0 && i < NR && k < NZ) { q[i][k] += c * lo * (1 - z); if (k + 1 < NZ) q[i][k + 1] += c * lo * z; if (i + 1 < NR) { q[i + 1][k] += c * (1 - lo) * (1 - z); if (k + 1 < NZ) q[i + 1][k + 1] += c * (1 - lo) * z; } } } });
  if (n == 0) { QU = qu > 0 ? qu : 1; W0 = W > 0 ? W : 1; t0 = cnt; }
  else {
    double ue = 1, uh = dt / (EPSILON0 * dr), uj = dt / EPSILON0, u = std::max(std::max(big(E0, ue), big(e, ue)), std::max(big(H0, uh), big(J0, uj))) / 2e5; if (u == 0) u = 1;
    M sg(NR, std::vector<double>(NZ)); each_domain(smb, [&](unsigned, unsigned, Domain *d) { auto &x = d->geometry; for (int i = 0; i < (int)x.cell_amount[0]; ++i) for (int k = 0; k < (int)x.cell_amount[1]; ++k) sg[i + x.cell_dims[0]][k + x.cell_dims[1]] = d->maxwell_solver->sigma(i, k); });
    put(O().t("e", "step").i("n", n).raw("e0", fld([&](int c, int i, int k) { return E0[c][i][k] / u; })).raw("e1", fld([&](int c, int i, int k) { return e[c][i][k] / u; }))
      .raw("h0", fld([&](int c, int i, int k) { return H0[c][i][k] * uh / u; })).raw("hd", fld([&](int c, int i, int k) { return (h[c][i][k] - H0[c][i][k]) * MAGN_CONST * dr / dt / u; }))
      .raw("j", fld([&](int c, int i, int k) { return J0[c][i][k] * uj / u; })).raw("s", mat([&](int i, int k) { return sg[i][k] > 0; }))
      .raw("fr", mat([&](int i, int k) { return EPSILON0 * e[0][i][k] * 2 * M_PI * (i + .5) * dr * dz / QU * 1e5; }))
      .raw("fz", mat([&](int i, int k) { return EPSILON0 * e[2][i][k] * (i ? 2 * M_PI * i : M_PI / 4) * dr * dr / QU * 1e5; }))
      .raw("q", mat([&](int i, int k) { return Q0[i][k] / QU * 1e5; }))); }
  put(O().t("e", "plasma").i("n", n).i("cnt", cnt).i("lost", lost).i("twice", twice).i("nan", nan).i("w", std::lround(std::min(W / W0 * 1e8, 2e9))).i("kmin", kmin)
    .i("nr", NR).i("nz", NZ).i("zf", zf).b("silent", big(e, 1) == 0 && big(h, 1) == 0));
  E0 = e; H0 = h; J0 = j; Q0 = q; ++n;
}
int main(int argc, char **argv) {
  kmin = atoi(argv[1]);
  if (getenv("VP_THREADS")) vp::omp::num_threads = atoi(getenv("VP_THREADS"));
  vp::h5::event_hook = [](const std::string &b) { if (b.find("\"write\"") != std::string::npos && b.find("0_0\"") != std::string::npos && smb) look(); };
  argv[1] = argv[0];
  out = fdopen(dup(1), "w"); if (!freopen("/dev/null", "w", stdout)) return 98;
  int rc = picopic_main(argc - 1, argv + 1);
  put(O().t("e", "end").i("rc", rc).i("n", n));
  return rc;
}
