// The same area cut in different ways: same particles, same fields, same steps; what differs?
#include "drv.hpp"
#include <algorithm>
using namespace drv;
struct Snap { std::vector<std::vector<double>> g; std::map<long, std::vector<double>> p; };
static const char *QN[] = {"Er", "Ephi", "Ez", "Hr", "Hphi", "Hz", "Htr", "Htphi", "Htz", "Jr", "Jphi", "Jz"};
int main(int argc, char **argv) {
  std::ifstream in(argv[1]); V c;
  while (next(in, c)) {
    auto &cfgs = arr(c, "cfgs"); int nr = num(c, "nr"), nz = num(c, "nz"), steps = num(c, "steps"), np = num(c, "np"); unsigned seed = num(c, "seed");
    double fe = num(c, "field", 0), vmax = num(c, "vmax", 0.3); bool verbose = has(c, "verbose");
    std::vector<Snap> ref;
    for (size_t k = 0; k < cfgs.size(); ++k) {
      World w = make(cfgs[k].get<std::string>()); clear(w.smb);
      vp::omp::num_threads = k % 3 + 1; vp::omp::order_seed = k;
      double dr = w.cfg->geometry->cell_size[0], dz = w.cfg->geometry->cell_size[1], dt = w.cfg->time->step;
      uint64_t s = seed; auto rnd = [&]() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (double)(s >> 11) / 9007199254740992.0; };
      int ns = w.smb->domains(0, 0)->species_p.size();
      for (int i = 0; i < np; ++i) { // positions anywhere in the area; also near every line of a grid of borders
        double r = 0.5 + rnd() * (nr - 1), z = 0.5 + rnd() * (nz - 1); if (i % 2) { r = std::floor(r) + (rnd() < .5 ? 0.03 : 0.97) * (0.5 + rnd() / 2); if (r < .5) r = .6; z = std::floor(z) + (rnd() < .5 ? 0.02 : 0.98); if (z < .5) z = .6; if (r > nr - .5) r = nr - .6; if (z > nz - .5) z = nz - .6; }
        double vr = (rnd() - .5) * 2 * vmax, vp_ = (rnd() - .5) * vmax, vz = (rnd() - .5) * 2 * vmax, wt = 1e6 * (1 + rnd()); int sp = (int)(rnd() * ns) % ns;
        each_domain(w.smb, [&](unsigned, unsigned, Domain *d) { auto &g = d->geometry;
          if (r >= g.cell_dims[0] && r < g.cell_dims[2] && z >= g.cell_dims[1] && z < g.cell_dims[3]) { Particle *p = new Particle(); auto q = d->species_p[sp]; P_SPECIE_ID((*p)) = q->id;
            P_MARK((*p)) = i + 1; P_WEIGHT((*p)) = wt; P_POS_R((*p)) = P_POS_OLD_R((*p)) = r * dr; P_POS_Z((*p)) = P_POS_OLD_Z((*p)) = z * dz; P_POS_PHI((*p)) = 0; P_SIN((*p)) = 0;
            P_VEL_R((*p)) = vr * dr / dt; P_VEL_PHI((*p)) = vp_ * dr / dt; P_VEL_Z((*p)) = vz * dr / dt; q->particles.push_back(p); } });
      }
      auto grids = [&](Domain *d) { std::vector<Grid<double> *> v; for (auto g : {&d->maxwell_solver->field_e, &d->maxwell_solver->field_h, &d->maxwell_solver->field_h_at_et, &d->current->current}) for (int q = 0; q < 3; ++q) v.push_back(&(*g)[q]); return v; };
      // initial fields named by the global cell; ghosts hold what their owner has
      std::vector<std::vector<double>> f0(9, std::vector<double>(nr * nz)); for (auto &v : f0) for (auto &x : v) x = (rnd() - .5);
      each_domain(w.smb, [&](unsigned, unsigned, Domain *d) { auto gs = grids(d); d->bind_cell_numbers();
        for (int q = 0; q < 9; ++q) for (int a = -2; a < (int)gs[q]->x_size + 2; ++a) for (int b = -2; b < (int)gs[q]->y_size + 2; ++b) { long R = a + (long)d->geometry.cell_dims[0], Z = b + (long)d->geometry.cell_dims[1];
          double v = R < 0 || Z < 0 || R >= nr || Z >= nz ? 0 : f0[q < 6 ? q : q - 3][R * nz + Z] * (q < 3 ? fe : fe / 377); gs[q]->set(a, b, v); }
        d->current->current = 0; d->current->current.overlay_set(0); });
      for (int t = 0; t < steps; ++t) {
        w.smb->inject_beam(); w.smb->solve_maxvell(); w.smb->advance_particles(); w.smb->solve_current(); w.cfg->time->current += dt;
        Snap sn; sn.g.assign(12, std::vector<double>(nr * nz, 1e300)); int dup = 0;
        each_domain(w.smb, [&](unsigned i, unsigned j, Domain *d) { auto gs = grids(d);
          for (int q = 0; q < 12; ++q) for (unsigned a = 0; a < gs[q]->x_size; ++a) for (unsigned b = 0; b < gs[q]->y_size; ++b) sn.g[q][(a + d->geometry.cell_dims[0]) * nz + b + d->geometry.cell_dims[1]] = (*gs[q])(a, b);
          for (size_t sp = 0; sp < d->species_p.size(); ++sp) for (auto p : d->species_p[sp]->particles) { dup += sn.p.count(P_MARK((*p))); sn.p[P_MARK((*p))] = {(double)sp, P_POS_R((*p)) / dr, P_POS_Z((*p)) / dz, P_VEL_R((*p)) * dt / dr, P_VEL_PHI((*p)) * dt / dr, P_VEL_Z((*p)) * dt / dz, P_WEIGHT((*p))}; } });
        if (k == 0) { ref.push_back(sn); continue; }
        // deviations relative to the largest value of the quantity
        std::string dev = "[", where = "["; bool fin = true; auto &R = ref[t];
        for (int q = 0; q < 12; ++q) { double mx = 0, e = 0; int at = -1; for (auto x : R.g[q]) { mx = std::max(mx, std::fabs(x)); } if (q % 3 == 1) for (int q2 : {q - 1, q + 1}) for (auto x : R.g[q2]) mx = std::max(mx, std::fabs(x));
          for (int i = 0; i < nr * nz; ++i) { fin &= std::isfinite(R.g[q][i]); double x = std::fabs(sn.g[q][i] - R.g[q][i]); if (!(x <= e)) e = x, at = i; if (verbose && mx > 0 && !(x / mx < 1e-9)) std::cerr << QN[q] << " step " << t << " cell " << i / nz << "," << i % nz << " " << sn.g[q][i] << " vs " << R.g[q][i] << " max " << mx << "\n"; }
          double rel = mx > 0 ? e / mx : e; dev += (q ? "," : "") + std::to_string(rel < 1e-9 ? 0 : rel < 1e-6 ? 1 : 2); where += (q ? "," : "") + jpair(at < 0 ? -1 : at / nz, at < 0 ? -1 : at % nz); }
        int bad = 0; for (auto &x : R.p) { if (!sn.p.count(x.first)) { ++bad; continue; } auto &y = sn.p[x.first]; for (int i = 0; i < 7; ++i) if (!(std::fabs(y[i] - x.second[i]) <= 1e-9 * (std::fabs(x.second[i]) + 1))) { if (verbose) std::cerr << "particle " << x.first << " [" << i << "] " << y[i] << " vs " << x.second[i] << " at " << x.second[1] << "," << x.second[2] << "\n"; ++bad; break; } }
        O o; o.t("e", "cmp").i("step", t).raw("dom", jpair(w.smb->r_domains, w.smb->z_domains)).raw("dev", dev + "]").raw("where", where + "]").i("np", R.p.size()).i("got", sn.p.size()).i("bad", bad).i("dup", dup).b("finite", fin).emit();
      }
    }
  }
}
