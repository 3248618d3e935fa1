// The same area split over processes in different ways: same particles, same fields, same steps; what differs, and what is said.
#include "drv.hpp"
#include <algorithm>
#include <mpi.h>
using namespace drv;
struct Snap { std::vector<std::vector<double>> g; std::map<long, std::vector<double>> p; int dup = 0; };
int main(int argc, char **argv) {
  std::ifstream in(argv[1]); V c; vp::fatal_mode = vp::FATAL_THROW;
  while (next(in, c)) {
    auto &cfgs = arr(c, "cfgs"); auto &procs = arr(c, "procs"); auto &keeps = arr(c, "keep"); int nr = num(c, "nr"), nz = num(c, "nz"), steps = num(c, "steps"), np = num(c, "np"); unsigned seed = num(c, "seed");
    double fe = num(c, "field", 0), vmax = num(c, "vmax", 0.15); bool verbose = has(c, "verbose");
    std::vector<Snap> ref(steps); std::map<size_t, std::map<std::vector<int>, std::vector<double>>> plasma;
    for (size_t k = 0; k < cfgs.size(); ++k) {
      int N = (int)procs[k].get<double>(), keep = (int)keeps[k].get<double>(); vp::omp::num_threads = k % 3 + 1; vp::omp::order_seed = k;
      std::vector<Snap> got(steps); for (auto &s : got) s.g.assign(12, std::vector<double>(nr * nz, 1e300));
      std::vector<std::string> log; int talk = 0;
      vp::mpi::S.log = [&](const std::string &s) { ++talk; if (log.size() < 20000) log.push_back(s); };
      O st; st.t("e", "start").i("n", N).i("keep", keep).raw("dom", "[0,0]").emit();
      std::vector<double> size(N); std::vector<int> last(N, -1);
      std::string res = vp::mpi::run(N, [&](int id) {
        // what the program does at its start to make a part of the area out of the whole
        Cfg *cfg = new Cfg(cfgs[k].get<std::string>()); Geometry *g = cfg->geometry; double dr = g->cell_size[0], dz = g->cell_size[1], dt = cfg->time->step;
        cfg->macro_amount /= N; for (auto &s : cfg->particle_species) s.macro_amount /= N;
        size_t cells = g->cell_amount[1] / N, doms = g->domains_amount[1] / N; double zs = g->size[1] / N;
        g->cell_amount[1] = cells; g->domains_amount[1] = doms; g->cell_dims[1] = cells * id; g->cell_dims[3] = cells * (id + 1); g->size[1] = zs;
        if (id < N - 1) g->walls[3] = false; if (id > 0) g->walls[1] = false;
        SMB *smb = new SMB(cfg, g, cfg->time, id, N);
        // the plasma at the start: what each domain was given
        smb->distribute();
        each_domain(smb, [&](unsigned, unsigned, Domain *d) { auto &q = d->geometry; for (size_t sp = 0; sp < d->species_p.size(); ++sp) { double w = 0; for (auto p : d->species_p[sp]->particles) w += P_WEIGHT((*p));
          plasma[k][{(int)q.cell_dims[0], (int)q.cell_dims[1], (int)q.cell_dims[2], (int)q.cell_dims[3], (int)sp}] = {(double)d->species_p[sp]->particles.size(), w}; } });
        clear(smb);
        uint64_t s = seed; auto rnd = [&]() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (double)(s >> 11) / 9007199254740992.0; };
        int ns = smb->domains(0, 0)->species_p.size();
        for (int i = 0; i < np; ++i) {
          double r = 0.5 + rnd() * (nr - 1), z = 0.5 + rnd() * (nz - 1);
          double vr = (rnd() - .5) * 2 * vmax, vp_ = (rnd() - .5) * vmax, vz = (rnd() - .5) * 2 * vmax, wt = 1e6 * (1 + rnd()); int sp = (int)(rnd() * ns) % ns;
          if (i % 2) { r = std::floor(r) + (rnd() < .5 ? 0.03 : 0.97) * (0.5 + rnd() / 2); z = std::floor(z) + (rnd() < .5 ? 0.02 : 0.98); }
          if (i % 3 == 0) z = (1 + (int)(rnd() * 3)) * nz / 4 + (rnd() - .5) * .2;       // around the borders of processes
          bool beam = sp >= ns - (int)num(c, "beams", 0);
          if (beam) { if (i % 4 < 2) r = nr - rnd() * .1, vr = vmax * (.5 + rnd() / 2); if (i % 4 == 1) z = nz - rnd() * .1; }   // leaving through the outer wall, some of them at a border of processes
          else r = std::min(std::max(r, .6), nr - .6); z = beam ? std::min(std::max(z, .3), nz - .01) : std::min(std::max(z, .6), nz - .6); if (r < .6) r = .6;
          each_domain(smb, [&](unsigned, unsigned, Domain *d) { auto &q = d->geometry;
            if (r >= q.cell_dims[0] && r < q.cell_dims[2] && z >= q.cell_dims[1] && z < q.cell_dims[3]) { Particle *p = new Particle(); auto o = d->species_p[sp]; P_SPECIE_ID((*p)) = o->id;
              P_MARK((*p)) = i + 1; P_WEIGHT((*p)) = wt; P_POS_R((*p)) = P_POS_OLD_R((*p)) = r * dr; P_POS_Z((*p)) = P_POS_OLD_Z((*p)) = z * dz; P_POS_PHI((*p)) = 0; P_SIN((*p)) = 0;
              P_VEL_R((*p)) = vr * dr / dt; P_VEL_PHI((*p)) = vp_ * dr / dt; P_VEL_Z((*p)) = vz * dr / dt; o->particles.push_back(p); } });
        }
        auto grids = [&](Domain *d) { std::vector<Grid<double> *> v; for (auto x : {&d->maxwell_solver->field_e, &d->maxwell_solver->field_h, &d->maxwell_solver->field_h_at_et, &d->current->current}) for (int q = 0; q < 3; ++q) v.push_back(&(*x)[q]); return v; };
        std::vector<std::vector<double>> f0(6, std::vector<double>(nr * nz)); for (auto &v : f0) for (auto &x : v) x = (rnd() - .5);
        each_domain(smb, [&](unsigned, unsigned, Domain *d) { auto gs = grids(d); d->bind_cell_numbers();
          for (int q = 0; q < 9; ++q) for (int a = -2; a < (int)gs[q]->x_size + 2; ++a) for (int b = -2; b < (int)gs[q]->y_size + 2; ++b) { long R = a + (long)d->geometry.cell_dims[0], Z = b + (long)d->geometry.cell_dims[1];
            double v = R < 0 || Z < 0 || R >= nr || Z >= nz ? 0 : f0[q < 6 ? q : q - 3][R * nz + Z] * (q < 3 ? fe : fe / 377); gs[q]->set(a, b, v); }
          d->current->current = 0; d->current->current.overlay_set(0); });
        for (int t = 0; t < steps; ++t) {
          smb->inject_beam(); smb->solve_maxvell(); smb->advance_particles(); smb->solve_current(); cfg->time->current += dt;
          Snap &sn = got[t];
          each_domain(smb, [&](unsigned, unsigned, Domain *d) { auto gs = grids(d);
            for (int q = 0; q < 12; ++q) for (unsigned a = 0; a < gs[q]->x_size; ++a) for (unsigned b = 0; b < gs[q]->y_size; ++b) sn.g[q][(a + d->geometry.cell_dims[0]) * nz + b + d->geometry.cell_dims[1]] = (*gs[q])(a, b);
            for (size_t sp = 0; sp < d->species_p.size(); ++sp) for (auto p : d->species_p[sp]->particles) { sn.dup += sn.p.count(P_MARK((*p)));
              bool home = P_POS_R((*p)) / dr >= d->geometry.cell_dims[0] && P_POS_R((*p)) / dr < d->geometry.cell_dims[2] && P_POS_Z((*p)) / dz >= d->geometry.cell_dims[1] && P_POS_Z((*p)) / dz < d->geometry.cell_dims[3];
              sn.p[P_MARK((*p))] = {(double)sp, P_POS_R((*p)) / dr, P_POS_Z((*p)) / dz, P_VEL_R((*p)) * dt / dr, P_VEL_PHI((*p)) * dt / dr, P_VEL_Z((*p)) * dt / dz, P_WEIGHT((*p)), (double)home, (double)P_SPECIE_ID((*p))}; } });
          last[id] = t;
          vp::mpi::say("\"e\":\"step\",\"rank\":" + std::to_string(id) + ",\"peer\":0,\"tag\":0,\"sig\":\"\",\"kept\":false");
        }
      }, keep, seed + k);
      if (has(c, "talk") && num(c, "talk") == (double)k) for (auto &s : log) std::cout << "{" << s << "}\n";
      O en; en.t("e", "end").t("res", res).i("n", N).i("keep", keep).b("talked", has(c, "talk") && num(c, "talk") == (double)k).emit();
      if (!res.empty()) continue;
      if (has(c, "same") && k > 0 && arr(c, "same")[k].get<double>() >= 0) { // the same cut into domains, spread over other processes
        auto &A = plasma[(size_t)arr(c, "same")[k].get<double>()]; auto &B = plasma[k]; int badn = 0, badw = 0;
        for (auto &x : A) { if (!B.count(x.first)) { ++badn; continue; } auto &y = B[x.first]; badn += y[0] != x.second[0]; badw += !(std::fabs(y[1] - x.second[1]) <= 1e-9 * std::fabs(x.second[1])); }
        O o; o.t("e", "load").i("n", N).i("parts", A.size()).i("got", B.size()).i("badn", badn).i("badw", badw).emit(); }
      if (k == 0) { ref = got; continue; }
      for (int t = 0; t < steps; ++t) {
        Snap &sn = got[t], &R = ref[t]; std::string dev = "[", where = "["; bool fin = true;
        for (int q = 0; q < 12; ++q) { double mx = 0, e = 0; int at = -1; for (auto x : R.g[q]) mx = std::max(mx, std::fabs(x)); if (q % 3 == 1) for (int q2 : {q - 1, q + 1}) for (auto x : R.g[q2]) mx = std::max(mx, std::fabs(x));
          for (int i = 0; i < nr * nz; ++i) { fin &= std::isfinite(R.g[q][i]); double x = std::fabs(sn.g[q][i] - R.g[q][i]); if (!(x <= e)) e = x, at = i; if (verbose && mx > 0 && !(x / mx < 1e-9)) std::cerr << q << " step " << t << " cell " << i / nz << "," << i % nz << " " << sn.g[q][i] << " vs " << R.g[q][i] << " max " << mx << "\n"; }
          double rel = mx > 0 ? e / mx : e; dev += (q ? "," : "") + std::to_string(rel < 1e-9 ? 0 : rel < 1e-6 ? 1 : 2); where += (q ? "," : "") + jpair(at < 0 ? -1 : at / nz, at < 0 ? -1 : at % nz); }
        int bad = 0, away = 0; for (auto &x : R.p) { if (!sn.p.count(x.first)) { ++bad; continue; } auto &y = sn.p[x.first]; for (int i = 0; i < 7; ++i) if (!(std::fabs(y[i] - x.second[i]) <= 1e-9 * (std::fabs(x.second[i]) + 1)) || y[8] != x.second[8]) { if (verbose) fprintf(stderr, "particle %ld [%d] %.17g %.17g\n", x.first, i, y[8] != x.second[8] ? y[8] : y[i], y[8] != x.second[8] ? x.second[8] : x.second[i]); ++bad; break; } }
        for (auto &y : sn.p) away += y.second[7] != 1;
        O o; o.t("e", "cmp").i("step", t).i("n", N).raw("dev", dev + "]").raw("where", where + "]").i("np", R.p.size()).i("got", sn.p.size()).i("bad", bad).i("dup", sn.dup).i("away", away).b("finite", fin).emit();
      }
    }
  }
}
