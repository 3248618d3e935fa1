// Seams: integers in every cell and ghost of every domain's grid, the real exchange, everything read back.
#include "drv.hpp"
#include "outController.hpp"
#include <random>
using namespace drv;
int main(int argc, char **argv) {
  std::ifstream in(argv[1]); V c; World w; std::mt19937 rng(1);
  while (next(in, c)) {
    std::string op = str(c, "op");
    if (op == "world") { w = make(str(c, "cfg"));
      O o; o.t("e", "world").i("nr", num(c, "nr")).i("nz", num(c, "nz")).i("rd", num(c, "rd")).i("zd", num(c, "zd")).emit(); continue; }
    if (has(c, "seed")) rng.seed((unsigned)num(c, "seed"));
    if (has(c, "threads")) { vp::omp::num_threads = num(c, "threads"); vp::omp::order_seed = num(c, "order"); }
    bool J = op == "J"; int fillp = num(c, "fill", 100);
    std::vector<std::pair<std::string, std::function<Grid3D<double> &(Domain *)>>> gs;
    if (J) gs.push_back({"J", [](Domain *d) -> Grid3D<double> & { return d->current->current; }});
    if (op == "E") gs.push_back({"E", [](Domain *d) -> Grid3D<double> & { return d->maxwell_solver->field_e; }});
    if (op == "H") { gs.push_back({"H", [](Domain *d) -> Grid3D<double> & { return d->maxwell_solver->field_h; }}); gs.push_back({"Ht", [](Domain *d) -> Grid3D<double> & { return d->maxwell_solver->field_h_at_et; }}); }
    auto dump = [&](std::function<Grid3D<double> &(Domain *)> f, int q) { std::string s = "["; bool fst = true;
      each_domain(w.smb, [&](unsigned, unsigned, Domain *d) { auto &g = f(d)[q]; s += fst ? "[" : ",["; fst = false;
        for (int a = -2; a < (int)g.x_size + 2; ++a) { s += a > -2 ? ",[" : "["; for (int b = -2; b < (int)g.y_size + 2; ++b) s += (b > -2 ? "," : "") + std::to_string((long)g(a, b)); s += "]"; } s += "]"; });
      return s + "]"; };
    for (auto &g : gs) for (int q = 0; q < 3; ++q) each_domain(w.smb, [&](unsigned i, unsigned j, Domain *d) { auto &gr = g.second(d)[q];
      int R = gr.x_size, Z = gr.y_size; bool lo = i == 0, hi = i == w.smb->r_domains - 1, lf = j == 0, rt = j == w.smb->z_domains - 1;
      for (int a = -2; a < R + 2; ++a) for (int b = -2; b < Z + 2; ++b) { bool ghost = a < 0 || b < 0 || a >= R || b >= Z;
        bool out = (a < 0 && lo) || (a >= R && hi) || (b < 0 && lf) || (b >= Z && rt);
        gr.set(a, b, out || (ghost && !J) ? 0 : (int)(rng() % 100) < fillp ? (int)(rng() % 97) : 0); } });
    std::vector<std::string> before; for (auto &g : gs) for (int q = 0; q < 3; ++q) before.push_back(dump(g.second, q));
    if (J) w.smb->current_overlay(); else if (op == "E") w.smb->field_e_overlay(); else w.smb->field_h_overlay();
    size_t k = 0; for (auto &g : gs) for (int q = 0; q < 3; ++q) { O b; b.t("e", "before").raw("v", before[k++]).emit();
      O o; o.t("e", "after").t("kind", g.first + std::to_string(q)).i("need", J ? 0 : 1).raw("v", dump(g.second, q)).emit(); }
  }
}
