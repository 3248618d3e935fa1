// Configurations: refused or run.  Each command is the abstract configuration, with {file, dir, m:[..], q:[..], dr, dz, dt, end}
#include "drv.hpp"
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
using namespace drv;
int picopic_main(int, char **);
static long dev(double got, double want) { double x = want == 0 ? (got == 0 ? 0 : 1) : got / want - 1; x *= 1e9; return std::isfinite(x) && std::fabs(x) < 2e9 ? std::lround(x) : 1999999999; }
// run f in a child: "" when it ends well, "refused ..." or "crashed ..."
static std::string child(const std::function<void(FILE *)> &f, std::string &text) {
  int p[2]; if (pipe(p)) abort(); fflush(stdout); pid_t pid = fork();
  if (!pid) { alarm(30); close(p[0]); FILE *o = fdopen(p[1], "w"); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); vp::fatal_mode = vp::FATAL_THROW; int rc = 0;
    try { f(o); } catch (const vp::Fatal &e) { fprintf(o, "\n!%s", e.what()); rc = 77; } catch (const std::exception &e) { fprintf(o, "\n!%s", e.what()); rc = 78; } fflush(o); _exit(rc); }
  close(p[1]); std::string t; char b[65536]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) t.append(b, n); close(p[0]); int st = 0; waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? "never ends" : "crashed"; int rc = WEXITSTATUS(st); if (rc == 77 || rc == 78) { size_t k = t.find("\n!"); text = t.substr(k + 2); return "refused"; } if (rc) { text = "exit " + std::to_string(rc); return "crashed"; } text = t; return "run"; }
int main(int argc, char **argv) {
  std::ifstream in(argv[1]); V c;
  while (next(in, c)) {
    std::string file = str(c, "file"), built, why, wrote;
    std::string r = child([&](FILE *o) { Cfg *cfg = new Cfg(file); SMB *smb = new SMB(cfg, cfg->geometry, cfg->time, 0, 1); std::string d; auto nm = [&](auto &a) { auto &m = arr(c, a); return m; };
      auto &m = arr(c, "m"), &q = arr(c, "q");
      each_domain(smb, [&](unsigned, unsigned, Domain *x) { auto &g = x->geometry; O e; std::string ids, names, dm, dq, dv; size_t k = 0; auto &nums = arr(c, "nums");
        for (auto s : x->species_p) { std::string z = k ? "," : ""; ids += z + std::to_string(s->id); names += z + V(s->name).serialize(); dm += z + std::to_string(k < m.size() ? dev(s->mass / constant::EL_MASS, m[k].get<double>()) : 0); dq += z + std::to_string(k < q.size() ? dev(s->charge / constant::EL_CHARGE, q[k].get<double>()) : 0); 
          if (k < nums.size()) { auto &w = nums[k].get<picojson::array>(); std::vector<double> got = {s->density[0], s->density[1]}; if (auto bm = dynamic_cast<BeamP *>(s)) got = {(double)bm->bunches_amount, bm->bunches_distance, bm->bunch_length, bm->radius, bm->density, bm->velocity, bm->start_time}; else got.push_back(s->temperature);
            for (size_t t = 0; t < got.size(); ++t) dv += (dv.empty() ? "" : ",") + std::to_string(dev(got[t], w[t].get<double>())); } ++k;  }
        d += (d.empty() ? "" : ",") + std::string("{\"b\":") + std::to_string(g.cell_dims[0]) + ",\"l\":" + std::to_string(g.cell_dims[1]) + ",\"t\":" + std::to_string(g.cell_dims[2]) + ",\"r\":" + std::to_string(g.cell_dims[3])
          + ",\"dr\":" + std::to_string(dev(g.cell_size[0], num(c, "dr"))) + ",\"dz\":" + std::to_string(dev(g.cell_size[1], num(c, "dz"))) + ",\"dv\":[" + dv + "],\"lay\":[" + std::to_string(g.pml_size[1]) + "," + std::to_string(g.pml_size[2]) + "," + std::to_string(g.pml_size[3]) + "],\"sg\":[" + std::to_string(dev(g.pml_sigma[0], num(c, "s1"))) + "," + std::to_string(dev(g.pml_sigma[1], num(c, "s2"))) + "]" + ",\"ids\":[" + ids + "],\"names\":[" + names + "],\"dm\":[" + dm + "],\"dq\":[" + dq + "]}"; });
      std::string ms; for (auto &p : cfg->particle_species) ms += (ms.empty() ? "" : ",") + std::to_string(p.macro_amount); for (auto &b : cfg->particle_beams) ms += "," + std::to_string(b.macro_amount);
      fprintf(o, "{\"e\":\"built\",\"macro\":%ld,\"share\":%s,\"got\":[%s],\"dt\":%ld,\"end\":%ld,\"clock\":%ld,\"doms\":[%s]}", (long)num(c, "macro"), c.get("share").serialize().c_str(), ms.c_str(), dev(cfg->time->step, num(c, "dt")), dev(cfg->time->end, num(c, "end")), dev(cfg->time->current, num(c, "start")), d.c_str()); }, built);
    if (r != "run") why = built;
    else { std::string log = str(c, "dir") + "/h5.log"; setenv("VP_H5_LOG", log.c_str(), 1); unlink(log.c_str());
      r = child([&](FILE *) { std::vector<std::string> a = {"picopic", "-f", file}; char *av[] = {&a[0][0], &a[1][0], &a[2][0], nullptr}; int rc = picopic_main(3, av); if (rc) throw std::runtime_error("exit code"); }, why);
      if (r == "run") { std::ifstream li(log); std::set<std::string> w; V e; while (next(li, e)) if (str(e, "e") == "write") w.insert(str(e, "path")); for (auto &x : w) wrote += (wrote.empty() ? "" : ",") + V(x).serialize(); } }
    O o; o.t("e", "conf").t("out", r).t("why", why.substr(0, 200)).b("well", has(c, "well")); for (const char *k : {"nr", "nz", "rd", "zd"}) o.i(k, num(c, k));
    for (const char *k : {"sp", "beams", "m1", "probes", "vals", "lay8"}) o.raw(k, c.get(k).serialize()); o.emit();
    if (r == "run") { printf("%s\n", built.c_str()); O().t("e", "wrote").raw("written", "[" + wrote + "]").emit(); }
  }
}
