// Moments of the particles as the probes write them.
// rel: particles are [specie,r,z,m,n,d,g,a,b,c,e], of speed n/d c along (a,b,c)/e
// {cfg,nr,nz,rd,zd,u,probes:[{specie,comp,path}],steps:[[[specie,r,z,m,vr,vphi,vz],..],..],v0}
#include "drv.hpp"
#include "outController.hpp"
#include <highfive/H5File.hpp>
using namespace drv;
int main(int argc, char **argv) {
  std::ifstream in(argv[1]); V c; int k = 0;
  while (next(in, c)) {
    Cfg *cfg = new Cfg(str(c, "cfg")); SMB *smb = new SMB(cfg, cfg->geometry, cfg->time, 0, 1); clear(smb);
    std::string fn = "mem" + std::to_string(k++); auto *file = new HighFive::File(fn, HighFive::File::Create | HighFive::File::Excl);
    auto *prbs = new std::vector<probe>(cfg->probes); OutController oc(file, cfg->geometry, cfg->time, *prbs, smb, cfg->cfg2value(), false);
    double u = num(c, "u"), dr = cfg->geometry->cell_size[0], dz = cfg->geometry->cell_size[1], W0 = 1e6, V0 = num(c, "v0"); bool rel = has(c, "rel"); int nr = num(c, "nr"), nz = num(c, "nz");
    O w; w.t("e", "world").i("nr", nr).i("nz", nz).i("u", u).b("rel", rel).emit();
    auto &ds = vp::h5::stores()[fn]->dsets; int t = 0;
    for (auto &st : arr(c, "steps")) { clear(smb);
      for (auto &x : st.get<picojson::array>()) each_domain(smb, [&](unsigned, unsigned, Domain *d) { auto &g = d->geometry; double R = at(x, 1) / u, Z = at(x, 2) / u;
        if (R >= g.cell_dims[0] && R < g.cell_dims[2] && Z >= g.cell_dims[1] && Z < g.cell_dims[3]) { auto q = d->species_p[(int)at(x, 0)]; Particle *p = new Particle(); P_SPECIE_ID((*p)) = q->id; P_MARK((*p)) = 0; P_SIN((*p)) = 0; P_POS_PHI((*p)) = 0;
          P_WEIGHT((*p)) = at(x, 3) * W0; P_POS_R((*p)) = P_POS_OLD_R((*p)) = R * dr; P_POS_Z((*p)) = P_POS_OLD_Z((*p)) = Z * dz; double f = rel ? at(x, 4) / at(x, 5) / at(x, 10) * constant::LIGHT_VEL : V0; int o = rel ? 7 : 4; P_VEL_R((*p)) = at(x, o) * f; P_VEL_PHI((*p)) = at(x, o + 1) * f; P_VEL_Z((*p)) = at(x, o + 2) * f; q->particles.push_back(p); } });
      each_domain(smb, [&](unsigned, unsigned, Domain *d) { d->bind_cell_numbers(); });
      oc();
      for (auto &pv : arr(c, "probes")) { std::string comp = str(pv, "comp"), path = str(pv, "path"); int sp = num(pv, "specie"); double m = smb->domains(0, 0)->species_p[sp]->mass;
        bool ok = ds.count(path) && (int)ds[path].dims[0] == t + 1 && (int)ds[path].data.size() == (t + 1) * nr * nz; std::string v = "[";
        for (int i = 0; ok && i < nr; ++i) { v += i ? ",[" : "["; for (int z = 0; z < nz; ++z) { double x = ds[path].data[(size_t)t * nr * nz + i * nz + z];
          if (comp == "density") x *= M_PI * dz * dr * dr * (i ? 2 * i : 1) / W0 * 1e5;
          else if (comp.substr(0, 8) == "momentum") x = x / m / (rel ? constant::LIGHT_VEL : V0) * (rel ? 4000 : 1000);
          else x = x * constant::EL_CHARGE / (rel ? m * constant::LIGHT_VEL * constant::LIGHT_VEL : m * V0 * V0 / 2) * (rel ? 4000 : 100);
          ok &= std::isfinite(x) && std::fabs(x) < 1e9; v += (z ? "," : "") + std::to_string(ok ? std::lround(x) : 0); } v += "]"; }
        O o; o.t("e", "frame").t("comp", comp).i("specie", sp).i("t", t).b("ok", ok).raw("parts", st.serialize()).raw("v", v + "]").emit(); }
      cfg->time->current += cfg->time->step; ++t; }
    delete file;
  }
}
