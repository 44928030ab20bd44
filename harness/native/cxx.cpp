// C26: the C++ class used directly.
//   cxx ITEMS   ITEMS holds inputs, arguments of init_from_vmec (v_*), and "ops" (one per line)
#include <iostream>
#include <memory>
#include <sstream>
#include "natio.hpp"
using namespace booz_xform;

static void put(FILE* f, const char* k, char t, long r, long c, const void* p, long bytes) {
  std::fprintf(f, "%s %c %ld %ld %ld\n", k, t, r, c, bytes);
  if (bytes) std::fwrite(p, 1, bytes, f);
  std::fputc('\n', f);
}
static void put(FILE* f, const char* k, int v) { put(f, k, 'i', 1, 1, &v, 4); }
static void put(FILE* f, const char* k, double v) { put(f, k, 'd', 1, 1, &v, 8); }
static void put(FILE* f, const char* k, const IntVector& v) {
  std::vector<int> x;
  for (int j = 0; j < v.size(); j++) x.push_back(v[j]);
  put(f, k, 'I', x.size(), 1, x.data(), 4 * x.size());
}
static void put(FILE* f, const char* k, const Vector& v) {
  std::vector<double> x;
  for (int j = 0; j < v.size(); j++) x.push_back(v[j]);
  put(f, k, 'V', x.size(), 1, x.data(), 8 * x.size());
}
static void put(FILE* f, const char* k, const Matrix& v) {
  std::vector<double> x;
  for (int j = 0; j < v.cols(); j++)
    for (int i = 0; i < v.rows(); i++) x.push_back(v(i, j));
  put(f, k, 'M', v.rows(), v.cols(), x.data(), 8 * x.size());
}

static void dump(const Booz_xform& b, const std::string& path) {
  FILE* f = std::fopen(path.c_str(), "wb");
#define P(x) put(f, #x, b.x);
  put(f, "asym", (int)b.asym);
  P(nfp) P(mpol) P(ntor) P(mnmax) P(mpol_nyq) P(ntor_nyq) P(mnmax_nyq) P(ns_in) P(mboz) P(nboz) P(ns_b) P(mnboz)
  P(aspect) P(toroidal_flux)
  P(xm) P(xn) P(xm_nyq) P(xn_nyq) P(compute_surfs) P(xm_b) P(xn_b)
  P(s_in) P(iota) P(phi) P(phip) P(chi) P(pres) P(s_b) P(Boozer_G) P(Boozer_G_all) P(Boozer_I) P(Boozer_I_all)
  P(rmnc) P(rmns) P(zmnc) P(zmns) P(lmnc) P(lmns) P(bmnc) P(bmns) P(bsubumnc) P(bsubumns) P(bsubvmnc) P(bsubvmns)
  P(bmnc_b) P(bmns_b) P(rmnc_b) P(rmns_b) P(zmnc_b) P(zmns_b) P(numnc_b) P(numns_b) P(gmnc_b) P(gmns_b)
  std::fclose(f);
}

int main(int argc, char** argv) {
  Items m = read_items(argv[1]);
  std::istringstream ops(get_str(m, "ops"));
  std::string op;
  std::unique_ptr<Booz_xform> held(new Booz_xform());
  while (ops >> op) {
    Booz_xform& b = *held;
    std::string err, path;
    int flag = 0;
    try {
      if (op == "assign") assign(b, m);
      else if (op == "wout") {
        ops >> path >> flag;
        if (flag == 2) b.read_wout(path);
        else b.read_wout(path, flag);
      } else if (op == "vmec") {
        ops >> flag;
        b.asym = get_int(m, "v_asym"); b.nfp = get_int(m, "v_nfp"); b.mpol = get_int(m, "v_mpol"); b.ntor = get_int(m, "v_ntor");
        b.mnmax = get_int(m, "v_mnmax"); b.mpol_nyq = get_int(m, "v_mpol_nyq"); b.ntor_nyq = get_int(m, "v_ntor_nyq");
        b.mnmax_nyq = get_int(m, "v_mnmax_nyq");
        b.xm = get_ivec(m, "v_xm"); b.xn = get_ivec(m, "v_xn"); b.xm_nyq = get_ivec(m, "v_xm_nyq"); b.xn_nyq = get_ivec(m, "v_xn_nyq");
        Vector iotas = get_vec(m, "v_iotas");
#define A(x) Matrix x = get_mat(m, "v_" #x);
        A(rmnc) A(rmns) A(zmnc) A(zmns) A(lmnc) A(lmns) A(bmnc) A(bmns) A(bsubumnc) A(bsubumns) A(bsubvmnc) A(bsubvmns)
        Vector phipf = get_vec(m, "v_phipf"), chi = get_vec(m, "v_chi"), pres = get_vec(m, "v_pres"), phi = get_vec(m, "v_phi");
        if (flag) b.init_from_vmec(get_int(m, "v_ns"), iotas, rmnc, rmns, zmnc, zmns, lmnc, lmns, bmnc, bmns, bsubumnc, bsubumns,
                                   bsubvmnc, bsubvmns, phipf, chi, pres, phi);
        else b.init_from_vmec(get_int(m, "v_ns"), iotas, rmnc, rmns, zmnc, zmns, lmnc, lmns, bmnc, bmns, bsubumnc, bsubumns,
                              bsubvmnc, bsubvmns);
      } else if (op == "set") {
        std::string k;
        ops >> k;
        if (k == "surfs") b.compute_surfs = get_ivec(m, "set_surfs");
        else { ops >> flag; (k == "mboz" ? b.mboz : k == "nboz" ? b.nboz : b.verbose) = flag; }
      } else if (op == "run") b.run();
      else if (op == "boozmn") { ops >> path; b.read_boozmn(path); }
      else if (op == "write") { ops >> path; b.write_boozmn(path); }
      else if (op == "copy") {       // copies and assigned copies are as good as the original
        ops >> flag;
        Booz_xform* d = flag == 1 ? new Booz_xform(*held) : new Booz_xform();
        if (flag != 1) {
          d->mboz = 77;
          if (flag == 2) d->xm.setLinSpaced(3, 0, 2);
          *d = *held;
        }
        held.reset(d);
      }
      else if (op == "dump") { ops >> path; dump(b, path); }
      else return 80;
    } catch (const std::exception& e) { err = e.what(); if (err.empty()) err = "?"; }
    std::fprintf(stderr, "%s%s\n", err.empty() ? "ok" : "error ", err.c_str());
  }
  return 0;
}
