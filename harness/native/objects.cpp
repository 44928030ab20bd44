// C25: several objects in one process.
//   objects OUT ITEMS...    one file per object: its inputs and "rounds"
// Each object is first run alone; then one thread per object runs all of them at the same time
// (under ThreadSanitizer), and copies of objects are used independently of their originals.
#include <atomic>
#include <iostream>
#include <pthread.h>
#include "natio.hpp"
using namespace booz_xform;

template <class T> static bool same(const T& x, const T& y) {
  return x.rows() == y.rows() && x.cols() == y.cols() &&
         (x.size() == 0 || !std::memcmp(x.data(), y.data(), sizeof(*x.data()) * x.size()));
}

static std::string differences(const Booz_xform& b, const Booz_xform& r, bool inputs) {
  std::string d;
#define S(x) if (!same(b.x, r.x)) d += std::string(" ") + #x;
  S(bmnc_b) S(bmns_b) S(rmnc_b) S(rmns_b) S(zmnc_b) S(zmns_b) S(numnc_b) S(numns_b) S(gmnc_b) S(gmns_b)
  S(Boozer_G) S(Boozer_I) S(Boozer_G_all) S(Boozer_I_all) S(s_b) S(xm_b) S(xn_b)
  if (b.ns_b != r.ns_b) d += " ns_b";
  if (b.mnboz != r.mnboz) d += " mnboz";
  if (inputs) {
    S(xm) S(xn) S(xm_nyq) S(xn_nyq) S(compute_surfs) S(s_in) S(iota) S(phi) S(phip) S(chi) S(pres)
    S(rmnc) S(rmns) S(zmnc) S(zmns) S(lmnc) S(lmns) S(bmnc) S(bmns) S(bsubumnc) S(bsubumns) S(bsubvmnc) S(bsubvmns)
    if (b.asym != r.asym || b.nfp != r.nfp || b.mboz != r.mboz || b.nboz != r.nboz || b.ns_in != r.ns_in ||
        b.mnmax != r.mnmax || b.mnmax_nyq != r.mnmax_nyq || b.verbose != r.verbose) d += " scalars";
  }
  return d;
}

struct Job {
  Items items;
  Booz_xform ref, loaded;
  int ns = 2;
  int rounds = 1;
  std::string error;
};
static pthread_barrier_t start;

// VMEC arrays made of an object's data: ns surfaces, all of the modes axisymmetric
static void load(Booz_xform& b, const Booz_xform& src, int ns) {
  b.verbose = 0;
  b.asym = src.asym;
  b.nfp = src.nfp < 1 ? 1 : src.nfp;
  b.mnmax = src.rmnc.rows();
  b.mnmax_nyq = src.bmnc.rows();
  b.mpol = b.mnmax;
  b.mpol_nyq = b.mnmax_nyq;
  b.ntor = b.ntor_nyq = 0;
  b.xm.setLinSpaced(b.mnmax, 0, b.mnmax - 1);
  b.xm_nyq.setLinSpaced(b.mnmax_nyq, 0, b.mnmax_nyq - 1);
  b.xn.setZero(b.mnmax);
  b.xn_nyq.setZero(b.mnmax_nyq);
  auto spread = [ns](const Matrix& x) {
    Matrix y(x.rows(), x.cols() ? ns : 0);
    for (int j = 0; j < y.cols(); j++) for (int k = 0; k < y.rows(); k++) y(k, j) = x(k, j % x.cols()) * (1 + j / 128.0);
    return y;
  };
  Vector iotas(ns), p(ns), c(ns), q(ns), f(ns);
  for (int j = 0; j < ns; j++) { iotas[j] = 0.5 + j / 1024.0; p[j] = j + 1; c[j] = 2 * j; q[j] = 3.0 / (1 + j); f[j] = j * 0.25; }
  Matrix a[12] = {spread(src.rmnc), spread(src.rmns), spread(src.zmnc), spread(src.zmns), spread(src.lmnc), spread(src.lmns),
                  spread(src.bmnc), spread(src.bmns), spread(src.bsubumnc), spread(src.bsubumns), spread(src.bsubvmnc), spread(src.bsubvmns)};
  if (ns % 2) b.init_from_vmec(ns, iotas, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], p, c, q, f);
  else b.init_from_vmec(ns, iotas, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
}

static void* work(void* p) {
  Job& j = *(Job*)p;
  pthread_barrier_wait(&start);
  try {
    Booz_xform used;
    assign(used, j.items);
    {
      Booz_xform b;
      load(b, j.ref, j.ns);
      std::string d = differences(b, j.loaded, true);
      if (d.size()) j.error += " loading from VMEC's arrays:" + d;
    }
    for (int k = 0; k < j.rounds; k++) {
      if (k % 2 == 0) {
        Booz_xform b;
        assign(b, j.items);
        b.run();
        j.error += differences(b, j.ref, true);
      } else {
        used.run();
        j.error += differences(used, j.ref, true);
      }
    }
  } catch (const std::exception& e) { j.error += std::string(" threw ") + e.what(); }
  return nullptr;
}

int main(int argc, char** argv) {
  FILE* out = std::fopen(argv[1], "wb");
  std::vector<Job> jobs(argc - 2);
  int bad = 0;
  for (size_t k = 0; k < jobs.size(); k++) {
    Job& j = jobs[k];
    j.items = read_items(argv[k + 2]);
    j.rounds = get_int(j.items, "rounds", 1);
    assign(j.ref, j.items);
    j.ref.run();
    j.ns = j.ref.ns_in + 1 + 5 * (k % 7) + (k & 1);
    if (j.ns < 2) j.ns = 2;
    load(j.loaded, j.ref, j.ns);
  }
  auto report = [&](size_t k, const char* what, const std::string& d) {
    if (d.size()) { std::fprintf(out, "DIFF object %ld, %s:%s\n", (long)k, what, d.c_str()); bad = 1; }
  };
  // Copies are objects of their own
  for (size_t k = 0; k < jobs.size(); k++) {
    Booz_xform o;
    assign(o, jobs[k].items);
    Booz_xform blank = o;
    Booz_xform c(o);
    o.run();
    report(k, "after a copy was made", differences(o, jobs[k].ref, true));
    report(k, "the copy made before the original ran", differences(c, blank, true));
    c.bmnc *= 2.0;
    c.mboz++;
    c.run();
    report(k, "the original after its copy was changed and run", differences(o, jobs[k].ref, true));
    Booz_xform d;
    d = o;
    report(k, "an assigned copy of a completed object", differences(d, jobs[k].ref, true));
    Booz_xform* q = new Booz_xform(o);
    q->run();
    report(k, "rerun of a copy", differences(*q, jobs[k].ref, true));
    delete q;
    report(k, "the original after a copy was deleted", differences(o, jobs[k].ref, true));
    // a copy works on data of its own, whatever happens to the original afterwards
    for (int how = 0; how < 4; how++) {
      Booz_xform* p = new Booz_xform();
      assign(*p, jobs[k].items);
      if (how & 1) p->run();
      Booz_xform e(*p), g;
      g = *p;
      for (Matrix* x : {&p->rmnc, &p->rmns, &p->zmnc, &p->zmns, &p->lmnc, &p->lmns, &p->bmnc, &p->bmns, &p->bsubumnc, &p->bsubumns,
                        &p->bsubvmnc, &p->bsubvmns}) *x *= 1.5;
      p->iota *= 0.5;
      p->xm.setZero(); p->xn.setZero(); p->xm_nyq.setZero(); p->xn_nyq.setZero();
      for (int j = 0; j < p->compute_surfs.size(); j++) p->compute_surfs[j] = p->ns_in - 1 - p->compute_surfs[j];
      p->mboz++; p->nfp++; p->verbose = 0;
      if (how & 2) delete p;
      e.run();
      report(k, "a copy whose original was changed or deleted", differences(e, jobs[k].ref, true));
      g.run();
      report(k, "an assigned copy whose original was changed or deleted", differences(g, jobs[k].ref, true));
      if (!(how & 2)) {
        p->asym = !p->asym;
        report(k, "copies after another change", differences(e, jobs[k].ref, true));
        delete p;
      }
    }
    // another object's data into a used object
    d = jobs[(k + 1) % jobs.size()].ref;
    d.run();
    report(k, "assignment from another object", differences(d, jobs[(k + 1) % jobs.size()].ref, true));
  }
  pthread_barrier_init(&start, nullptr, jobs.size());
  std::vector<pthread_t> t(jobs.size());
  for (size_t k = 0; k < jobs.size(); k++) pthread_create(&t[k], nullptr, work, &jobs[k]);
  for (size_t k = 0; k < jobs.size(); k++) pthread_join(t[k], nullptr);
  for (size_t k = 0; k < jobs.size(); k++) report(k, "run at the same time as others", jobs[k].error);
  std::fprintf(out, "END\n");
  std::fclose(out);
  return bad;
}
