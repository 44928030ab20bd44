// C24: executes generated histories of library calls, each in a forked child.
//   safety            reads lines "CASEFILE ERRFILE" on stdin, answers "STATUS" (wait status) per line
//   safety CASEFILE   one case in this process
// A case file (natio.hpp) holds "steps": one step per line.
#include <csignal>
#include <fcntl.h>
#include <iostream>
#include <netcdf.h>
#include <new>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "natio.hpp"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
static void must_be_addressable(const void* p, size_t n, const char* who) {
  if (n && __asan_region_is_poisoned((void*)p, n)) {
    std::fprintf(stderr, "VERIF-BAD-BUFFER %s: %zu bytes at %p are not all addressable\n", who, n, p);
    __asan_describe_address((void*)p);
    std::abort();
  }
}
static void must_be_defined(const void*, size_t, const char*) {}
static void leave_if_bad() {}
#else
#include <valgrind/memcheck.h>
static void must_be_addressable(const void* p, size_t n, const char* who) {
  if (n && VALGRIND_CHECK_MEM_IS_ADDRESSABLE(p, n)) std::fprintf(stderr, "VERIF-BAD-BUFFER %s: %zu bytes\n", who, n);
}
static void must_be_defined(const void* p, size_t n, const char* who) {
  if (n && VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) std::fprintf(stderr, "VERIF-UNDEFINED %s: %zu bytes\n", who, n);
}
static void leave_if_bad() {
  if (VALGRIND_COUNT_ERRORS) _exit(77);
}
#endif
#if defined(__SANITIZE_ADDRESS__)
static const int ALARM_S = 12;
#else
static const int ALARM_S = 12;
#endif
using namespace booz_xform;

#if defined(__SANITIZE_ADDRESS__)
// bad_alloc, as in the package, instead of the sanitizer's own out-of-memory report
void* operator new(size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
#endif

#if !defined(__SANITIZE_ADDRESS__)
// the same limit as max_allocation_size_mb for the other variant
extern "C" {
void* __real_malloc(size_t);
void* __wrap_malloc(size_t n) { return n > (size_t(64) << 20) ? nullptr : __real_malloc(n); }
}
#endif

// What libnetcdf (not instrumented) is about to write to or read from
static size_t var_len(int nc, int var) {
  int nd = 0;
  if (nc_inq_varndims(nc, var, &nd)) return 0;
  std::vector<int> ids(nd + 1);
  if (nc_inq_vardimid(nc, var, ids.data())) return 0;
  size_t n = 1, k;
  for (int j = 0; j < nd; j++) { if (nc_inq_dimlen(nc, ids[j], &k)) return 0; n *= k; }
  return n;
}
extern "C" {
int __real_nc_get_var_double(int, int, double*);
int __real_nc_get_var_int(int, int, int*);
int __real_nc_put_var_double(int, int, const double*);
int __real_nc_put_var_int(int, int, const int*);
int __real_nc_put_var_text(int, int, const char*);
int __wrap_nc_get_var_double(int nc, int v, double* p) { must_be_addressable(p, 8 * var_len(nc, v), "nc_get_var_double"); return __real_nc_get_var_double(nc, v, p); }
int __wrap_nc_get_var_int(int nc, int v, int* p) { must_be_addressable(p, 4 * var_len(nc, v), "nc_get_var_int"); return __real_nc_get_var_int(nc, v, p); }
int __wrap_nc_put_var_double(int nc, int v, const double* p) {
  must_be_addressable(p, 8 * var_len(nc, v), "nc_put_var_double"); must_be_defined(p, 8 * var_len(nc, v), "nc_put_var_double"); return __real_nc_put_var_double(nc, v, p); }
int __wrap_nc_put_var_int(int nc, int v, const int* p) {
  must_be_addressable(p, 4 * var_len(nc, v), "nc_put_var_int"); must_be_defined(p, 4 * var_len(nc, v), "nc_put_var_int"); return __real_nc_put_var_int(nc, v, p); }
int __wrap_nc_put_var_text(int nc, int v, const char* p) { must_be_addressable(p, var_len(nc, v), "nc_put_var_text"); return __real_nc_put_var_text(nc, v, p); }
}

template <class T> static void defined(const T& x, const char* who) { must_be_defined(x.data(), sizeof(*x.data()) * x.size(), who); }
static void touch(Booz_xform& b) {
#define T(x) defined(b.x, #x);
#define S(x) must_be_defined(&b.x, sizeof b.x, #x);
  S(asym) S(nfp) S(mpol) S(ntor) S(mnmax) S(mpol_nyq) S(ntor_nyq) S(mnmax_nyq) S(ns_in) S(mboz) S(nboz) S(aspect) S(toroidal_flux) S(ns_b) S(mnboz) S(verbose)
  T(xm) T(xn) T(xm_nyq) T(xn_nyq) T(compute_surfs) T(s_in) T(iota) T(phi) T(phip) T(chi) T(pres)
  T(rmnc) T(rmns) T(zmnc) T(zmns) T(lmnc) T(lmns) T(bmnc) T(bmns) T(bsubumnc) T(bsubumns) T(bsubvmnc) T(bsubvmns)
  T(s_b) T(xm_b) T(xn_b) T(bmnc_b) T(bmns_b) T(gmnc_b) T(gmns_b) T(rmnc_b) T(rmns_b) T(zmnc_b) T(zmns_b) T(numnc_b) T(numns_b)
  T(Boozer_G) T(Boozer_G_all) T(Boozer_I) T(Boozer_I_all)
#undef T
#undef S
}

static int one(const char* path) {
  Items c = read_items(path);
  std::istringstream steps(get_str(c, "steps"));
  Booz_xform* b = new Booz_xform();
  b->verbose = 0;
  touch(*b);
  std::string line;
  int done = 0, threw = 0;
  bool dirty = false;
  while (std::getline(steps, line)) {
    std::istringstream s(line);
    std::string op, f;
    s >> op;
    std::fprintf(stderr, "step %s\n", line.c_str());
    bool ok = true;
    try {
      if (op == "assign") { s >> f; assign(*b, read_items(f.c_str())); }
      else if (op == "vmec") {
        int flux = 0;
        s >> f >> flux;
        Items m = read_items(f.c_str());
        assign(*b, m);
        Vector iotas = get_vec(m, "iotas"), phip = get_vec(m, "a_phipf"), chi = get_vec(m, "a_chi"), pres = get_vec(m, "a_pres"), phi = get_vec(m, "a_phi");
        Matrix a[12];
        const char* names[12] = {"rmnc", "rmns", "zmnc", "zmns", "lmnc", "lmns", "bmnc", "bmns", "bsubumnc", "bsubumns", "bsubvmnc", "bsubvmns"};
        for (int j = 0; j < 12; j++) a[j] = get_mat(m, (std::string("a_") + names[j]).c_str());
        int ns = get_int(m, "ns");
        if (flux)
          b->init_from_vmec(ns, iotas, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], phip, chi, pres, phi);
        else
          b->init_from_vmec(ns, iotas, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
      }
      else if (op == "run") b->run();
      else if (op == "write") { s >> f; b->write_boozmn(f); }
      else if (op == "read_wout") { bool flux; s >> flux >> f; b->read_wout(f, flux); }
      else if (op == "read_boozmn") { s >> f; b->read_boozmn(f); }
      else if (op == "verbose") s >> b->verbose;
      else if (op == "res") s >> b->mboz >> b->nboz;
      else if (op == "nfp") s >> b->nfp;
      else if (op == "xn") {             // one entry of a table of toroidal mode numbers
        int which, k, v;
        s >> which >> k >> v;
        IntVector& t = which ? b->xn_nyq : b->xn;
        if (t.size()) t[k % t.size()] = v;
      }
      else if (op == "surfs") {
        std::vector<int> v; int k;
        while (s >> k) v.push_back(k);
        b->compute_surfs.resize(v.size());
        for (size_t j = 0; j < v.size(); j++) b->compute_surfs[j] = v[j];
      }
      else if (op == "copy") { Booz_xform* d = new Booz_xform(*b); delete b; b = d; }
      else if (op == "new") { delete b; b = new Booz_xform(); b->verbose = 0; }
      else { std::fprintf(stderr, "unknown step\n"); _exit(92); }
    } catch (const std::exception& e) {
      ok = false;
      std::fprintf(stderr, "  exception: %s\n", e.what());
    }
    done++;
    threw += !ok;
    // everything must be defined until a call has failed; then the arrays it left may not be
    dirty |= !ok;
    if (op == "new") dirty = false;
    if (!dirty) touch(*b);
    leave_if_bad();
  }
  delete b;
  leave_if_bad();
  std::fprintf(stderr, "done %d steps, %d exceptions\n", done, threw);
  return 0;
}

int main(int argc, char** argv) {
  if (argc > 1) return one(argv[1]);
  std::signal(SIGPIPE, SIG_DFL);
  char line[2048], cf[1024], ef[1024];
  while (std::fgets(line, sizeof line, stdin)) {
    if (std::sscanf(line, "%1023s %1023s", cf, ef) != 2) break;
    pid_t p = fork();
    if (p == 0) {
      int e = open(ef, O_WRONLY | O_CREAT | O_TRUNC, 0600), n = open("/dev/null", O_RDWR);
      dup2(n, 0); dup2(n, 1); dup2(e, 2);
      alarm(ALARM_S);
      struct rlimit nocore = {0, 0};
      setrlimit(RLIMIT_CORE, &nocore);
      int r = one(cf);
      std::fflush(stdout);
      _exit(r);
    }
    int status = 0;
    waitpid(p, &status, 0);
    std::printf("STATUS %d\n", status);
    std::fflush(stdout);
  }
  return 0;
}
