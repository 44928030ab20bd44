// C10: runs one configuration under many schedules; compares outputs bitwise with one thread.
//   threads ITEMS OUT   ITEMS holds the inputs and "plan" (int rows: threads, seed, delays, verbose)
#include <atomic>
#include <iostream>
#include <streambuf>
#include "natio.hpp"
extern "C" void shim_configure(int, uint64_t, int);
extern "C" void shim_point(void);
using namespace booz_xform;

// Collects what is printed, without creating any happens-before edge between the writers.
class Tape : public std::streambuf {
 public:
  static const long N = 1 << 22;
  std::atomic<char>* buf = new std::atomic<char>[N]();
  std::atomic<long> pos{0};
  int_type overflow(int_type c) override {
    if (c != traits_type::eof()) put((char)c);
    return c == traits_type::eof() ? 0 : c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    for (std::streamsize i = 0; i < n; i++) put(s[i]);
    shim_point();
    return n;
  }
  std::string text() {
    std::string s;
    long n = pos.load();
    for (long i = 0; i < n && i < N; i++) s.push_back(buf[i].load(std::memory_order_relaxed));
    pos = 0;
    return s;
  }
 private:
  void put(char c) {
    long k = pos.fetch_add(1, std::memory_order_relaxed);
    if (k < N) buf[k].store(c, std::memory_order_relaxed);
  }
};

template <class T> static bool same(const T& x, const T& y) {
  return x.rows() == y.rows() && x.cols() == y.cols() &&
         (x.size() == 0 || !std::memcmp(x.data(), y.data(), sizeof(*x.data()) * x.size()));
}

int main(int argc, char** argv) {
  Items m = read_items(argv[1]);
  FILE* out = std::fopen(argv[2], "wb");
  IntVector plan = get_ivec(m, "plan");
  Tape tape;
  std::streambuf* old = std::cout.rdbuf(&tape);
  Booz_xform ref;
  int bad = 0;
  Booz_xform used;
  assign(used, m);
  for (int k = 0; k + 3 < plan.size(); k += 4) {
    shim_configure(plan[k], plan[k + 1], plan[k + 2]);
    Booz_xform fresh;
    Booz_xform& b = (plan[k + 1] & 1) ? used : fresh;
    if (&b == &fresh) assign(b, m);
    b.verbose = plan[k + 3];
    std::string err;
    try { b.run(); } catch (const std::exception& e) { err = e.what(); }
    std::string t = tape.text();
    std::fprintf(out, "RUN %d %ld %ld\n", k / 4, (long)t.size(), (long)err.size());
    std::fwrite(t.data(), 1, t.size(), out);
    std::fwrite(err.data(), 1, err.size(), out);
    std::fprintf(out, "\n");
    if (k == 0) { ref = b; continue; }
#define S(x) if (!same(b.x, ref.x)) { std::fprintf(out, "DIFF %d %s\n", k / 4, #x); bad = 1; }
    S(bmnc_b) S(bmns_b) S(rmnc_b) S(rmns_b) S(zmnc_b) S(zmns_b) S(numnc_b) S(numns_b) S(gmnc_b) S(gmns_b)
    S(Boozer_G) S(Boozer_I) S(Boozer_G_all) S(Boozer_I_all) S(s_b) S(xm_b) S(xn_b)
  }
  std::fprintf(out, "END\n");
  std::fclose(out);
  std::cout.rdbuf(old);
  return bad;
}
