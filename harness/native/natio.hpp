// Loads the input attributes of a Booz_xform object from a small file (see native.py).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include "booz_xform.hpp"

struct Item { char type; int rows, cols; std::vector<char> data; };
typedef std::map<std::string, Item> Items;

inline Items read_items(const char* path) {
  Items out;
  FILE* f = std::fopen(path, "rb");
  if (!f) { std::fprintf(stderr, "cannot open %s\n", path); std::exit(90); }
  char line[256];
  while (std::fgets(line, sizeof line, f)) {
    char name[128], t; int r, c; long bytes;
    if (std::sscanf(line, "%127s %c %d %d %ld", name, &t, &r, &c, &bytes) != 5) break;
    Item it{t, r, c, std::vector<char>(bytes)};
    if (bytes && std::fread(it.data.data(), 1, bytes, f) != (size_t)bytes) std::exit(91);
    std::fgetc(f);
    out[name] = it;
  }
  std::fclose(f);
  return out;
}

inline int get_int(const Items& m, const char* k, int def = 0) {
  auto p = m.find(k);
  if (p == m.end()) return def;
  int v; std::memcpy(&v, p->second.data.data(), 4); return v;
}
inline double get_double(const Items& m, const char* k, double def = 0) {
  auto p = m.find(k);
  if (p == m.end()) return def;
  double v; std::memcpy(&v, p->second.data.data(), 8); return v;
}
inline std::string get_str(const Items& m, const char* k) {
  auto p = m.find(k);
  return p == m.end() ? std::string() : std::string(p->second.data.begin(), p->second.data.end());
}
inline booz_xform::IntVector get_ivec(const Items& m, const char* k) {
  auto p = m.find(k);
  booz_xform::IntVector v;
  if (p == m.end()) return v;
  v.resize(p->second.rows);
  for (int j = 0; j < v.size(); j++) std::memcpy(&v[j], p->second.data.data() + 4 * j, 4);
  return v;
}
inline booz_xform::Vector get_vec(const Items& m, const char* k) {
  auto p = m.find(k);
  booz_xform::Vector v;
  if (p == m.end()) return v;
  v.resize(p->second.rows);
  for (int j = 0; j < v.size(); j++) std::memcpy(&v[j], p->second.data.data() + 8 * j, 8);
  return v;
}
inline booz_xform::Matrix get_mat(const Items& m, const char* k) {
  auto p = m.find(k);
  booz_xform::Matrix v;
  if (p == m.end()) return v;
  v.resize(p->second.rows, p->second.cols);
  long q = 0;
  for (int j = 0; j < v.cols(); j++)
    for (int i = 0; i < v.rows(); i++, q++) std::memcpy(&v(i, j), p->second.data.data() + 8 * q, 8);
  return v;
}

inline void assign(booz_xform::Booz_xform& b, const Items& m) {
#define I(x) if (m.count(#x)) b.x = get_int(m, #x);
#define D(x) if (m.count(#x)) b.x = get_double(m, #x);
#define IV(x) if (m.count(#x)) b.x = get_ivec(m, #x);
#define V(x) if (m.count(#x)) b.x = get_vec(m, #x);
#define M(x) if (m.count(#x)) b.x = get_mat(m, #x);
  I(verbose) I(asym) I(nfp) I(mpol) I(ntor) I(mnmax) I(mpol_nyq) I(ntor_nyq) I(mnmax_nyq) I(ns_in) I(mboz) I(nboz)
  D(aspect) D(toroidal_flux)
  IV(xm) IV(xn) IV(xm_nyq) IV(xn_nyq) IV(compute_surfs)
  V(s_in) V(iota) V(phi) V(phip) V(chi) V(pres)
  M(rmnc) M(rmns) M(zmnc) M(zmns) M(lmnc) M(lmns) M(bmnc) M(bmns) M(bsubumnc) M(bsubumns) M(bsubvmnc) M(bsubvmns)
#undef I
#undef D
#undef IV
#undef V
#undef M
}
