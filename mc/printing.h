// What printing a tree must write, from the reference tree alone.
#pragma once
#include "model.h"
static inline void want_print(const T& t, int indent, bool kv, Str& out) {
  for (auto& e : t.k) {
    out += Str(indent + 2, ' ') + e.first;
    if (kv && e.second.k.size() == 1 && e.second.k[0].second.k.empty()) { out += " = " + e.second.k[0].first + "\n"; continue; }
    out += "\n"; want_print(e.second, indent + 2, kv, out);
  }
}
static inline Str want_print(const T& t, int indent, bool kv) { Str s; want_print(t, indent, kv, s); return s; }
// all ordered trees with exactly n entries; entries numbered in pre-order
static inline void shapes(int n, std::vector<T>& out) {
  // forests: first tree takes k entries below it
  if (n == 0) { out.push_back(T()); return; }
  for (int k = 0; k < n; k++) { std::vector<T> a, b; shapes(k, a); shapes(n - 1 - k, b); for (auto& x : a) for (auto& y : b) { T t; t.k.push_back({"", x}); for (auto& e : y.k) t.k.push_back(e); out.push_back(t); } }
}
static inline void label(T& t, const std::function<Str(int)>& name, int& c) { for (auto& e : t.k) { e.first = name(c++); label(e.second, name, c); } }
