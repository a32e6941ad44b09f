// Shared by all harnesses.
#ifndef HARNESS_COMMON_H
#define HARNESS_COMMON_H
#include <new>
#include <cstring>
#include <cstdio>
#include <cstdint>
#include <ctime>
#include <pthread.h>
#include <sched.h>
#include <mc.h>
#ifndef NB
#define NB 2
#endif
// Data type whose copy is a separate access from the copy of the timestamp, so
// that an Event copy is not one indivisible step for the explorer.
struct Sym {
  int v;
  Sym() : v(0) {}
  Sym(int x) : v(x) {}
  Sym(const Sym &o) : v(o.v) {}
  Sym &operator=(const Sym &o) { v = o.v; return *this; }
  bool operator==(const Sym &o) const { return v == o.v; }
  operator int() const { return v; }
  friend bool operator==(const Sym &a, unsigned p) { return a.v == (int)p; }
};
// raw storage for objects built in mc_setup; like memory that was used before, it
// does not hold zeros, so that a member nobody initialises is seen
template <typename T> struct Box {
  alignas(T) alignas(16) unsigned char raw[sizeof(T)];
  Box() { memset(raw, 0xa5, sizeof raw); }
  T *p() { return (T *)raw; }
  T &operator*() { return *p(); }
  T *operator->() { return p(); }
};
#endif
