// Opaque element type: only declared, so every use goes through its contract (ghost liveness + ghost value).
#pragma once
#include <cstddef>
#include <cstdint>
struct Obj {
  long v;
  long w;
  Obj();
  explicit Obj(long x);
  Obj(const Obj&);
  Obj(Obj&&);
  Obj& operator=(const Obj&);
  Obj& operator=(Obj&&);
  ~Obj();
};
bool operator==(const Obj&, const Obj&);
#define LAYOUT1(name, cls, a) extern "C" const long K_##name[] = {(long)sizeof(cls), (long)offsetof(cls, a)};
#define LAYOUT3(name, cls, a, b, c) extern "C" const long K_##name[] = {(long)sizeof(cls), (long)offsetof(cls, a), (long)offsetof(cls, b), (long)offsetof(cls, c)};
