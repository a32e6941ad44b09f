// Event data that may not be copied bitwise (it refers to itself, as a string or a
// list node does): every copy is made from a living object by its own operations.
#include <mc.h>
struct Obj {
  long v;
  const Obj *self;
  void alive(const char *what) const { MC_CHECK(self == this, "bitwise-copy", "%s of an event whose data was not copied by its own operations", what); }
  Obj(long x = 0) : v(x), self(this) {}
  Obj(const Obj &o) : v(o.v), self(this) { o.alive("copy"); }
  Obj &operator=(const Obj &o) { alive("assignment"); o.alive("copy"); v = o.v; return *this; }
  ~Obj() { alive("destruction"); self = 0; }
  bool operator==(const Obj &o) const { alive("comparison"); o.alive("comparison"); return v == o.v; }
};
