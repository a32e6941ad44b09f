#ifndef BIGDATA_H
#define BIGDATA_H
struct BigData { long a[7]; BigData(long x = 0) { for (int i = 0; i < 7; i++) a[i] = i == 0 ? x : i == 6 ? -x - 1 : 0; }
  bool operator==(const BigData &o) const { for (int i = 0; i < 7; i++) if (a[i] != o.a[i]) return false; return true; } };
#endif
