#pragma once
#include "vp.h"
// Accounting allocator installed through the library's allocator hooks (and
// GMP's, for memory the library holds in integers).  Nothing that was
// allocated by the library before the scope may be released inside it.
struct AllocTrack {
  AllocTrack(); ~AllocTrack();
  size_t live() const;       // library blocks outstanding
  size_t gmp_live() const;   // GMP blocks outstanding (allocated inside the scope)
  void check(const string& when) const;  // fails on a misuse (unknown or repeated release)
  // fails when library or GMP blocks are outstanding beyond the marks
  void balanced(const string& when, size_t lib = 0, size_t gmp = 0) const;
};
