#pragma once
#include "pairings.h"
#include "ternary.h"
#include "polys.h"
// Any algebraic structure of the library behind one interface.
struct St {
  field_ptr f = nullptr; string desc, kind;
  bool bytes = true, text = true, hash = true, point = false, uniform = false, ops = true;
  Z order = 0;                                       // annihilates every hashed or random member when not 0
  Z size = 0;                                        // number of elements when known (0: infinite/unknown)
  std::function<void(Case&, element_ptr)> gen;       // edge-biased element
  std::function<string(element_ptr)> key;            // canonical value
  std::function<string(element_ptr)> bad;            // "" when the element is a valid member
  Fldp K; RC R;                                      // points: coordinate field model and curve
  RFp tern; int tlev = 0; unsigned tm = 0;            // ternary fields: model, level of the tower, degree
  Pgp G; int which = -1;
  vector<std::shared_ptr<void>> keep;
};
typedef std::shared_ptr<St> Stp;
enum { SK_PRIME = 1, SK_EXT = 2, SK_Z = 4, SK_POLY = 8, SK_CURVE = 16, SK_TERN = 32, SK_PAIR = 64, SK_ALL = 127 };
Stp gen_struct(Case& c, int kinds = SK_ALL, unsigned maxbits = 300);
Stp st_field(Fldp F);
Stp st_curve(Cvp C);
Stp st_pairing(Pgp G, int which);
