#pragma once
#include "fields.h"
struct Ring { field_t f; Fldp b; ~Ring() { field_clear(f); } explicit Ring(Fldp b_) : b(b_) { field_init_poly(f, b_->f); } };
P gen_poly(Case& c, const RF& k, int maxdeg);
P getp(element_ptr e, const Fld& B);
void putp(element_ptr e, const Fld& B, const P& p);
