// Meaning-preserving rewritings of a problem (the answer, not the models, is preserved).
#pragma once
#include "base.h"
#include "gen.h"
Problem xform(Rng &r, const Problem &p, str &what);
