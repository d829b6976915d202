#pragma once
#include "expr.h"
// 1 sat (values of syms in out), -1 unsat, 0 undecided within the propagation limit
int blastCheck(const std::vector<const Expr*>& cs, Model& out, uint64_t propLimit, uint64_t resetVars, const std::vector<const Expr*>& syms);
extern uint64_t g_picoQueries;
