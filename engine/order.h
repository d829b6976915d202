#pragma once
#include "expr.h"
#include <unordered_set>
#include <functional>
struct OrderRed { bool unsat = false; std::unordered_map<const Expr*, std::pair<const Expr*, size_t>> symMap; std::unordered_set<uint32_t> symIds; std::vector<std::vector<u128>> reps_;
  bool reduce(const std::vector<const Expr*>& cs, std::vector<const Expr*>& out); void back(Model& m); };
