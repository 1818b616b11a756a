// Solver configuration of a harness, selected with --param switches (defaults = the shipped defaults).
#pragma once
#include "candy/frontend/CLIOptions.h"
#include "candy/frontend/CandyBuilder.h"
#include "sym.h"
static inline void configure() {
  using namespace Candy;
  SolverOptions::verb = 0;
  SolverOptions::opt_preprocessing = sym_iparam("PRE", 1) != 0;
  VariableEliminationOptions::opt_use_elim = sym_iparam("ELIM", 1) != 0;
  VariableEliminationOptions::opt_use_asymm = sym_iparam("ASYMM", 0) != 0;
  if (sym_iparam("CLLIM", -1) >= 0) VariableEliminationOptions::opt_clause_lim = sym_iparam("CLLIM", 20);
  SolverOptions::opt_inprocessing = sym_iparam("INPROC", 0);
  if (int n = sym_iparam("FASTREDUCE", 0)) { ClauseDatabaseOptions::opt_persistent_lbd = sym_iparam("PLBD", 0); ClauseDatabaseOptions::opt_first_reduce_db = n; ClauseDatabaseOptions::opt_inc_reduce_db = sym_iparam("INCREDUCE", 1); }
  if (int n = sym_iparam("FASTRESTART", 0)) { SolverOptions::opt_size_lbd_queue = n; SolverOptions::opt_size_trail_queue = n; SolverOptions::opt_K = 1.0; }
  SolverOptions::opt_sort_variables = sym_iparam("SORTV", 0) != 0;
  ClauseDatabaseOptions::opt_keep_median_lbd = sym_iparam("MEDIAN", 0) != 0;
  ClauseDatabaseOptions::opt_recalculate_lbd = sym_iparam("RECALC", 1) != 0;
  SolverOptions::opt_vsids_extra_bump = sym_iparam("EXTRABUMP", 0) != 0;
}
static inline Candy::CandySolverInterface* makeSolver() { return Candy::createSolver(sym_iparam("STATICP", 0), sym_iparam("LRB", 0), false, sym_iparam("RSIL", 0), sym_iparam("ADVICE", 3)); }
