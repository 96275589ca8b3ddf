// Helpers of the demonstrations: a task on the VAL stand-in beside this file.
#pragma once
#include <cstdio>
#include <iostream>
#include <set>
#include <string>
#include <vector>
#include "symbolic/normal_form.h"
#include "symbolic/pddl.h"
#include "symbolic/planning/a_star.h"
#include "symbolic/planning/breadth_first_search.h"
#include "symbolic/planning/depth_first_search.h"
#include "symbolic/planning/planner.h"
#include "symbolic/utils/parameter_generator.h"
#include "valshim.h"
using namespace symbolic;
static int fails = 0;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); fails++; } } while (0)
typedef std::set<std::string> Strings;
static Pddl* task(const std::string& domain, const std::string& problem, bool axioms = true) {
  valshim::inlineFile("<domain>", domain);
  valshim::inlineFile("<pddl string>", problem);
  return new Pddl("<domain>", problem, axioms);
}
static Strings text(const State& s) { return Stringify(s); }
