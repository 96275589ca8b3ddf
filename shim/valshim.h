// Harness side of the VAL stand-in.
#pragma once
#include <string>
#include "VAL/ptree.h"
namespace valshim {
// Text served for a file name instead of the file itself.
void inlineFile(const std::string& name, const std::string& text);
// A goal read from text; variables are resolved in `scope` (innermost last), constants in a.
struct Scope {
  const VAL::analysis* a = nullptr;
  std::vector<VAL::var_symbol*> vars;
  bool unmarked = false;  // also accept variables of the scope without their '?'
};
VAL::goal* parseGoal(const std::string& text, const Scope& s);  // nullptr if ill-formed
VAL::effect_lists* parseEffects(const std::string& text, const Scope& s);
}
