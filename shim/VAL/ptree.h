// Model of the parse tree of the VAL library (an absent third-party dependency of /repo).
// Only the shape /repo relies on: names, types, goals, effects, operators, domain, problem.
// Trees are produced by valshim.cpp (a plain PDDL reader) or built directly by a harness.
#ifndef VALSHIM_PTREE_H_
#define VALSHIM_PTREE_H_
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>
using std::ostream;  // as VAL headers do
using std::string;
using std::endl;
extern int line_no;
extern const char* current_filename;
namespace VAL {
class parse_category {
 public:
  virtual ~parse_category() {}
  virtual void display(int) const {}
};
template <class T>
class pc_list : public std::list<T>, public parse_category {};

class symbol : public parse_category {
 protected:
  std::string name;
 public:
  symbol() {}
  explicit symbol(const std::string& s) : name(s) {}
  const std::string& getNameRef() const { return name; }
  std::string getName() const { return name; }
};
class pred_symbol : public symbol { public: using symbol::symbol; };
class func_symbol : public symbol { public: using symbol::symbol; };
class operator_symbol : public symbol { public: using symbol::symbol; };
class pddl_type;
template <class T>
class typed_symbol_list : public pc_list<T*> {};
typedef typed_symbol_list<pddl_type> pddl_type_list;
class pddl_typed_symbol : public symbol {
 public:
  pddl_type* type = nullptr;
  pddl_type_list* either_types = nullptr;
  pddl_typed_symbol() {}
  explicit pddl_typed_symbol(const std::string& s) : symbol(s) {}
};
class parameter_symbol : public pddl_typed_symbol { public: parameter_symbol() {} explicit parameter_symbol(const std::string& s) : pddl_typed_symbol(s) {} };
class var_symbol : public parameter_symbol { public: var_symbol() {} explicit var_symbol(const std::string& s) : parameter_symbol(s) {} };
class const_symbol : public parameter_symbol { public: const_symbol() {} explicit const_symbol(const std::string& s) : parameter_symbol(s) {} };
class pddl_type : public pddl_typed_symbol { public: pddl_type() {} explicit pddl_type(const std::string& s) : pddl_typed_symbol(s) {} };
typedef typed_symbol_list<parameter_symbol> parameter_symbol_list;
typedef typed_symbol_list<var_symbol> var_symbol_list;
typedef typed_symbol_list<const_symbol> const_symbol_list;

class proposition : public parse_category {
 public:
  pred_symbol* head;
  parameter_symbol_list* args;
  proposition(pred_symbol* h, parameter_symbol_list* a) : head(h), args(a) {}
};
class pred_decl : public parse_category {
  pred_symbol* head;
  var_symbol_list* args;
 public:
  pred_decl(pred_symbol* h, var_symbol_list* a) : head(h), args(a) {}
  const pred_symbol* getPred() const { return head; }
  const var_symbol_list* getArgs() const { return args; }
};
typedef pc_list<pred_decl*> pred_decl_list;

enum quantifier { E_FORALL, E_EXISTS };
enum polarity { E_NEG, E_POS };
class goal : public parse_category {};
typedef pc_list<goal*> goal_list_base;
class goal_list : public pc_list<goal*> {};
class con_goal : public goal {};
class constraint_goal : public con_goal {};
class preference : public con_goal {};
class timed_goal : public goal {};
class comparison : public goal {};
class simple_goal : public goal {
  polarity plrty;
  proposition* prop;
 public:
  simple_goal(proposition* p, polarity pol = E_POS) : plrty(pol), prop(p) {}
  const proposition* getProp() const { return prop; }
  polarity getPolarity() const { return plrty; }
};
class conj_goal : public goal {
  goal_list* goals;
 public:
  explicit conj_goal(goal_list* g) : goals(g) {}
  const goal_list* getGoals() const { return goals; }
};
class disj_goal : public goal {
  goal_list* goals;
 public:
  explicit disj_goal(goal_list* g) : goals(g) {}
  const goal_list* getGoals() const { return goals; }
};
class imply_goal : public goal {
  goal *lhs, *rhs;
 public:
  imply_goal(goal* l, goal* r) : lhs(l), rhs(r) {}
  const goal* getAntecedent() const { return lhs; }
  const goal* getConsequent() const { return rhs; }
};
class neg_goal : public goal {
  goal* gl;
 public:
  explicit neg_goal(goal* g) : gl(g) {}
  const goal* getGoal() const { return gl; }
};
class qfied_goal : public goal {
  quantifier qfier;
  var_symbol_list* vars;
  goal* gl;
 public:
  qfied_goal(quantifier q, var_symbol_list* v, goal* g) : qfier(q), vars(v), gl(g) {}
  quantifier getQuantifier() const { return qfier; }
  const var_symbol_list* getVars() const { return vars; }
  const goal* getGoal() const { return gl; }
};

class effect : public parse_category {};
class effect_lists;
class simple_effect : public effect {
 public:
  proposition* prop;
  explicit simple_effect(proposition* p) : prop(p) {}
};
class forall_effect : public effect {
  effect_lists* operand;
  var_symbol_list* vars;
 public:
  forall_effect(effect_lists* e, var_symbol_list* v) : operand(e), vars(v) {}
  const var_symbol_list* getVarsList() const { return vars; }
  const effect_lists* getEffects() const { return operand; }
};
class cond_effect : public effect {
  goal* condition;
  effect_lists* effects;
 public:
  cond_effect(goal* g, effect_lists* e) : condition(g), effects(e) {}
  const goal* getCondition() const { return condition; }
  const effect_lists* getEffects() const { return effects; }
};
class effect_lists : public parse_category {
 public:
  pc_list<simple_effect*> add_effects;
  pc_list<simple_effect*> del_effects;
  pc_list<forall_effect*> forall_effects;
  pc_list<cond_effect*> cond_effects;
};

class operator_ : public parse_category {
 public:
  operator_symbol* name = nullptr;
  var_symbol_list* parameters = nullptr;
  goal* precondition = nullptr;
  effect_lists* effects = nullptr;
};
class action : public operator_ {};
class axiom : public operator_ {};
typedef pc_list<operator_*> operator_list;
class derivation_rule : public parse_category {
  proposition* head;
  goal* body;
 public:
  derivation_rule(proposition* h, goal* b) : head(h), body(b) {}
  const proposition* get_head() const { return head; }
  const goal* get_body() const { return body; }
};
typedef pc_list<derivation_rule*> derivations_list;

typedef unsigned long pddl_req_flag;
inline std::string pddl_req_flags_string(pddl_req_flag) { return ""; }
class domain : public parse_category {
 public:
  std::string name;
  pddl_req_flag req = 0;
  pddl_type_list* types = nullptr;
  const_symbol_list* constants = nullptr;
  pred_decl_list* predicates = nullptr;
  operator_list* ops = nullptr;
  derivations_list* drvs = nullptr;
};
class problem : public parse_category {
 public:
  std::string name;
  std::string domain_name;
  pddl_req_flag req = 0;
  const_symbol_list* objects = nullptr;
  effect_lists* initial_state = nullptr;
  goal* the_goal = nullptr;
};
class parse_error_list {
 public:
  int reports = 0;
  void report() { reports++; }
};
class analysis {
 public:
  domain* the_domain = nullptr;
  problem* the_problem = nullptr;
  parse_error_list error_list;
};
}  // namespace VAL
#endif
