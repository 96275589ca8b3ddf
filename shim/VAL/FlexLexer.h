#ifndef VALSHIM_FLEXLEXER_H_
#define VALSHIM_FLEXLEXER_H_
#include <iostream>
class yyFlexLexer {
 public:
  std::istream* in = nullptr;
  virtual ~yyFlexLexer() {}
  virtual void switch_streams(std::istream* i, std::ostream*) { in = i; }
};
#endif
