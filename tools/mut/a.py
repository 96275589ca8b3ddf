SH="include/symbolic/state.h"; SC="src/state.cc"; PH="include/symbolic/proposition.h"; HS="include/symbolic/utils/hash_set.h"
UV="include/symbolic/utils/unique_vector.h"; CG="include/symbolic/utils/combination_generator.h"; PG="src/utils/parameter_generator.cc"; OC="src/object.cc"
M=[
("ps-less-or","P07",[(SH,"return std::tie(lhs.pos_, lhs.neg_) < std::tie(rhs.pos_, rhs.neg_);","return lhs.pos_ < rhs.pos_ || lhs.neg_ < rhs.neg_;")]),
("ps-ne-and","P07",[(SH,"return lhs.pos_ != rhs.pos_ || lhs.neg_ != rhs.neg_;","return lhs.pos_ != rhs.pos_ && lhs.neg_ != rhs.neg_;")]),
("prop-less-size","P08",[(PH,"    return std::tie(lhs.name(), lhs.arguments()) <\n           std::tie(rhs.name(), rhs.arguments());","    if (lhs.arguments().size() != rhs.arguments().size()) return lhs.arguments().size() < rhs.arguments().size();\n    return std::tie(lhs.name(), lhs.arguments()) <\n           std::tie(rhs.name(), rhs.arguments());")]),
("prop-eq-hashonly","P08",[(PH,"    return std::tie(lhs.hash_, lhs.name(), lhs.arguments()) ==\n           std::tie(rhs.hash_, rhs.name(), rhs.arguments());","    return lhs.hash_ == rhs.hash_ && lhs.name() == rhs.name() && lhs.arguments().size() == rhs.arguments().size();")]),
("prop-hash-xor","P08 P06",[("src/proposition.cc","    seed ^= std::hash<Object>{}(arg) + kHashOffset + (seed << kHashL) +\n            (seed >> kHashR);","    seed ^= std::hash<Object>{}(arg);")]),
("listtypes-dup","P14",[(OC,"  if (types.empty() || types.back() != kDefaultType) {\n    types.push_back(kDefaultType);\n  }","  types.push_back(kDefaultType);")]),
("subtype-noroot","P14",[(OC,"  if (type == kDefaultType) return true;\n","")]),
("idx-le","P10",[(SH,"return state_index_ == rhs.state_index_ && idx_ <= rhs.idx_;","return state_index_ == rhs.state_index_ && idx_ < rhs.idx_;")]),
("idx-postinc","P10",[(SH,"    iterator operator++(int) {\n      iterator it = *this;\n      operator++();\n      return it;","    iterator operator++(int) {\n      operator++();\n      return *this;")]),
("idx-arrow","P10",[(SH,"    pointer operator->() const {\n      prop_ = state_index_->GetProposition(idx_);\n      return &prop_;","    pointer operator->() const {\n      if (prop_.name().empty()) prop_ = state_index_->GetProposition(idx_);\n      return &prop_;")]),
("idx-key-name","P10",[(SC,"cache_idx_propositions_.find(prop.to_string())","cache_idx_propositions_.find(prop.name() + prop.arguments().front().name())"),(SC,"cache_idx_propositions_[prop.to_string()]","cache_idx_propositions_[prop.name() + prop.arguments().front().name()]")]),
("idx-key-sorted","P10",[(SC,"    const auto it = cache_idx_propositions_.find(prop.to_string());","    std::vector<std::string> k; for (const Object& o : prop.arguments()) k.push_back(o.name());\n    std::sort(k.begin(), k.end()); std::string key = prop.name(); for (auto& s : k) key += \",\" + s;\n    const auto it = cache_idx_propositions_.find(key);"),(SC,"    cache_idx_propositions_[prop.to_string()] = idx_proposition;","    std::vector<std::string> k; for (const Object& o : prop.arguments()) k.push_back(o.name());\n    std::sort(k.begin(), k.end()); std::string key = prop.name(); for (auto& s : k) key += \",\" + s;\n    cache_idx_propositions_[key] = idx_proposition;")]),
("getstate-last","P11",[(SC,"for (size_t i = 0; i < indexed_state.size(); i++) {\n    if","for (size_t i = 0; i + 1 < indexed_state.size(); i++) {\n    if")]),
("getindexed-assign","P11",[(SC,"    indexed_state[idx_prop] = true;","    indexed_state[idx_prop] = !indexed_state[idx_prop];")]),
("hs-size-move","P06",[(HS,"    const bool inserted = GetBucket(element).insert(std::move(element));\n    if (inserted) {\n      size_++;\n      if (size() > buckets_.size()) Rehash(UpperBound());\n    }","    const bool inserted = GetBucket(element).insert(std::move(element));\n    size_++;\n    if (size() > buckets_.size()) Rehash(UpperBound());")]),
("hs-move-rehash-ge","P07",[(HS,"bool insert(T&& element) {\n    const bool inserted = GetBucket(element).insert(std::move(element));\n    if (inserted) {\n      size_++;\n      if (size() > buckets_.size()) Rehash(UpperBound());","bool insert(T&& element) {\n    const bool inserted = GetBucket(element).insert(std::move(element));\n    if (inserted) {\n      size_++;\n      if (size() >= buckets_.size()) Rehash(UpperBound());")]),
("hs-eq-size","P07",[(HS,"    return lhs.buckets_ == rhs.buckets_;","    return lhs.size_ == rhs.size_ && std::equal(lhs.begin(), lhs.end(), rhs.begin());")]),
("hs-less-size","P07",[(HS,"    return lhs.buckets_ < rhs.buckets_;","    if (lhs.size_ != rhs.size_) return lhs.size_ < rhs.size_;\n    return lhs.buckets_ < rhs.buckets_;")]),
("hs-rehash-skip","P06",[(HS,"        GetBucket(element).insert(std::move(element));\n      }","        UniqueVector<T>& b = GetBucket(element);\n        if (b.empty() || b.back() < element) b.push_back(std::move(element)); else b.std::template vector<T>::insert(b.begin(), std::move(element));\n      }")]),
("hs-end-size","P06",[(HS,"const_iterator operator--(int) {\n      const_iterator it = *this;\n      operator--();","const_iterator operator--(int) {\n      const_iterator it = *this;\n      idx_in_bucket_--;")]),
("uv-contains-upper","P05",[(UV,"  const auto it = std::lower_bound(Base::begin(), Base::end(), val);\n  return it != Base::end() && *it == val;","  const auto it = std::lower_bound(Base::begin(), Base::end(), val);\n  return it != Base::end();")]),
("uv-move-back","P05",[(UV,"  if (it != Base::end() && *it == val) return false;\n\n  Base::insert(it, std::move(val));","  if (it == Base::end()) { Base::push_back(std::move(val)); return true; }\n  if (*it == val) return false;\n  Base::insert(it + (val < *it ? 0 : 1), std::move(val));")]),
("uv-emplace-back","P05",[(UV,"    return insert(T(args...));","    if (Base::empty() || !(T(args...) < Base::back())) { Base::emplace_back(args...); return true; }\n    return insert(T(args...));")]),
("cg-outside-skip","P02",[(CG,"    if (idx_ >= gen_->size() || idx_ < 0) {\n      idx_ = idx_new;\n      UpdateCombination();\n      return;\n    }","")]),
("cg-outside-neg","P02",[(CG,"    if (idx_ >= gen_->size() || idx_ < 0) {\n      idx_ = idx_new;","    if (idx_ >= gen_->size()) {\n      idx_ = idx_new;")]),
("cg-clamp-end","P02",[(CG,"    if (idx_new >= gen_->size() || idx_new < 0) {\n      idx_ = idx_new;\n      return;","    if (idx_new >= gen_->size() || idx_new < 0) {\n      idx_ = idx_new < 0 ? -1 : gen_->size();\n      return;")]),
("cg-rev-diff","P02",[(CG,"return rhs.it_ - it_;","return it_ - rhs.it_;")]),
("cg-rev-le","P02",[(CG,"bool operator<=(const ReverseIterator& rhs) const { return it_ >= rhs.it_; }","bool operator<=(const ReverseIterator& rhs) const { return it_ > rhs.it_; }")]),
("cg-plus-n","P02",[(CG,"  friend Iterator operator+(difference_type n, const Iterator& it) {\n    return it + n;","  friend Iterator operator+(difference_type n, const Iterator& it) {\n    return it - n;")]),
("cg-postdec","P02",[(CG,"  Iterator operator--(int) {\n    Iterator it = *this;\n    operator--();\n    return it;","  Iterator operator--(int) {\n    Iterator it = *this;\n    operator+=(idx_ > 0 ? -1 : 0);\n    return it;")]),
("cg-sub","P02",[(CG,"  Iterator& operator-=(difference_type n) { return operator+=(-n); }","  Iterator& operator-=(difference_type n) { return operator+=(n > idx_ ? -idx_ : -n); }")]),
("cg-empty","P01",[(CG,"if (options[i]->begin() == options[i]->end()) {","if (i + 1 < options.size() && options[i]->begin() == options[i]->end()) {")]),
("cg-find-last","P03",[(CG,"for (size_t i = 0; i < combination.size(); i++) {\n      const typename","for (size_t i = 0; i < combination.size(); i++) {\n      if (size_groups_[i] == 1 && i + 1 < combination.size() && options_[i]->size() == 1) continue;\n      const typename")]),
("cg-at-type","P01",[(CG,"if (i >= size() || i < 0) {","if (i > static_cast<int>(size()) || i < 0) {")]),
("pg-moveassign","P04",[(PG,"  param_types_ = std::move(rhs.param_types_);\n  Base::operator=(Base(Options(param_types_)));","  param_types_ = std::move(rhs.param_types_);\n  Base::operator=(std::move(rhs));")]),
("pg-copyassign-pddl","P04",[(PG,"  if (this == &rhs) return *this;\n\n  pddl_ = rhs.pddl_;\n","  if (this == &rhs) return *this;\n\n")]),
("pg-types-skip","P04",[(PG,"      types.clear();\n      break;","      types.emplace_back();\n      break;")]),
("pg-types-noclear","P04",[(PG,"      types.clear();\n      break;","      break;")]),
("pg-early","P04",[(PG,"  param_types_ = rhs.param_types_;\n  Base::operator=(Base(Options(param_types_)));","  const bool same = param_types_.size() == rhs.param_types_.size();\n  param_types_ = rhs.param_types_;\n  if (!same) Base::operator=(Base(Options(param_types_)));")]),
("obj-hash-sym","P08",[("include/symbolic/object.h","","")]),
]
M.pop()
