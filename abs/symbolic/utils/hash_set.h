// Abstract set: the contract of symbolic::HashSet that P06 decides for the real one, with the
// presence of every element a (possibly symbolic) byte. Used as the state representation by the
// checks that quantify over all states; replays of counterexamples use the real HashSet.
#ifndef SYMBOLIC_UTILS_HASH_SET_H_
#define SYMBOLIC_UTILS_HASH_SET_H_
#define SYMX_ABSTRACT_SET 1
#include <algorithm>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <utility>
#include <vector>
#include "symbolic/utils/unique_vector.h"
inline unsigned char& symx_insert_mask() { static unsigned char m = 1; return m; }
namespace symbolic {
template <typename T>
class HashSet {
  struct Universe {
    std::vector<const T*> items;
    std::vector<size_t> hashes;
    template <class Q>
    int find(const Q& q) const {
      const size_t h = std::hash<Q>{}(q);
      for (size_t i = 0; i < items.size(); i++) if (hashes[i] == h && *items[i] == q) return (int)i;
      return -1;
    }
    template <class Q>
    int add(const Q& q) {
      int i = find(q);
      if (i >= 0) return i;
      items.push_back(new T(q));
      hashes.push_back(std::hash<Q>{}(q));
      return (int)items.size() - 1;
    }
  };
  static Universe& U() { static Universe* u = new Universe(); return *u; }
  std::vector<unsigned char> bits_;
  unsigned char at(size_t i) const { return i < bits_.size() ? bits_[i] : 0; }
  template <class Q>
  bool put(const Q& q) {
    const int i = U().add(q);
    if ((size_t)i >= bits_.size()) bits_.resize(U().items.size(), 0);
    const unsigned char m = symx_insert_mask();
    const bool changed = (bits_[i] ^ 1) & m;
    bits_[i] |= m;
    return changed;
  }

 public:
  HashSet() = default;
  HashSet(std::initializer_list<T> l) { for (const T& e : l) put(e); }
  bool empty() const { return size() == 0; }
  size_t size() const { size_t n = 0; for (unsigned char b : bits_) n += b; return n; }
  size_t bucket_count() const { return 1; }
  template <typename Q>
  bool contains(const Q& q) const { const int i = U().find(q); return i >= 0 && (size_t)i < bits_.size() ? (bool)bits_[i] : false; }
  template <typename Q>
  bool insert(const Q& q) { return put(q); }
  bool insert(T&& q) { return put(q); }
  template <typename Q>
  bool erase(const Q& q) {
    const int i = U().find(q);
    if (i < 0 || (size_t)i >= bits_.size()) return false;
    const bool had = bits_[i];
    bits_[i] = 0;
    return had;
  }
  friend bool operator==(const HashSet& a, const HashSet& b) {
    unsigned char d = 0;
    for (size_t i = 0; i < std::max(a.bits_.size(), b.bits_.size()); i++) d |= a.at(i) ^ b.at(i);
    return d == 0;
  }
  friend bool operator!=(const HashSet& a, const HashSet& b) { return !(a == b); }
  friend bool operator<(const HashSet& a, const HashSet& b) {
    unsigned char lt = 0, eq = 1;
    for (size_t i = 0; i < std::max(a.bits_.size(), b.bits_.size()); i++) {
      lt |= eq & (a.at(i) ^ 1) & b.at(i);
      eq &= (a.at(i) ^ b.at(i)) ^ 1;
    }
    return lt;
  }

  class const_iterator {
   public:
    using iterator_category = std::bidirectional_iterator_tag;
    using value_type = T;
    using difference_type = ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    const_iterator(const HashSet* s, size_t i) : s_(s), i_(i) {}
    const_iterator& operator++() { i_++; skip(); return *this; }
    const_iterator operator++(int) { const_iterator t = *this; ++*this; return t; }
    const_iterator& operator--() { do i_--; while (!s_->bits_[i_]); return *this; }
    const_iterator operator--(int) { const_iterator t = *this; --*this; return t; }
    reference operator*() const { return *U().items[i_]; }
    pointer operator->() const { return U().items[i_]; }
    bool operator==(const const_iterator& o) const { return i_ == o.i_; }
    bool operator!=(const const_iterator& o) const { return i_ != o.i_; }
    void skip() { while (i_ < s_->bits_.size() && !s_->bits_[i_]) i_++; }
    const HashSet* s_;
    size_t i_;
  };
  class iterator {
   public:
    using iterator_category = std::bidirectional_iterator_tag;
    using value_type = T;
    using difference_type = ptrdiff_t;
    using pointer = T*;
    using reference = T&;
    explicit iterator(const const_iterator& c) : c_(c) {}
    iterator& operator++() { ++c_; return *this; }
    iterator operator++(int) { iterator t = *this; ++c_; return t; }
    iterator& operator--() { --c_; return *this; }
    iterator operator--(int) { iterator t = *this; --c_; return t; }
    reference operator*() const { t_ = *c_; return t_; }
    pointer operator->() const { t_ = *c_; return &t_; }
    bool operator==(const iterator& o) const { return c_ == o.c_; }
    bool operator!=(const iterator& o) const { return c_ != o.c_; }

   private:
    const_iterator c_;
    mutable T t_;
  };
  const_iterator begin() const { const_iterator it(this, 0); it.skip(); return it; }
  const_iterator end() const { return const_iterator(this, bits_.size()); }
  iterator begin() { return iterator(static_cast<const HashSet*>(this)->begin()); }
  iterator end() { return iterator(static_cast<const HashSet*>(this)->end()); }
};
}  // namespace symbolic
#endif
