// IR-only stand-in for absl::flat_hash_map (its raw_hash_set implementation lives in a
// library): a map with the documented find/insert semantics (insert never replaces).
#ifndef TVC_STUB_FLAT_HASH_MAP_H_
#define TVC_STUB_FLAT_HASH_MAP_H_
#include <utility>
#include <vector>
#include <memory>
namespace absl {
template <typename K, typename V, typename... R>
class flat_hash_map {
 public:
  using value_type = std::pair<K, V>;
  struct iterator {
    std::vector<std::unique_ptr<value_type>>* v; size_t i;
    value_type& operator*() const { return *(*v)[i]; }
    value_type* operator->() const { return (*v)[i].get(); }
    iterator& operator++() { ++i; return *this; }
    bool operator==(const iterator& o) const { return i == o.i; }
    bool operator!=(const iterator& o) const { return i != o.i; }
  };
  iterator begin() { return {&v_, 0}; }
  iterator end() { return {&v_, v_.size()}; }
  iterator find(const K& k) { for (size_t i = 0; i < v_.size(); ++i) if (v_[i]->first == k) return {&v_, i}; return end(); }
  iterator insert(iterator, value_type&& x) { return insert(std::move(x)).first; }
  std::pair<iterator, bool> insert(value_type&& x) {
    iterator it = find(x.first);
    if (it != end()) return {it, false};
    v_.push_back(std::make_unique<value_type>(std::move(x)));
    return {iterator{&v_, v_.size() - 1}, true};
  }
  V& operator[](const K& k) { iterator it = find(k); if (it == end()) it = insert(value_type(k, V())).first; return it->second; }
  template <typename... A> std::pair<iterator, bool> try_emplace(const K& k, A&&... a) {
    iterator it = find(k);
    if (it != end()) return {it, false};
    return insert(value_type(k, V(std::forward<A>(a)...)));
  }
  bool contains(const K& k) { return find(k) != end(); }
  size_t size() const { return v_.size(); }
  bool empty() const { return v_.empty(); }
 private:
  std::vector<std::unique_ptr<value_type>> v_;
};
}
#endif
