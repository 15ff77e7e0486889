// The part of libcppbor's interface that the repository uses, for builds
// without that library. Encodes and decodes RFC 8949 CBOR.
#ifndef SIM_SHIM_CPPBOR_H_
#define SIM_SHIM_CPPBOR_H_
#include <stdint.h>
#include <string.h>

#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace cppbor {
enum MajorType : uint8_t {
  UINT = 0 << 5,
  NINT = 1 << 5,
  BSTR = 2 << 5,
  TSTR = 3 << 5,
  ARRAY = 4 << 5,
  MAP = 5 << 5,
  SEMANTIC = 6 << 5,
  SIMPLE = 7 << 5,
};
class Int;
class Bstr;
class Tstr;
class Array;
class Map;

inline void Head(MajorType t, uint64_t v, std::vector<uint8_t>* o) {
  int n = v < 24 ? 0 : v <= 0xff ? 1 : v <= 0xffff ? 2 : v <= 0xffffffffull ? 4 : 8;
  int ai = n == 0 ? static_cast<int>(v) : n == 1 ? 24 : n == 2 ? 25 : n == 4 ? 26 : 27;
  o->push_back(static_cast<uint8_t>(t | ai));
  for (int i = n - 1; i >= 0; --i) o->push_back(static_cast<uint8_t>(v >> (8 * i)));
}

class Item {
 public:
  virtual ~Item() = default;
  virtual MajorType type() const = 0;
  virtual Int* asInt() { return nullptr; }
  virtual Bstr* asBstr() { return nullptr; }
  virtual Tstr* asTstr() { return nullptr; }
  virtual Array* asArray() { return nullptr; }
  virtual Map* asMap() { return nullptr; }
  virtual void Put(std::vector<uint8_t>* o) const = 0;
  std::vector<uint8_t> encode() const {
    std::vector<uint8_t> o;
    Put(&o);
    return o;
  }
  std::string toString() const {
    auto v = encode();
    return std::string(v.begin(), v.end());
  }
};
class Int : public Item {
 public:
  explicit Int(int64_t v) : v_(v) {}
  int64_t value() const { return v_; }
  MajorType type() const override { return v_ < 0 ? NINT : UINT; }
  Int* asInt() override { return this; }
  void Put(std::vector<uint8_t>* o) const override {
    if (v_ < 0) Head(NINT, static_cast<uint64_t>(-1 - v_), o);
    else Head(UINT, static_cast<uint64_t>(v_), o);
  }

 private:
  int64_t v_;
};
class Bstr : public Item {
 public:
  Bstr() = default;
  explicit Bstr(std::vector<uint8_t> v) : v_(std::move(v)) {}
  explicit Bstr(const std::string& s) : v_(s.begin(), s.end()) {}
  template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
  Bstr(It a, It b) : v_(a, b) {}
  const std::vector<uint8_t>& value() const { return v_; }
  MajorType type() const override { return BSTR; }
  Bstr* asBstr() override { return this; }
  void Put(std::vector<uint8_t>* o) const override {
    Head(BSTR, v_.size(), o);
    o->insert(o->end(), v_.begin(), v_.end());
  }

 private:
  std::vector<uint8_t> v_;
};
class Tstr : public Item {
 public:
  explicit Tstr(std::string s) : v_(std::move(s)) {}
  const std::string& value() const { return v_; }
  MajorType type() const override { return TSTR; }
  Tstr* asTstr() override { return this; }
  void Put(std::vector<uint8_t>* o) const override {
    Head(TSTR, v_.size(), o);
    o->insert(o->end(), v_.begin(), v_.end());
  }

 private:
  std::string v_;
};
class Simple : public Item {
 public:
  explicit Simple(std::vector<uint8_t> raw) : raw_(std::move(raw)) {}
  MajorType type() const override { return static_cast<MajorType>(raw_[0] & 0xe0); }
  void Put(std::vector<uint8_t>* o) const override { o->insert(o->end(), raw_.begin(), raw_.end()); }

 private:
  std::vector<uint8_t> raw_;
};
template <typename T>
std::unique_ptr<Item> makeItem(T&& v) {
  using D = std::decay_t<T>;
  if constexpr (std::is_same_v<D, std::unique_ptr<Item>>) return std::forward<T>(v);
  else if constexpr (std::is_base_of_v<Item, D>) return std::make_unique<D>(std::forward<T>(v));
  else if constexpr (std::is_integral_v<D> || std::is_enum_v<D>)
    return std::make_unique<Int>(static_cast<int64_t>(v));
  else if constexpr (std::is_same_v<D, std::vector<uint8_t>>)
    return std::make_unique<Bstr>(std::forward<T>(v));
  else return std::make_unique<Tstr>(std::string(std::forward<T>(v)));
}
class Array : public Item {
 public:
  Array() = default;
  Array(Array&&) = default;
  template <typename A, typename... As,
            typename = std::enable_if_t<!std::is_same_v<std::decay_t<A>, Array>>>
  explicit Array(A&& a, As&&... as) {
    add(std::forward<A>(a));
    (add(std::forward<As>(as)), ...);
  }
  template <typename T>
  Array& add(T&& v) {
    v_.push_back(makeItem(std::forward<T>(v)));
    return *this;
  }
  size_t size() const { return v_.size(); }
  std::unique_ptr<Item>& get(size_t i) { return v_[i]; }
  MajorType type() const override { return ARRAY; }
  Array* asArray() override { return this; }
  void Put(std::vector<uint8_t>* o) const override {
    Head(ARRAY, v_.size(), o);
    for (auto& x : v_) x->Put(o);
  }

 private:
  std::vector<std::unique_ptr<Item>> v_;
};
class Map : public Item {
 public:
  Map() = default;
  Map(Map&&) = default;
  template <typename K, typename V>
  Map& add(K&& k, V&& v) {
    v_.emplace_back(makeItem(std::forward<K>(k)), makeItem(std::forward<V>(v)));
    return *this;
  }
  size_t size() const { return v_.size(); }
  auto begin() { return v_.begin(); }
  auto end() { return v_.end(); }
  MajorType type() const override { return MAP; }
  Map* asMap() override { return this; }
  void Put(std::vector<uint8_t>* o) const override {
    Head(MAP, v_.size(), o);
    for (auto& [k, v] : v_) {
      k->Put(o);
      v->Put(o);
    }
  }

 private:
  std::vector<std::pair<std::unique_ptr<Item>, std::unique_ptr<Item>>> v_;
};
}  // namespace cppbor
#endif  // SIM_SHIM_CPPBOR_H_
