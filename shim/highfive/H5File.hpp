// In-memory stand-in for the part of HighFive 2.9 that brille uses.
//
// HighFive (and HDF5) are not installable in this sandbox, and every brille
// translation unit that matters includes it.  This header lets /verif compile
// and execute the real brille sources.  It is deliberately strict: creating
// something which exists, opening something that does not, reading with the
// wrong rank, ragged nested vectors, a mismatched compound/enum type, or
// writing through a read-only handle all throw, as HDF5 would.
// "Files" live in a process-global map and never touch the disk.
#ifndef VERIF_SHIM_HIGHFIVE_HPP
#define VERIF_SHIM_HIGHFIVE_HPP
#include <array>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <complex>
#include <functional>
#include <iostream>
#include <numeric>
#include <sstream>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <utility>
#include <vector>

namespace HighFive {

class Exception : public std::runtime_error { using std::runtime_error::runtime_error; };

enum class ObjectType { File, Group, UserDataType, DataSpace, Dataset, Attribute, Other };

// ---------------------------------------------------------------- data types
class DataType {
public:
  std::vector<std::pair<std::string, std::type_index>> members;   // compound
  std::vector<std::pair<std::string, long long>> values;          // enum
  std::type_index self = typeid(void);
  DataType() = default;
  explicit DataType(std::type_index t) : self(t) {}
};
template<class T> class AtomicType : public DataType { public: AtomicType() : DataType(typeid(T)) {} };
class CompoundType : public DataType {
public:
  struct member_def { std::string name; DataType type; };
  CompoundType(std::initializer_list<member_def> l) { for (const auto& m: l) members.emplace_back(m.name, m.type.self); }
};
template<class T> class EnumType : public DataType {
public:
  struct member_def { std::string name; T value; };
  EnumType(std::initializer_list<member_def> l) : DataType(typeid(T)) {
    for (const auto& m: l) values.emplace_back(m.name, static_cast<long long>(m.value));
  }
};
template<class T> DataType create_datatype() { return AtomicType<T>{}; }

// ---------------------------------------------------------------- storage
namespace shim {
enum class Kind { integer, floating, opaque };
struct Blob {            // a typed, shaped, contiguous value
  std::vector<size_t> dims;
  std::type_index type = typeid(void);
  Kind kind = Kind::opaque;
  std::vector<long long> i;
  std::vector<double> f;
  std::vector<unsigned char> raw;
  size_t esize = 0;
  size_t count() const { size_t n=1; for (auto d: dims) n*=d; return n; }
};
struct Node {
  bool is_group = true;
  std::map<std::string, std::shared_ptr<Node>> children;
  std::map<std::string, Blob> attrs;
  Blob data;
  bool read_only = false; // only meaningful at the root
};
//! how many more objects and attributes may be created before the storage fails; negative: no limit
inline long& budget() { static long b = -1; return b; }
inline void spend();
inline std::map<std::string, std::shared_ptr<Node>>& files() { static std::map<std::string, std::shared_ptr<Node>> f; return f; }

inline void spend() { if (budget() < 0) return; if (budget() == 0) throw Exception("shim: interrupted"); --budget(); }
template<class T, class = void> struct is_leaf : std::true_type {};
template<class T, class A> struct is_leaf<std::vector<T,A>> : std::false_type {};
template<class T, size_t N> struct is_leaf<std::array<T,N>> : std::false_type {};

template<class T> struct leaf { using type = T; static constexpr size_t rank = 0; };
template<class T, class A> struct leaf<std::vector<T,A>> { using type = typename leaf<T>::type; static constexpr size_t rank = 1 + leaf<T>::rank; };
template<class T, size_t N> struct leaf<std::array<T,N>> { using type = typename leaf<T>::type; static constexpr size_t rank = 1 + leaf<T>::rank; };

template<class T> void push(Blob& b, const T& v) {
  if constexpr (std::is_floating_point_v<T>) b.f.push_back(static_cast<double>(v));
  else if constexpr (std::is_integral_v<T>) b.i.push_back(static_cast<long long>(v));
  else {
    static_assert(std::is_trivially_copyable_v<T>, "shim: only trivially copyable user types");
    const auto* p = reinterpret_cast<const unsigned char*>(&v);
    b.raw.insert(b.raw.end(), p, p + sizeof(T));
  }
}
template<class T> T pull(const Blob& b, size_t at) {
  if constexpr (std::is_arithmetic_v<T>) {
    if (b.kind == Kind::floating) return static_cast<T>(b.f.at(at));
    if (b.kind == Kind::integer) return static_cast<T>(b.i.at(at));
    throw Exception("shim: numeric read of a user-defined type");
  } else {
    if (b.kind != Kind::opaque || b.type != std::type_index(typeid(T)) || b.esize != sizeof(T))
      throw Exception("shim: datatype mismatch on read");
    T v; std::memcpy(&v, b.raw.data() + at*sizeof(T), sizeof(T)); return v;
  }
}
template<class T> void measure(const T& v, std::vector<size_t>& dims, size_t depth) {
  if constexpr (!is_leaf<T>::value) {
    if (dims.size() <= depth) dims.resize(depth+1, 0);
    dims[depth] = v.size();
    if (v.size()) measure(v[0], dims, depth+1);
    else for (size_t d = depth+1; d < depth + leaf<T>::rank; ++d) { if (dims.size() <= d) dims.resize(d+1, 0); dims[d]=0; }
  }
}
template<class T> void flatten(const T& v, Blob& b, size_t depth) {
  if constexpr (is_leaf<T>::value) push(b, v);
  else {
    if (v.size() != b.dims.at(depth)) throw Exception("shim: ragged nested container");
    for (size_t k=0; k<v.size(); ++k) {
      if constexpr (std::is_same_v<T, std::vector<bool>>) push<bool>(b, v[k]);
      else flatten(v[k], b, depth+1);
    }
  }
}
template<class T> void unflatten(T& v, const Blob& b, size_t depth, size_t& at) {
  if constexpr (is_leaf<T>::value) v = pull<T>(b, at++);
  else {
    size_t n = b.dims.at(depth);
    if constexpr (std::is_array_v<T>) {}
    else if constexpr (leaf<T>::rank > 0) {
      if constexpr (std::is_same_v<T, std::vector<typename T::value_type>>) v.resize(n);
      else if (v.size() != n) throw Exception("shim: std::array size mismatch on read");
    }
    for (size_t k=0; k<n; ++k) {
      if constexpr (std::is_same_v<T, std::vector<bool>>) v[k] = pull<bool>(b, at++);
      else unflatten(v[k], b, depth+1, at);
    }
  }
}
template<class T> Blob make_blob(const T& v) {
  Blob b;
  using L = typename leaf<T>::type;
  b.type = typeid(L);
  b.esize = sizeof(L);
  b.kind = std::is_floating_point_v<L> ? Kind::floating : std::is_integral_v<L> ? Kind::integer : Kind::opaque;
  measure(v, b.dims, 0);
  flatten(v, b, 0);
  return b;
}
template<class T> void read_blob(const Blob& b, T& v) {
  if (b.dims.size() != leaf<T>::rank) throw Exception("shim: rank mismatch on read");
  size_t at = 0;
  unflatten(v, b, 0, at);
}
} // namespace shim

class Object {
protected:
  std::shared_ptr<shim::Node> node_;
  bool ro_ = false;
public:
  Object() = default;
  Object(std::shared_ptr<shim::Node> n, bool ro) : node_(std::move(n)), ro_(ro) {}
  const std::shared_ptr<shim::Node>& shim_node() const { return node_; }
  bool isValid() const { return static_cast<bool>(node_); }
};

class Attribute : public Object {
  shim::Blob* b_ = nullptr;
public:
  Attribute(std::shared_ptr<shim::Node> n, bool ro, shim::Blob* b) : Object(std::move(n), ro), b_(b) {}
  template<class T> void read(T& v) const { shim::read_blob(*b_, v); }
  template<class T> T read() const { T v; shim::read_blob(*b_, v); return v; }
};

template<class D> class AnnotateTraits {
  D& d() { return static_cast<D&>(*this); }
  const D& d() const { return static_cast<const D&>(*this); }
public:
  template<class T> Attribute createAttribute(const std::string& name, const T& v) {
    if (d().shim_ro()) throw Exception("shim: write to a read-only file");
    auto n = d().shim_node();
    if (n->attrs.count(name)) throw Exception("shim: attribute exists: " + name);
    shim::spend();
    auto& b = n->attrs[name] = shim::make_blob(v);
    return Attribute(n, false, &b);
  }
  Attribute getAttribute(const std::string& name) const {
    auto n = d().shim_node();
    auto it = n->attrs.find(name);
    if (it == n->attrs.end()) throw Exception("shim: no such attribute: " + name);
    return Attribute(n, d().shim_ro(), &it->second);
  }
  bool hasAttribute(const std::string& name) const { return d().shim_node()->attrs.count(name) > 0; }
};

class DataSet : public Object, public AnnotateTraits<DataSet> {
public:
  using Object::Object;
  bool shim_ro() const { return ro_; }
  std::vector<size_t> getDimensions() const { return node_->data.dims; }
  size_t getElementCount() const { return node_->data.count(); }
  template<class T> std::enable_if_t<!std::is_pointer_v<T>> read(T& v) const { shim::read_blob(node_->data, v); }
  template<class T> void read(T* p) const {
    size_t n = node_->data.count();
    for (size_t k=0; k<n; ++k) p[k] = shim::pull<T>(node_->data, k);
  }
};

class Group;
template<class D> class NodeTraits {
  D& d() { return static_cast<D&>(*this); }
  const D& d() const { return static_cast<const D&>(*this); }
  static std::vector<std::string> split(const std::string& p) {
    std::vector<std::string> out; std::string cur;
    for (char c: p) { if (c=='/') { if (!cur.empty()) out.push_back(cur); cur.clear(); } else cur.push_back(c); }
    if (!cur.empty()) out.push_back(cur);
    if (out.empty()) throw Exception("shim: empty object name");
    return out;
  }
  std::shared_ptr<shim::Node> find(const std::string& p) const {
    auto n = d().shim_node();
    for (const auto& s: split(p)) {
      if (!n->is_group) return nullptr;
      auto it = n->children.find(s);
      if (it == n->children.end()) return nullptr;
      n = it->second;
    }
    return n;
  }
  std::shared_ptr<shim::Node> make(const std::string& p) {
    if (d().shim_ro()) throw Exception("shim: write to a read-only file");
    auto parts = split(p);
    auto n = d().shim_node();
    for (size_t i=0; i+1<parts.size(); ++i) {
      auto& c = n->children[parts[i]];
      if (!c) c = std::make_shared<shim::Node>();
      if (!c->is_group) throw Exception("shim: path component is a dataset");
      n = c;
    }
    if (n->children.count(parts.back())) throw Exception("shim: object exists: " + p);
    shim::spend();
    return n->children[parts.back()] = std::make_shared<shim::Node>();
  }
public:
  bool exist(const std::string& name) const { return static_cast<bool>(find(name)); }
  void unlink(const std::string& name) {
    if (d().shim_ro()) throw Exception("shim: write to a read-only file");
    auto parts = split(name);
    auto n = d().shim_node();
    for (size_t i=0; i+1<parts.size(); ++i) { auto it = n->children.find(parts[i]); if (it==n->children.end()) throw Exception("shim: unlink"); n = it->second; }
    if (!n->children.erase(parts.back())) throw Exception("shim: nothing to unlink: " + name);
  }
  Group createGroup(const std::string& name, bool parents=true);
  Group getGroup(const std::string& name) const;
  template<class T> DataSet createDataSet(const std::string& name, const T& v) {
    auto b = shim::make_blob(v);
    auto n = make(name);
    n->is_group = false;
    n->data = std::move(b);
    return DataSet(n, false);
  }
  DataSet getDataSet(const std::string& name) const {
    auto n = find(name);
    if (!n || n->is_group) throw Exception("shim: no such dataset: " + name);
    return DataSet(n, d().shim_ro());
  }
  ObjectType getObjectType(const std::string& name) const {
    auto n = find(name);
    if (!n) throw Exception("shim: no such object: " + name);
    return n->is_group ? ObjectType::Group : ObjectType::Dataset;
  }
  std::vector<std::string> listObjectNames() const { std::vector<std::string> o; for (auto& [k,v]: d().shim_node()->children) o.push_back(k); return o; }
};

class Group : public Object, public NodeTraits<Group>, public AnnotateTraits<Group> {
public:
  using Object::Object;
  bool shim_ro() const { return ro_; }
};
template<class D> Group NodeTraits<D>::createGroup(const std::string& name, bool) { return Group(make(name), false); }
template<class D> Group NodeTraits<D>::getGroup(const std::string& name) const {
  if (name == "/") return Group(d().shim_node(), d().shim_ro());
  auto n = find(name);
  if (!n || !n->is_group) throw Exception("shim: no such group: " + name);
  return Group(n, d().shim_ro());
}

class File : public Object, public NodeTraits<File>, public AnnotateTraits<File> {
  std::string name_;
public:
  enum : unsigned { ReadOnly=0x00u, ReadWrite=0x01u, Truncate=0x02u, Excl=0x04u, Debug=0x08u, Create=0x10u,
                    Overwrite=Truncate, OpenOrCreate=ReadWrite|Create };
  explicit File(const std::string& name, unsigned flags = ReadOnly) : name_(name) {
    auto& fs = shim::files();
    auto it = fs.find(name);
    if (flags & Truncate) it = fs.insert_or_assign(name, std::make_shared<shim::Node>()).first;
    else if (it == fs.end()) {
      if (!(flags & Create)) throw Exception("shim: no such file: " + name);
      it = fs.emplace(name, std::make_shared<shim::Node>()).first;
    } else if (flags & Excl) throw Exception("shim: file exists: " + name);
    node_ = it->second;
    ro_ = !(flags & (ReadWrite|Truncate|Create));
  }
  bool shim_ro() const { return ro_; }
  const std::string& getName() const { return name_; }
};
} // namespace HighFive
#endif
