// Stand-in for yaml-cpp: a tree of nodes with the library's look-up and conversion rules, and a seam where any step can fail
#pragma once
#include <cmath>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace YAML {
struct Exception : std::runtime_error { using std::runtime_error::runtime_error; };
struct InvalidNode : Exception { InvalidNode() : Exception("invalid node; this may result from using a map iterator as a sequence iterator, or vice-versa") {} };
struct BadSubscript : Exception { BadSubscript() : Exception("operator[] call on a scalar") {} };
struct BadConversion : Exception { BadConversion() : Exception("bad conversion") {} };
typedef BadConversion TypedBadConversion_;
struct NodeType { enum value { Undefined, Null, Scalar, Sequence, Map }; };
namespace sim_seam { inline int fail_in = -1; inline void step() { if (fail_in > 0 && --fail_in == 0) throw std::bad_alloc(); } }
class Node {
public:
  struct Data { NodeType::value type = NodeType::Null; std::string scalar; std::vector<std::pair<std::string, Node>> map; std::vector<Node> seq; };
  Node() : d(std::make_shared<Data>()) {}
  explicit Node(std::shared_ptr<Data> p) : d(p) {}
  static Node zombie() { return Node(std::shared_ptr<Data>()); }
  NodeType::value Type() const { if (!d) throw InvalidNode(); return d->type; }
  bool IsDefined() const { return (bool)d; }
  explicit operator bool() const { return IsDefined(); }
  bool IsNull() const { return Type() == NodeType::Null; }
  bool IsScalar() const { return Type() == NodeType::Scalar; }
  bool IsSequence() const { return Type() == NodeType::Sequence; }
  bool IsMap() const { return Type() == NodeType::Map; }
  std::size_t size() const { return !d ? 0 : d->type == NodeType::Map ? d->map.size() : d->type == NodeType::Sequence ? d->seq.size() : 0; }
  const std::string &Scalar() const { if (!d) throw InvalidNode(); return d->scalar; }
  Node operator[](const std::string &k) const {
    if (!d) throw InvalidNode();
    sim_seam::step();
    if (d->type == NodeType::Scalar) throw BadSubscript();
    if (d->type == NodeType::Map) for (auto &p : d->map) if (p.first == k) return p.second;
    return zombie();
  }
  Node operator[](const char *k) const { return (*this)[std::string(k)]; }
  template <class T> T as() const {
    if (!d) throw InvalidNode();
    sim_seam::step();
    T v; convert(v); return v;
  }
  template <class T, class S> T as(const S &fallback) const { if (!d) return fallback; try { return as<T>(); } catch (const BadConversion &) { return fallback; } }
  std::shared_ptr<Data> d;
private:
  void convert(std::string &v) const { if (d->type != NodeType::Scalar) throw BadConversion(); v = d->scalar; }
  void convert(bool &v) const { if (d->type != NodeType::Scalar) throw BadConversion(); if (d->scalar == "true" || d->scalar == "yes" || d->scalar == "on" || d->scalar == "y") v = true; else if (d->scalar == "false" || d->scalar == "no" || d->scalar == "off" || d->scalar == "n") v = false; else throw BadConversion(); }
  template <class T> void convert(T &v) const {
    if (d->type != NodeType::Scalar) throw BadConversion();
    std::stringstream s(d->scalar); s.unsetf(std::ios::dec);
    if ((s >> std::noskipws >> v) && (s >> std::ws).eof()) return;
    throw BadConversion();
  }
};
} // namespace YAML
