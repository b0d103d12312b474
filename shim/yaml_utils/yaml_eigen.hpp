// Stand-in for the external package yaml_utils (not part of /repo, not installed here):
// ReadParameter and the Eigen conversions, on top of the real yaml-cpp.
// Assumed contract: a present key yields its value, an absent key throws std::runtime_error.
#pragma once
#include <stdexcept>
#include <string>
#include <yaml-cpp/yaml.h>
#include <Eigen/Dense>
namespace YAML {
template <class S, int R, int C, int O, int MR, int MC> struct convert<Eigen::Matrix<S, R, C, O, MR, MC>> {
  typedef Eigen::Matrix<S, R, C, O, MR, MC> M;
  static Node encode(const M& m) {
    Node n(NodeType::Sequence);
    if (R == 1 || C == 1) { for (int i = 0; i < m.size(); i++) n.push_back(m(i)); return n; }
    for (int i = 0; i < m.rows(); i++) { Node r(NodeType::Sequence); for (int j = 0; j < m.cols(); j++) r.push_back(m(i, j)); n.push_back(r); }
    return n;
  }
  static bool decode(const Node& n, M& m) {
    if (!n.IsSequence()) return false;
    if (R == 1 || C == 1) {
      if (R == Eigen::Dynamic || C == Eigen::Dynamic) m.resize(R == 1 ? 1 : (long)n.size(), C == 1 ? 1 : (long)n.size());
      else if ((long)n.size() != (long)m.size()) return false;
      for (std::size_t i = 0; i < n.size(); i++) m(i) = n[i].template as<S>();
      return true;
    }
    if (n.size() == 0) return false;
    m.resize(n.size(), n[0].size());
    for (std::size_t i = 0; i < n.size(); i++) { if ((long)n[i].size() != (long)m.cols()) return false; for (std::size_t j = 0; j < n[i].size(); j++) m(i, j) = n[i][j].template as<S>(); }
    return true;
  }
};
template <class T> inline T ReadParameter(const Node& n, const std::string& name) {
  if (!n[name.c_str()]) throw std::runtime_error("yaml_utils: missing parameter " + name);
  return n[name.c_str()].template as<T>();
}
template <class T> inline void ReadParameter(const Node& n, const std::string& name, T& out) { out = ReadParameter<T>(n, name); }
}
