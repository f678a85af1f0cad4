// JSON <-> jitfusion values.  Numbers travel as little-endian byte arrays, strings as byte
// arrays, lists as arrays of payloads; a value is {"t": type, "v": payload}.
#pragma once
#include <cstdint>
#include <cstring>
#include <deque>
#include <memory>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>
#include "exec_node.h"
#include "type.h"

namespace jf = jitfusion;
using json = nlohmann::json;

template <typename T> struct Tag { using type = T; };

#define NUM_TYPES(X) \
  X(u8, uint8_t, U8) X(u16, uint16_t, U16) X(u32, uint32_t, U32) X(u64, uint64_t, U64) \
  X(i8, int8_t, I8) X(i16, int16_t, I16) X(i32, int32_t, I32) X(i64, int64_t, I64) \
  X(f32, float, F32) X(f64, double, F64)

inline jf::ValueType TypeOf(const std::string& s) {
  using V = jf::ValueType;
#define X(n, c, S) if (s == #n) return V::k##S; if (s == #n "list") return V::k##S##List;
  NUM_TYPES(X)
#undef X
  if (s == "string") return V::kString;
  if (s == "stringlist") return V::kStringList;
  if (s == "ptr") return V::kPtr;
  if (s == "void") return V::kVoid;
  if (s == "unknown") return V::kUnknown;
  throw std::runtime_error("bad type " + s);
}
inline std::string NameOf(jf::ValueType t) {
  using V = jf::ValueType;
  switch (t) {
#define X(n, c, S) case V::k##S: return #n; case V::k##S##List: return #n "list";
    NUM_TYPES(X)
#undef X
    case V::kString: return "string";
    case V::kStringList: return "stringlist";
    case V::kPtr: return "ptr";
    case V::kVoid: return "void";
    default: return "unknown";
  }
}

template <typename T> json NumJ(T v) {
  json a = json::array();
  unsigned char b[sizeof(T)];
  std::memcpy(b, &v, sizeof(T));
  for (unsigned char c : b) a.push_back((int)c);
  return a;
}
template <typename T> T NumV(const json& a) {
  unsigned char b[sizeof(T)] = {};
  for (size_t i = 0; i < sizeof(T) && i < a.size(); i++) b[i] = (unsigned char)a[i].get<int>();
  T v;
  std::memcpy(&v, b, sizeof(T));
  return v;
}
inline json BytesJ(const char* p, size_t n) {
  json a = json::array();
  for (size_t i = 0; i < n; i++) a.push_back((int)(unsigned char)p[i]);
  return a;
}
inline std::string BytesV(const json& a) {
  std::string s;
  for (const auto& x : a) s.push_back((char)x.get<int>());
  return s;
}
template <typename T> std::vector<T> ListV(const json& a) {
  std::vector<T> r;
  for (const auto& x : a) r.push_back(NumV<T>(x));
  return r;
}
template <typename P> json ListJ(const P* p, size_t n) {
  json a = json::array();
  for (size_t i = 0; i < n; i++) a.push_back(NumJ(p[i]));
  return a;
}
inline json ToJ(const jf::RetType& r) {
  return std::visit(
      [](const auto& x) -> json {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, std::string>) return {{"t", "string"}, {"v", BytesJ(x.data(), x.size())}};
        else if constexpr (std::is_same_v<T, std::vector<std::string>>) {
          json a = json::array();
          for (const auto& s : x) a.push_back(BytesJ(s.data(), s.size()));
          return {{"t", "stringlist"}, {"v", a}};
        }
#define X(n, c, S) \
        else if constexpr (std::is_same_v<T, c>) return {{"t", #n}, {"v", NumJ(x)}}; \
        else if constexpr (std::is_same_v<T, std::vector<c>>) return {{"t", #n "list"}, {"v", ListJ(x.data(), x.size())}};
        NUM_TYPES(X)
#undef X
      },
      r);
}
inline jf::ConstantValueType ConstV(const std::string& t, const json& v) {
#define X(n, c, S) if (t == #n) return NumV<c>(v);
  NUM_TYPES(X)
#undef X
  return BytesV(v);
}
inline jf::ConstantListValueType ConstListV(const std::string& t, const json& v) {
#define X(n, c, S) if (t == #n "list") return ListV<c>(v);
  NUM_TYPES(X)
#undef X
  std::vector<std::string> r;
  for (const auto& x : v) r.push_back(BytesV(x));
  return r;
}

inline jf::UnaryOPType UnOp(const std::string& s) {
  using U = jf::UnaryOPType;
  if (s == "+") return U::kPlus;
  if (s == "-") return U::kMinus;
  if (s == "not") return U::kNot;
  return U::kBitwiseNot;
}
inline jf::BinaryOPType BinOp(const std::string& s) {
  using B = jf::BinaryOPType;
  static const std::vector<std::pair<const char*, B>> m = {
      {"+", B::kAdd}, {"-", B::kSub}, {"*", B::kMul}, {"/", B::kDiv}, {"%", B::kMod},
      {">", B::kLarge}, {">=", B::kLargeEqual}, {"==", B::kEqual}, {"<", B::kLess}, {"<=", B::kLessEqual},
      {"!=", B::kNotEqual}, {"and", B::kAnd}, {"or", B::kOr}, {"&", B::kBitwiseAnd}, {"|", B::kBitwiseOr},
      {"^", B::kBitwiseXor}, {"<<", B::kBitwiseShiftLeft}, {">>", B::kBitwiseShiftRight}};
  for (const auto& p : m)
    if (s == p.first) return p.second;
  throw std::runtime_error("bad op " + s);
}

// the text that the extents p = [b, e] (first byte, byte after the last; from 1) of nodes refer to
inline const std::string* g_src = nullptr;
inline jf::SourceLocation LocOf(const json& p) {
  jf::SourceLocation l;
  if (!g_src) return l;
  l.source_code = *g_src;
  auto at = [&](size_t i, int& line, int& col) {
    line = 1;
    col = 1;
    for (size_t j = 0; j + 1 < i && j < g_src->size(); j++) {
      col++;
      if ((*g_src)[j] == '\n') { line++; col = 1; }
    }
  };
  at(p.at(0).get<size_t>(), l.begin_line, l.begin_col);
  at(p.at(1).get<size_t>(), l.end_line, l.end_col);
  return l;
}
inline std::unique_ptr<jf::ExecNode> BuildBare(const json& n);
inline std::unique_ptr<jf::ExecNode> Build(const json& n) {
  auto r = BuildBare(n);
  if (n.contains("p")) r->SetLocation(LocOf(n.at("p")));
  return r;
}
inline std::vector<std::unique_ptr<jf::ExecNode>> BuildAll(const json& a) {
  std::vector<std::unique_ptr<jf::ExecNode>> r;
  for (const auto& x : a) r.push_back(Build(x));
  return r;
}
inline std::unique_ptr<jf::ExecNode> BuildBare(const json& n) {
  const std::string k = n.at("k");
  if (k == "c") return std::make_unique<jf::ConstantValueNode>(ConstV(n.at("t"), n.at("v")));
  if (k == "cl") return std::make_unique<jf::ConstantListValueNode>(ConstListV(n.at("t"), n.at("v")));
  if (k == "ea") return std::make_unique<jf::EntryArgumentNode>();
  if (k == "ec") return std::make_unique<jf::ExecContextNode>();
  if (k == "out") return std::make_unique<jf::OutputNode>();
  if (k == "u") return std::make_unique<jf::UnaryOPNode>(UnOp(n.at("op")), Build(n.at("a")));
  if (k == "b") return std::make_unique<jf::BinaryOPNode>(BinOp(n.at("op")), Build(n.at("a")), Build(n.at("b")));
  if (k == "f") return std::make_unique<jf::FunctionNode>(n.at("n").get<std::string>(), BuildAll(n.at("a")));
  if (k == "if") return std::make_unique<jf::IfNode>(BuildAll(n.at("a")));
  if (k == "sw") return std::make_unique<jf::SwitchNode>(BuildAll(n.at("a")));
  if (k == "ib") return std::make_unique<jf::IfBlockNode>(BuildAll(n.at("a")));
  if (k == "ref") return std::make_unique<jf::RefNode>(n.at("n").get<std::string>());
  if (k == "no") {
    std::vector<jf::VarInfo> vs;
    for (const auto& v : n.at("v")) vs.emplace_back(v.at("n").get<std::string>(), v.at("c").get<int>() == 1);
    return std::make_unique<jf::NoOPNode>(std::move(vs), BuildAll(n.at("a")), n.at("iso").get<int>() == 1);
  }
  throw std::runtime_error("bad node " + k);
}
