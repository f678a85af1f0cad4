// Helpers for the demonstrations: build trees, compile, run, compare.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include "athena.h"
#include "batch_exec_engine.h"
#include "exec_engine.h"
#include "exec_node.h"
#include "function_registry.h"
namespace jf = jitfusion;
using Node = std::unique_ptr<jf::ExecNode>;
using Reg = std::unique_ptr<jf::FunctionRegistry>;
using VT = jf::ValueType;
using B = jf::BinaryOPType;
template <typename... A> std::vector<Node> L(A... a) {
  std::vector<Node> v;
  (v.push_back(std::move(a)), ...);
  return v;
}
inline Node C(jf::ConstantValueType v) { return std::make_unique<jf::ConstantValueNode>(v); }
inline Node CL(jf::ConstantListValueType v) { return std::make_unique<jf::ConstantListValueNode>(v); }
template <typename... A> Node F(const char* n, A... a) { return std::make_unique<jf::FunctionNode>(n, L(std::move(a)...)); }
inline Node EA() { return std::make_unique<jf::EntryArgumentNode>(); }
inline Node OUT() { return std::make_unique<jf::OutputNode>(); }
inline Node Bin(B op, Node a, Node b) { return std::make_unique<jf::BinaryOPNode>(op, std::move(a), std::move(b)); }
inline Node Un(jf::UnaryOPType op, Node a) { return std::make_unique<jf::UnaryOPNode>(op, std::move(a)); }
template <typename... A> Node Sw(A... a) { return std::make_unique<jf::SwitchNode>(L(std::move(a)...)); }
template <typename... A> Node If(A... a) { return std::make_unique<jf::IfNode>(L(std::move(a)...)); }
template <typename... A> Node IB(A... a) { return std::make_unique<jf::IfBlockNode>(L(std::move(a)...)); }
inline Node Ref(const char* n) { return std::make_unique<jf::RefNode>(n); }
inline Node Seq(std::vector<jf::VarInfo> v, std::vector<Node> a, bool iso = false) {
  return std::make_unique<jf::NoOPNode>(std::move(v), std::move(a), iso);
}
inline Reg NewReg() {
  Reg r;
  if (!jf::FunctionRegistryFactory::CreateFunctionRegistry(&r).ok()) exit(9);
  return r;
}
inline jf::ExecEngineOption Opt(bool save = false, bool fast = false) {
  jf::ExecEngineOption o;
  o.enable_save_compiled = save;
  o.fp_math_mode = fast ? jf::FPMathMode::kFast : jf::FPMathMode::kStrict;
  return o;
}
inline void Need(bool ok, const char* what) {
  if (!ok) {
    printf("FAILED: %s\n", what);
    fflush(stdout);
    _Exit(1);
  }
}
// compile and run one tree
inline jf::RetType Run(Node n, const Reg& r, void* ea = nullptr) {
  jf::ExecEngine e(Opt());
  jf::RetType v;
  jf::Status s = e.Compile(n, r);
  if (!s.ok()) { printf("%s\n", s.ToString().c_str()); Need(false, "compile"); }
  s = e.Execute(ea, &v);
  if (!s.ok()) { printf("%s\n", s.ToString().c_str()); Need(false, "execute"); }
  return v;
}
inline jf::RetType RunText(const std::string& t, const Reg& r, void* ea = nullptr) {
  athena::AthenaExpression e(Opt());
  jf::RetType v;
  jf::Status s = e.Compile(t, r);
  if (!s.ok()) { printf("%s\n", s.ToString().c_str()); Need(false, "compile"); }
  s = e.Execute(ea, &v);
  if (!s.ok()) { printf("%s\n", s.ToString().c_str()); Need(false, "execute"); }
  return v;
}
// the argument buffer of F("arg...", EA(), C(i)): an array of 8-byte slots
inline double ArgF64(void* p, int32_t i) { return ((double*)p)[i]; }
inline int64_t ArgI64(void* p, int32_t i) { return ((int64_t*)p)[i]; }
inline void RegArgs(const Reg& r) {
  Need(r->RegisterReadOnlyCFunc({"argf", {VT::kPtr, VT::kI32}, VT::kF64}, (void*)ArgF64).ok(), "reg");
  Need(r->RegisterReadOnlyCFunc({"argi", {VT::kPtr, VT::kI32}, VT::kI64}, (void*)ArgI64).ok(), "reg");
}
inline Node AF(int i) { return F("argf", EA(), C((int32_t)i)); }
inline Node AI(int i) { return F("argi", EA(), C((int32_t)i)); }
// a store function: out is a std::vector<int64_t>
inline void StI64(void* out, int64_t v) { ((std::vector<int64_t>*)out)->push_back(v); }
inline int64_t ErrI64(int64_t v, int64_t c, jf::ExecContext* x) {
  x->AddError("E" + std::to_string(c));
  return v;
}
