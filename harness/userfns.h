// C functions registered next to the built-ins, and the argument / output buffers they use.
#pragma once
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <string_view>
#include "exec_options.h"
#include "function_registry.h"
#include "values.h"

// ---- execution arguments -------------------------------------------------------------
struct Sched {                      // hands the turn to one thread at a time, in a given order
  std::mutex m;
  std::condition_variable cv;
  std::vector<int> order;
  std::vector<char> done;
  size_t pos{0};
  int cur{-1}, extra{0}, skipped{0};
  bool broken{false};
  void Release(int tid) {
    if (cur == tid) { cur = -1; pos++; }
    for (; pos < order.size() && done[order[pos]]; pos++) skipped++;
    cv.notify_all();
  }
  void Turn(int tid) {              // give the turn back, wait for this thread's next one
    std::unique_lock<std::mutex> lk(m);
    Release(tid);
    auto ready = [&] { return broken || pos >= order.size() || (cur < 0 && order[pos] == tid); };
    if (!cv.wait_for(lk, std::chrono::seconds(20), ready)) broken = true;
    if (!broken && pos < order.size()) cur = tid;
    else extra++;
    cv.notify_all();
  }
  void End(int tid) {
    std::unique_lock<std::mutex> lk(m);
    done[tid] = 1;
    Release(tid);
  }
};
struct InArg {
  char raw[16];                     // scalar, or {pointer, u32 length}
};
struct EntryArgs {
  uint32_t n;
  int tid;
  Sched* sched;
  InArg a[16];
};
// The flat argument buffers, and a copy of their bytes to tell whether they were modified.
class Inputs {
 public:
  explicit Inputs(const json& vals) {
    std::memset((void*)&ea_, 0, sizeof ea_);
    ea_.n = vals.size();
    size_t i = 0;
    for (const auto& v : vals) Put(ea_.a[i++], v.at("t").get<std::string>(), v.at("v"));
    copy_ = Snap();
  }
  EntryArgs* get() { return &ea_; }
  bool Intact() const { return Snap() == copy_; }
  // nothing of the arguments is left
  void Scribble() {
    for (auto& b : bufs_) std::fill(b.begin(), b.end(), '\xdd');
    std::memset((void*)ea_.a, 0xdd, sizeof ea_.a);
  }

 private:
  char* Keep(std::string s) {
    s.append(16, '\x5a');           // guard bytes behind every buffer
    bufs_.push_back(std::move(s));
    return bufs_.back().data();
  }
  template <typename P> void PutList(InArg& d, const std::vector<P>& v) {
    std::string s((const char*)v.data(), v.size() * sizeof(P));
    char* p = Keep(std::move(s));
    Set(d, p, v.size());
  }
  void Set(InArg& d, char* p, uint32_t n) {
    std::memcpy(d.raw, &p, 8);
    std::memcpy(d.raw + 8, &n, 4);
  }
  void Put(InArg& d, const std::string& t, const json& v) {
#define X(n, c, S) \
  if (t == #n) { c x = NumV<c>(v); std::memcpy(d.raw, &x, sizeof x); return; } \
  if (t == #n "list") { PutList<c>(d, ListV<c>(v)); return; }
    NUM_TYPES(X)
#undef X
    if (t == "string") { std::string s = BytesV(v); uint32_t n = s.size(); Set(d, Keep(std::move(s)), n); return; }
    std::vector<jf::StringStruct> l;
    for (const auto& x : v) {
      std::string s = BytesV(x);
      uint32_t n = s.size();
      l.push_back({Keep(std::move(s)), n});
    }
    std::string flat;
    for (auto& e : l) {
      jf::StringStruct z;
      std::memset((void*)&z, 0, sizeof z);
      z.data = e.data;
      z.len = e.len;
      flat.append((const char*)&z, sizeof z);
    }
    uint32_t n = l.size();
    Set(d, Keep(std::move(flat)), n);
  }
  std::string Snap() const {
    std::string s((const char*)ea_.a, sizeof ea_.a);
    for (const auto& b : bufs_) s += b;
    return s;
  }
  EntryArgs ea_;
  std::deque<std::string> bufs_;
  std::string copy_;
};

// ---- output buffer ---------------------------------------------------------------------
struct OutBuf {
  uint32_t used{0};
  uint32_t overflow{0};
  unsigned char b[1 << 17];
  void Raw(const void* p, size_t n) {
    if (used + n > sizeof b) { overflow = 1; return; }
    std::memcpy(b + used, p, n);
    used += n;
  }
  template <typename T> void Pod(T v) { Raw(&v, sizeof v); }
};
template <typename T> constexpr int TypeCode();
#define X(n, c, S) template <> constexpr int TypeCode<c>() { return (int)jf::ValueType::k##S; } \
  template <> constexpr int TypeCode<jf::S##ListStruct>() { return (int)jf::ValueType::k##S##List; }
NUM_TYPES(X)
#undef X
template <> constexpr int TypeCode<jf::StringStruct>() { return (int)jf::ValueType::kString; }
template <> constexpr int TypeCode<jf::StringListStruct>() { return (int)jf::ValueType::kStringList; }

template <typename T> inline void LogVal(OutBuf* o, uint32_t tag, T v) {
  o->Pod(tag);
  o->Pod<uint8_t>(TypeCode<T>());
  if constexpr (std::is_arithmetic_v<T>) o->Pod(v);
  else if constexpr (std::is_same_v<T, jf::StringListStruct>) {
    o->Pod(v.len);
    for (uint32_t i = 0; i < v.len; i++) { o->Pod(v.data[i].len); o->Raw(v.data[i].data, v.data[i].len); }
  } else {
    o->Pod(v.len);
    o->Raw(v.data, (size_t)v.len * sizeof(*v.data));
  }
}
inline json ReadLog(const OutBuf& o) {
  json out = json::array();
  size_t p = 0;
  auto u32 = [&] { uint32_t x; std::memcpy(&x, o.b + p, 4); p += 4; return x; };
  while (p < o.used) {
    uint32_t tag = u32();
    auto t = (jf::ValueType)o.b[p++];
    std::string name = NameOf(t);
    json v = json::array();
    bool done = false;
#define X(n, c, S) \
    if (!done && name == #n) { c x; std::memcpy(&x, o.b + p, sizeof x); p += sizeof x; v = NumJ(x); done = true; } \
    if (!done && name == #n "list") { \
      uint32_t k = u32(); \
      for (uint32_t i = 0; i < k; i++) { c x; std::memcpy(&x, o.b + p, sizeof x); p += sizeof x; v.push_back(NumJ(x)); } \
      done = true; }
    NUM_TYPES(X)
#undef X
    if (name == "string") { uint32_t k = u32(); v = BytesJ((const char*)o.b + p, k); p += k; }
    if (name == "stringlist") {
      uint32_t k = u32();
      for (uint32_t i = 0; i < k; i++) { uint32_t m = u32(); v.push_back(BytesJ((const char*)o.b + p, m)); p += m; }
    }
    out.push_back({{"tag", tag}, {"t", name}, {"v", v}});
  }
  if (o.overflow) out.push_back({{"tag", 0}, {"t", "overflow"}, {"v", json::array()}});
  return out;
}

// ---- the functions -----------------------------------------------------------------------
namespace fns {
template <typename T> T Arg(void* ea, int32_t i) noexcept {
  T v{};
  std::memcpy((void*)&v, ((EntryArgs*)ea)->a[i & 15].raw, sizeof(T));
  return v;
}
template <typename T> T Tr(void* out, uint32_t tag, T v) noexcept {
  if (out) LogVal<T>((OutBuf*)out, tag, v);
  return v;
}
template <typename T> void St(void* out, uint32_t tag, T v) noexcept {
  if (out) LogVal<T>((OutBuf*)out, tag, v);
}
template <typename T> T Id(T v) noexcept { return v; }
template <typename T> T Err(T v, int32_t c, void* ctx) noexcept {
  ((jf::ExecContext*)ctx)->AddError("E" + std::to_string(c));
  return v;
}
inline int64_t Cm(int64_t a, int64_t b) noexcept { return (int64_t)((uint64_t)a * (uint64_t)b + ((uint64_t)a ^ (uint64_t)b)); }
inline int64_t Cme(int64_t a, int64_t b, void* ctx) noexcept {
  if (a == b) ((jf::ExecContext*)ctx)->AddError("C");
  return Cm(a, b);
}
// a scheduling point: waits for this thread's turn, then behaves like the identity and
// reports error "Y<v>" when v is negative
inline int64_t Sync(void* ea, int64_t v, void* ctx) noexcept {
  auto* e = (EntryArgs*)ea;
  if (e->sched) e->sched->Turn(e->tid);
  if (v < 0) ((jf::ExecContext*)ctx)->AddError("Y" + std::to_string(v));
  return v;
}
// an arena-backed list of n copies of v
inline jf::I64ListStruct Rep(int64_t v, int32_t n, void* ctx) noexcept {
  jf::I64ListStruct r{nullptr, 0};
  if (n <= 0) return r;
  r.data = (int64_t*)((jf::ExecContext*)ctx)->arena.Allocate(sizeof(int64_t) * n);
  r.len = n;
  for (int32_t i = 0; i < n; i++) r.data[i] = v;
  return r;
}

// numbered functions of a few signatures, for registry scenarios
template <int K> int32_t a(int32_t x) { return x * 10 + K; }
template <int K> int64_t b(int32_t x) { return (int64_t)x * 10 + K; }
template <int K> int32_t d(int64_t x) { return (int32_t)x * 10 + K; }
template <int K> int32_t e(int32_t x, int32_t y) { return x * 100 + y * 10 + K; }
template <int K> int32_t m(int32_t x, int32_t y) { return x * y + x + y + K; }
template <int K> int32_t ax(int32_t x, void* c) {
  if (x == 7) ((jf::ExecContext*)c)->AddError("X" + std::to_string(K));
  return x * 10 + K;
}
template <int K> int32_t mx(int32_t x, int32_t y, void* c) {
  if (x == y) ((jf::ExecContext*)c)->AddError("X" + std::to_string(K));
  return x * y + x + y + K;
}
template <int K> void s(void* out, int32_t x) { if (out) LogVal<int32_t>((OutBuf*)out, K, x); }
template <int K> int32_t z() { return K; }
template <int K> int32_t zx(void*) { return K; }
template <int K> int32_t q(jf::StringStruct x) { return (int32_t)x.len * 10 + K; }
inline void* Impl(const std::string& n) {
#define R(K) \
  if (n == "a" #K) return (void*)a<K>; if (n == "b" #K) return (void*)b<K>; if (n == "d" #K) return (void*)d<K>; \
  if (n == "e" #K) return (void*)e<K>; if (n == "m" #K) return (void*)m<K>; if (n == "ax" #K) return (void*)ax<K>; \
  if (n == "mx" #K) return (void*)mx<K>; if (n == "s" #K) return (void*)s<K>; if (n == "z" #K) return (void*)z<K>; \
  if (n == "zx" #K) return (void*)zx<K>; if (n == "q" #K) return (void*)q<K>;
  R(0) R(1) R(2) R(3)
#undef R
  return nullptr;
}
}  // namespace fns

inline std::string Msg(const jf::Status& s) { return s.ToString(); }
inline void Must(const jf::Status& s) {
  if (!s.ok()) { fprintf(stderr, "driver: %s\n", s.ToString().c_str()); _exit(97); }
}
template <typename T> void RegType(jf::FunctionRegistry* r, const std::string& n, jf::ValueType t) {
  using V = jf::ValueType;
  using FS = jf::FunctionSignature;
  Must(r->RegisterReadOnlyCFunc(FS("arg_" + n, {V::kPtr, V::kI32}, t), (void*)fns::Arg<T>));
  Must(r->RegisterStoreCFunc(FS("tr_" + n, {V::kPtr, V::kU32, t}, t), (void*)fns::Tr<T>, 1));
  Must(r->RegisterStoreCFunc(FS("st_" + n, {V::kPtr, V::kU32, t}, V::kVoid), (void*)fns::St<T>, 1));
  Must(r->RegisterReadOnlyCFunc(FS("id_" + n, {t}, t), (void*)fns::Id<T>));
  Must(r->RegisterReadOnlyCFuncWithExecCtx(FS("err_" + n, {t, V::kI32}, t), (void*)fns::Err<T>));
}
inline void RegUser(jf::FunctionRegistry* r) {
  using V = jf::ValueType;
  using FS = jf::FunctionSignature;
#define X(n, c, S) RegType<c>(r, #n, V::k##S); RegType<jf::S##ListStruct>(r, #n "list", V::k##S##List);
  NUM_TYPES(X)
#undef X
  RegType<jf::StringStruct>(r, "string", V::kString);
  RegType<jf::StringListStruct>(r, "stringlist", V::kStringList);
  Must(r->RegisterCommutativeCFunc(FS("cm_i64", {V::kI64, V::kI64}, V::kI64), (void*)fns::Cm));
  Must(r->RegisterCommutativeCFuncWithExecCtx(FS("cme_i64", {V::kI64, V::kI64}, V::kI64), (void*)fns::Cme));
  Must(r->RegisterReadOnlyCFuncWithExecCtx(FS("sync", {V::kPtr, V::kI64}, V::kI64), (void*)fns::Sync));
  Must(r->RegisterReadOnlyCFuncWithExecCtx(FS("rep_i64", {V::kI64, V::kI32}, V::kI64List), (void*)fns::Rep));
}
