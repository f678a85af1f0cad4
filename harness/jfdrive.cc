// Conformance driver: performs the steps of each scenario (one JSON object per input line)
// against the real library and prints one JSON line per observed event.
//   jfdrive SCENARIOS OUT [first-line]
#include <csignal>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <thread>
#include <unistd.h>
#include "arena.h"
#include "athena.h"
#include "batch_exec_engine.h"
#include "diagnostic.h"
#include "exec_engine.h"
#include "userfns.h"

using jf::Status;

static FILE* g_out;
static void Emit(size_t scen, const json& ev) {
  std::string s = json{{"i", scen}, {"e", ev}}.dump();
  s += '\n';
  fwrite(s.data(), 1, s.size(), g_out);
  fflush(g_out);
}

// ---- statuses -------------------------------------------------------------------------------
static std::string Clean(const std::string& s) {
  std::string r;
  for (unsigned char c : s) r += (c >= 32 && c < 127) ? (char)c : '?';
  return r;
}
static std::string Code(const Status& s, std::string* rest = nullptr) {
  std::string m = s.ToString();
  if (s.ok()) return m == "OK" ? "ok" : "badok";
  static const std::pair<const char*, const char*> k[] = {{"Argument Invalid: ", "invalid"},
                                                          {"Runtime Error: ", "runtime"},
                                                          {"Parse Error: ", "parse"},
                                                          {"NotImplemented: ", "notimpl"}};
  for (const auto& p : k)
    if (m.rfind(p.first, 0) == 0) {
      if (rest) *rest = m.substr(std::string(p.first).size());
      return p.second;
    }
  if (rest) *rest = m;
  return "other";
}
static json Split(const std::string& s, const std::string& sep) {
  json a = json::array();
  size_t p = 0;
  while (true) {
    size_t q = s.find(sep, p);
    a.push_back(Clean(s.substr(p, q == std::string::npos ? q : q - p)));
    if (q == std::string::npos) return a;
    p = q + sep.size();
  }
}
static void PutStatus(json& e, const Status& s) {
  std::string rest;
  e["code"] = Code(s, &rest);
  e["errs"] = e["code"] == "runtime" ? Split(rest, "; ") : json::array();
  if (e["code"] != "ok") e["msg"] = Clean(rest).substr(0, 2000);
}
// ExecuteAll joins one status per failing entry
static void PutAllStatus(json& e, const Status& s) {
  std::string rest;
  e["code"] = Code(s, &rest);
  json groups = json::array();
  if (e["code"] == "runtime") {
    for (const auto& g : Split(rest, "| ")) {
      std::string t = g.get<std::string>();
      const std::string pre = "Runtime Error: ";
      if (t.rfind(pre, 0) == 0) groups.push_back(Split(t.substr(pre.size()), "; "));
      else groups.push_back(json::array({"?" + t}));
    }
  }
  e["errs"] = groups;
  if (e["code"] != "ok") e["msg"] = Clean(rest).substr(0, 2000);
}

// ---- the objects of a scenario -----------------------------------------------------------------
struct Engine {
  std::string kind;
  std::unique_ptr<jf::ExecEngine> one;
  std::unique_ptr<jf::BatchExecEngine> batch;
  std::unique_ptr<athena::AthenaExpression> expr;
  std::unique_ptr<athena::AthenaPipeline> pipe;
};
struct World {
  size_t id;
  const json& sc;
  std::vector<Engine> engines;
  std::map<int, std::unique_ptr<jf::FunctionRegistry>> regs;
  std::map<int, std::unique_ptr<jf::ExecContext>> ctxs;
  std::map<int, std::string> blobs;
  std::vector<std::unique_ptr<Inputs>> ins;
  std::map<int, std::unique_ptr<jf::ExecNode>> trees;
  std::map<int, jf::RetType> kept;      // results the caller holds on to
  std::string src;
  World(size_t i, const json& s) : id(i), sc(s) {}
};

static std::unique_ptr<jf::FunctionRegistry> g_default;
static const std::unique_ptr<jf::FunctionRegistry>& Reg(World& w, const json& st) {
  int r = st.value("r", -1);
  if (r < 0) return g_default;
  return w.regs.at(r);
}
static void MakeEngine(Engine& e, const json& d) {
  jf::ExecEngineOption o;
  o.fp_math_mode = d.value("fp", 0) ? jf::FPMathMode::kFast : jf::FPMathMode::kStrict;
  o.enable_save_compiled = d.value("save", 0) != 0;
  o.dump_ir = d.value("ir", 0) != 0;
  o.exec_ctx_arena_alloc_min_chunk_size = d.value("chunk", 4096);
  e = Engine();
  e.kind = d.at("k");
  if (e.kind == "single") e.one = std::make_unique<jf::ExecEngine>(o);
  if (e.kind == "batch") e.batch = std::make_unique<jf::BatchExecEngine>(o);
  if (e.kind == "expr") e.expr = std::make_unique<athena::AthenaExpression>(o);
  if (e.kind == "pipe") e.pipe = std::make_unique<athena::AthenaPipeline>(o);
}
static std::string Text(World& w, const json& i) { return BytesV(w.sc.at("texts").at(i.get<int>())); }

// the exact bytes of the report of a rejected text
static void PutReport(const json& st, json& e, const Status& s) {
  if (!st.value("diag", 0) || e["code"] != "parse") return;
  std::string rest;
  Code(s, &rest);
  e["mb"] = BytesJ(rest.data(), rest.size());
}

static jf::ExecNode* Sub(jf::ExecNode* n, const json& path) {
  for (const auto& i : path) {
    int k = i.get<int>();
    if (auto* u = dynamic_cast<jf::UnaryOPNode*>(n)) n = u->GetChild();
    else if (auto* b = dynamic_cast<jf::BinaryOPNode*>(n)) n = k ? b->GetRight() : b->GetLeft();
    else if (auto* f = dynamic_cast<jf::FunctionNode*>(n)) n = f->GetArgs().at(k).get();
    else if (auto* q = dynamic_cast<jf::NoOPNode*>(n)) n = q->GetArgs().at(k).get();
    else if (auto* f = dynamic_cast<jf::IfNode*>(n)) n = f->GetArgs().at(k).get();
    else if (auto* f = dynamic_cast<jf::SwitchNode*>(n)) n = f->GetArgs().at(k).get();
    else if (auto* f = dynamic_cast<jf::IfBlockNode*>(n)) n = f->GetArgs().at(k).get();
    else throw std::runtime_error("bad path");
  }
  return n;
}
// operations on program trees
static void DoTree(World& w, const std::string& op, const json& st, json& e) {
  if (op == "tree") { w.trees[st.at("tr")] = Build(w.sc.at("progs").at(st.at("p").get<int>())); return; }
  int id = st.at("tr");
  if (op == "drop") { w.trees.erase(id); return; }
  jf::ExecNode* n = Sub(w.trees.at(id).get(), st.at("at"));
  if (op == "clone") {
    auto c = n->Clone();
    w.trees[st.at("to")] = std::move(c);
  } else if (op == "append") {
    auto x = Build(w.sc.at("progs").at(st.at("p").get<int>()));
    const std::string name = st.value("n", "");
    if (auto* f = dynamic_cast<jf::FunctionNode*>(n)) f->AppendArgs(std::move(x));
    else if (auto* f = dynamic_cast<jf::IfNode*>(n)) f->AppendArgs(std::move(x));
    else if (auto* f = dynamic_cast<jf::SwitchNode*>(n)) f->AppendArgs(std::move(x));
    else if (auto* q = dynamic_cast<jf::NoOPNode*>(n)) {
      if (name.empty() && st.value("c", 0) == 0) q->AppendArgs(std::move(x));
      else if (st.value("c", 0) == 0) q->AppendArgs(name, std::move(x));
      else q->AppendArgs(name, std::move(x), true);
    } else throw std::runtime_error("bad append");
  } else if (op == "setloc") n->SetLocation(LocOf(st.at("p")));
  else {      // print
    std::string a = n->ToString(st.value("pre", ""));
    e["s"] = BytesJ(a.data(), a.size());
  }
}

static void DoCompile(World& w, const json& st, json& e) {
  Engine& g = w.engines.at(st.at("e"));
  const auto& reg = Reg(w, st);
  json types = json::array();
  const bool slots = st.contains("tr");      // programs that are trees of the scenario
  const json& p = slots ? st.at("tr") : st.at("p");
  bool clone = st.value("clone", 0) != 0;
  auto mk = [&](const json& i) {
    auto n = Build(w.sc.at("progs").at(i.get<int>()));
    if (clone) {
      auto c = n->Clone();
      n.reset();
      n = std::move(c);
    }
    return n;
  };
  if (g.one) {
    std::unique_ptr<jf::ExecNode> own;
    if (!slots) own = mk(p.at(0));
    const auto& n = slots ? w.trees.at(p.at(0)) : own;
    Status s = g.one->Compile(n, reg);
    if (s.ok()) types.push_back(NameOf(n->GetReturnType()));
    PutStatus(e, s);
    PutReport(st, e, s);
  } else if (g.batch) {
    std::vector<std::unique_ptr<jf::ExecNode>> ns;
    // (a batch is compiled from the trees themselves, which stay where they are)
    for (const auto& i : p) ns.push_back(slots ? std::move(w.trees.at(i)) : mk(i));
    Status s = g.batch->Compile(ns, reg);
    if (s.ok()) {
      bool same = g.batch->GetFunctionCount() == ns.size();
      for (size_t i = 0; i < g.batch->GetFunctionCount(); i++) {
        std::string t = NameOf(g.batch->GetReturnType(i));
        if (!same || t != NameOf(ns[i]->GetReturnType())) t += "!";
        types.push_back(t);
      }
    }
    PutStatus(e, s);
    PutReport(st, e, s);
    if (slots)
      for (size_t i = 0; i < p.size(); i++) w.trees[p[i]] = std::move(ns[i]);
  } else if (g.expr) {
    Status s = g.expr->Compile(Text(w, p.at(0)), reg);
    PutStatus(e, s);
    PutReport(st, e, s);
  } else {
    std::vector<std::string> ts;
    for (const auto& i : p) ts.push_back(Text(w, i));
    Status s = g.pipe->Compile(ts, reg);
    PutStatus(e, s);
    PutReport(st, e, s);
  }
  e["types"] = types;
}

static jf::RetType Poison() { return std::string("\x01unset"); }

// one execution of entry `at`, with the given context or none
static Status Run(Engine& g, size_t at, jf::ExecContext* c, void* ea, bool isvoid, jf::RetType* rv, OutBuf* out) {
  if (g.one) {
    if (isvoid) return c ? g.one->Execute(*c, ea, (void*)out) : g.one->Execute(ea, (void*)out);
    return c ? g.one->Execute(*c, ea, rv) : g.one->Execute(ea, rv);
  }
  if (g.batch) {
    if (isvoid) return c ? g.batch->ExecuteAt(at, *c, ea, (void*)out) : g.batch->ExecuteAt(at, ea, (void*)out);
    return c ? g.batch->ExecuteAt(at, *c, ea, rv) : g.batch->ExecuteAt(at, ea, rv);
  }
  if (g.expr) return c ? g.expr->Execute(*c, ea, rv) : g.expr->Execute(ea, rv);
  return c ? g.pipe->Execute(*c, ea, (void*)out) : g.pipe->Execute(ea, (void*)out);
}
static void PutResult(json& e, bool isvoid, const jf::RetType& rv, const OutBuf& out) {
  if (isvoid) {
    e["log"] = ReadLog(out);
    e["t"] = "void";
    e["v"] = json::array();
  } else {
    e["log"] = json::array();
    json j = ToJ(rv);
    e["t"] = j["t"];
    e["v"] = j["v"];
  }
}
static jf::ExecContext* Ctx(World& w, const json& st) {
  int c = st.value("c", -1);
  return c < 0 ? nullptr : w.ctxs.at(c).get();
}
static void DoExec(World& w, const json& st, json& e) {
  Engine& g = w.engines.at(st.at("e"));
  Inputs& in = *w.ins.at(st.at("in").get<int>() - 1);
  auto out = std::make_unique<OutBuf>();
  jf::RetType rv = Poison();
  // a result the caller no longer needs is used again
  if (st.contains("keep") && w.kept.count(st.at("keep"))) rv = std::move(w.kept[st.at("keep")]);
  bool isvoid = st.at("api") == "void";
  jf::ExecContext* c = Ctx(w, st);
  Status s = Run(g, st.value("at", 0), c, in.get(), isvoid, &rv, out.get());
  if (g.pipe) PutAllStatus(e, s);
  else PutStatus(e, s);
  PutResult(e, isvoid, rv, *out);
  e["inok"] = in.Intact() ? 1 : 0;
  e["cleft"] = c ? (int)c->errors.size() : 0;
  if (st.contains("keep")) w.kept[st.at("keep")] = std::move(rv);
}
static void RunAll(Engine& g, jf::ExecContext* c, Inputs& in, bool isvoid, OutBuf* out, json& e);
static void DoExecAll(World& w, const json& st, json& e) {
  auto out = std::make_unique<OutBuf>();
  RunAll(w.engines.at(st.at("e")), Ctx(w, st), *w.ins.at(st.at("in").get<int>() - 1), st.at("api") == "void", out.get(), e);
}
static void RunAll(Engine& g, jf::ExecContext* c, Inputs& in, bool isvoid, OutBuf* out, json& e) {
  std::vector<jf::RetType> rvs(3, Poison());
  Status s = isvoid ? (c ? g.batch->ExecuteAll(*c, in.get(), (void*)out) : g.batch->ExecuteAll(in.get(), (void*)out))
                    : (c ? g.batch->ExecuteAll(*c, in.get(), &rvs) : g.batch->ExecuteAll(in.get(), &rvs));
  PutAllStatus(e, s);
  e["log"] = isvoid ? ReadLog(*out) : json::array();
  json vals = json::array();
  if (!isvoid)
    for (const auto& r : rvs) vals.push_back(ToJ(r));
  e["vals"] = vals;
  e["inok"] = in.Intact() ? 1 : 0;
  e["cleft"] = c ? (int)c->errors.size() : 0;
}

// several threads run executions of shared engines; with an order, one thread runs at a time,
// from one scheduling point (the start of an execution, or a call of sync in it) to the next
static void DoThreads(World& w, const json& st, json& e) {
  const json& ts = st.at("t");
  Sched sched;
  for (const auto& x : st.at("order")) sched.order.push_back(x.get<int>());
  sched.done.resize(ts.size());
  Sched* sp = sched.order.empty() ? nullptr : &sched;
  std::vector<json> res(ts.size(), json::array());
  std::vector<std::vector<std::unique_ptr<Inputs>>> ins(ts.size());
  std::vector<std::unique_ptr<jf::ExecContext>> ctx(ts.size());
  for (size_t t = 0; t < ts.size(); t++) {
    if (ts[t].at("ctx").get<int>() > 0) ctx[t] = std::make_unique<jf::ExecContext>(ts[t].at("ctx").get<int>());
    for (const auto& x : ts[t].at("runs")) {
      ins[t].push_back(std::make_unique<Inputs>(w.sc.at("ins").at(x.at("in").get<int>() - 1)));
      ins[t].back()->get()->tid = t;
      ins[t].back()->get()->sched = sp;
    }
  }
  std::atomic<size_t> ready{0};
  std::vector<std::thread> th;
  for (size_t t = 0; t < ts.size(); t++)
    th.emplace_back([&, t] {
      ready++;
      while (ready < ts.size()) std::this_thread::yield();
      size_t k = 0;
      auto out = std::make_unique<OutBuf>();
      for (const auto& x : ts[t].at("runs")) {
        Engine& g = w.engines.at(x.at("e"));
        Inputs& in = *ins[t][k++];
        bool isvoid = x.at("api") == "void";
        json first;
        for (int rep = 0; rep < x.value("rep", 1); rep++) {
          out->used = 0;
          json ev = x;
          if (sp) sp->Turn(t);
          if (x.value("all", 0)) RunAll(g, ctx[t].get(), in, isvoid, out.get(), ev);
          else {
            jf::RetType rv = Poison();
            Status s = Run(g, x.value("at", 0), ctx[t].get(), in.get(), isvoid, &rv, out.get());
            if (g.pipe) PutAllStatus(ev, s);
            else PutStatus(ev, s);
            PutResult(ev, isvoid, rv, *out);
            ev["inok"] = in.Intact() ? 1 : 0;
            ev["cleft"] = ctx[t] ? (int)ctx[t]->errors.size() : 0;
          }
          // of equal repetitions only the first is reported
          if (rep == 0) res[t].push_back(first = ev);
          else if (ev != first) { res[t].push_back(ev); break; }
        }
      }
      if (sp) sp->End(t);
    });
  for (auto& t : th) t.join();
  e["res"] = res;
  e["broken"] = sched.broken ? 1 : 0;
  e["off"] = sched.extra + sched.skipped + (int)(sched.order.size() - std::min(sched.pos, sched.order.size()));
}

// ---- registry -------------------------------------------------------------------------------------
static jf::FunctionSignature Sig(const json& st) {
  std::vector<jf::ValueType> ps;
  for (const auto& t : st.at("params")) ps.push_back(TypeOf(t));
  return {st.at("name").get<std::string>(), ps, TypeOf(st.value("ret", "unknown"))};
}
static void DoReg(World& w, const json& st, json& e) {
  auto* r = Reg(w, st).get();
  auto sig = Sig(st);
  std::string kind = st.at("kind"), impl = st.at("impl");
  bool ov = st.value("ov", 0) != 0;
  void* p = impl == "null" ? nullptr : fns::Impl(impl);
  Status s;
  if (kind == "ro") s = r->RegisterReadOnlyCFunc(sig, p, ov);
  else if (kind == "roctx") s = r->RegisterReadOnlyCFuncWithExecCtx(sig, p, ov);
  else if (kind == "store") s = r->RegisterStoreCFunc(sig, p, 1, ov);
  else if (kind == "comm") s = r->RegisterCommutativeCFunc(sig, p, ov);
  else if (kind == "commctx") s = r->RegisterCommutativeCFuncWithExecCtx(sig, p, ov);
  else if (kind == "intr") {
    jf::CodeGenFunc f = nullptr;
    if (impl != "null") {
      int k = impl[1] - '0';        // n<k>: x * 10 + k
      f = [k](const jf::FunctionSignature&, const std::vector<llvm::Type*>&, const std::vector<llvm::Value*>& a,
              jf::IRCodeGenContext& c) -> llvm::Value* {
        return c.builder.CreateAdd(c.builder.CreateMul(a[0], c.builder.getInt32(10)), c.builder.getInt32(k));
      };
    }
    s = r->RegisterLLVMIntrinicFunc(sig, f, ov);
  } else {
    jf::FunctionStructure fs;
    fs.func_type = jf::FunctionType::kCFunc;
    fs.c_func_ptr = p;
    s = r->RegisterFunc(sig, fs, ov);
  }
  PutStatus(e, s);
}
static void DoLookup(World& w, const json& st, json& e) {
  auto sig = Sig(st);
  jf::FunctionStructure fs;
  Status s = Reg(w, st)->GetFuncBySign(sig, &fs);
  PutStatus(e, s);
  e["rt"] = s.ok() ? NameOf(sig.GetRetType()) : "none";
  e["isc"] = s.ok() ? (fs.func_type == jf::FunctionType::kCFunc ? 1 : 0) : 0;
  e["nctx"] = s.ok() ? (fs.needs_exec_ctx ? 1 : 0) : 0;
}

// ---- artifacts ----------------------------------------------------------------------------------------
static void DoSave(World& w, const json& st, json& e) {
  Engine& g = w.engines.at(st.at("e"));
  std::string out = st.value("pre", std::string());
  std::string* o = st.value("null", 0) ? nullptr : &out;
  Status s = g.one ? g.one->SaveCompiled(o) : g.batch->SaveCompiled(o);
  PutStatus(e, s);
  e["pre"] = st.value("pre", std::string());
  e["has"] = out.empty() ? 0 : 1;
  e["magic"] = BytesJ(out.data(), std::min<size_t>(4, out.size()));
  if (st.value("full", 0)) e["bytes"] = BytesJ(out.data(), out.size());
  if (s.ok()) w.blobs[st.at("b")] = out;
}
// where the fields of a well-formed artifact begin
static std::map<std::string, size_t> Fields(const std::string& b) {
  std::map<std::string, size_t> f;
  size_t p = 0;
  auto u = [&](size_t n) { uint64_t v = 0; for (size_t i = 0; i < n && p + i < b.size(); i++) v |= (uint64_t)(uint8_t)b[p + i] << (8 * i); p += n; return v; };
  f["magic"] = 0; p = 4;
  f["ver"] = p; u(4);
  for (const char* k : {"1", "2", "3"}) {
    f[std::string("l") + k] = p;
    size_t n = u(4);
    f[std::string("s") + k] = p;
    p += n;
  }
  f["mode"] = p++; f["fp"] = p++;
  f["n"] = p; size_t n = u(4);
  f["ret"] = p; p += n;
  f["osz"] = p; n = u(8);
  f["obj"] = p; p += n;
  f["extc"] = p; u(4);
  f["foot"] = b.size() - 4;
  f["end"] = b.size();
  return f;
}
// derive a blob from another one by edits at positions relative to the fields of the original
static void DoBlob(World& w, const json& st, json& e) {
  const std::string src = st.contains("from") ? w.blobs.at(st.at("from")) : BytesV(st.at("raw"));
  std::string b = src;
  json done = json::array();
  if (st.contains("edits")) {
    auto f = Fields(src);
    // applied from the back, so that positions stay those of the original
    std::vector<std::pair<size_t, json>> ed;
    for (const auto& x : st.at("edits")) {
      size_t p;
      if (x.contains("pm")) {
        p = src.size() * x.at("pm").get<int>() / 1000;
        // the machine code itself is LLVM's to judge: flip the bytes around it, not within it
        if (x.at("k") == "xor" && p >= f["obj"] && p < f["extc"]) p = f["extc"] + p % 8;
      }
      else p = f.at(x.at("f").get<std::string>()) + x.value("o", 0);
      ed.push_back({std::min(p, src.size()), x});
    }
    std::stable_sort(ed.begin(), ed.end(), [](const auto& a, const auto& c) { return a.first > c.first; });
    for (auto& [p, x] : ed) {
      const std::string k = x.at("k");
      json d = {{"k", k}, {"p", (int)p}, {"v", x.value("v", json::array())}, {"n", x.value("n", 0)}};
      if (k == "set") { size_t q = p; for (const auto& v : x.at("v")) if (q < b.size()) b[q++] = (char)v.get<int>(); }
      else if (k == "xor") { if (p < b.size()) { b[p] ^= (char)x.at("n").get<int>(); d = {{"k", "set"}, {"p", (int)p}, {"v", {(int)(uint8_t)b[p]}}, {"n", 0}}; } }
      else if (k == "ins") b.insert(p, BytesV(x.at("v")));
      else if (k == "del") b.erase(p, x.at("n").get<int>());
      else if (k == "cut") b.resize(p);
      else throw std::runtime_error("bad edit");
      done.push_back(d);
    }
  }
  w.blobs[st.at("b")] = b;
  e["edits"] = done;
  e["size"] = (int)b.size();
  e["same"] = st.contains("from") && b == src ? 1 : 0;
}
static bool DoLoad(World& w, const json& st, json& e) {
  Engine& g = w.engines.at(st.at("e"));
  jf::LoadCompiledOptions o;
  int relax = st.value("relax", 0);
  if (relax & 1) o.check_llvm_version = false;
  if (relax & 2) o.check_target_triple = false;
  if (relax & 4) o.check_cpu_name = false;
  // an exact-size copy, so that nothing readable follows the bytes
  const std::string& b = w.blobs[st.at("b")];      // never saved: no bytes
  std::unique_ptr<char[]> buf(new char[b.size()]);
  std::memcpy(buf.get(), b.data(), b.size());
  std::string_view v(buf.get(), b.size());
  Status s = g.one ? g.one->LoadCompiled(v, Reg(w, st), o) : g.batch->LoadCompiled(v, Reg(w, st), o);
  PutStatus(e, s);
  return s.ok();
}
static void DoDump(World& w, const json& st, json& e) {   // the bytes of a blob around its object
  const std::string& b = w.blobs.at(st.at("b"));
  size_t n = st.value("n", 200);
  e["head"] = BytesJ(b.data(), std::min(n, b.size()));
  size_t t = std::min<size_t>(st.value("tail", 40), b.size());
  e["tail"] = BytesJ(b.data() + b.size() - t, t);
  e["size"] = (int)b.size();
}

// ---- arena ------------------------------------------------------------------------------------------------
static json Addr(const void* p) {
  uint64_t a = (uint64_t)p;
  return json::array({(int)(a >> 24), (int)(a & 0xffffff)});
}
static std::vector<int>* g_dtor;
struct Obj {                          // an object with a destructor that is observed
  explicit Obj(int i) : id(i) {}
  ~Obj() { if (g_dtor) g_dtor->push_back(id); id = -1; }
  int id;
  char pad[20];
};
struct alignas(64) BigObj {
  explicit BigObj(int i) : id(i) {}
  ~BigObj() { if (g_dtor) g_dtor->push_back(id); id = -1; }
  int id;
};
struct Triv { int64_t a, b; };
static void RunArena(size_t id, const json& sc) {
  std::vector<int> dtor;
  g_dtor = &dtor;
  auto ar = std::make_unique<jf::Arena>((size_t)sc.at("chunk").get<int>());
  struct Live { uint8_t* p; size_t n; int k; };
  std::vector<Live> live;
  int k = 0;
  for (const auto& st : sc.at("steps")) {
    json e = st;
    e["ev"] = st.at("op");
    e.erase("op");
    dtor.clear();
    const std::string op = st.at("op");
    auto note = [&](uint8_t* p, size_t n) {
      e["null"] = p == nullptr ? 1 : 0;
      e["addr"] = Addr(p);
      if (p && n) {
        // write the whole block with its own pattern
        for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(k * 37 + i * 11 + 5);
        live.push_back({p, n, k});
      }
      k++;
    };
    if (op == "alloc") {
      size_t n = st.at("n").get<int>();
      note(st.contains("al") && st.at("al").get<int>() > 0 ? ar->Allocate(n, st.at("al").get<int>()) : ar->Allocate(n), n);
    } else if (op == "huge") {      // a request no machine can satisfy
      uint8_t* p = ar->Allocate((size_t)1 << st.at("n").get<int>());
      e["null"] = p == nullptr ? 1 : 0;
    } else if (op == "create") {
      const std::string c = st.at("c");
      int oid = st.at("id");
      if (c == "obj") { Obj* o = ar->Create<Obj>(oid); e["null"] = o == nullptr; e["addr"] = Addr(o); }
      if (c == "big") { BigObj* o = ar->Create<BigObj>(oid); e["null"] = o == nullptr; e["addr"] = Addr(o); }
      if (c == "triv") { Triv* o = ar->Create<Triv>(); e["null"] = o == nullptr; e["addr"] = Addr(o); }
      e["null"] = e["null"].get<bool>() ? 1 : 0;
      e["size"] = (int)(c == "obj" ? sizeof(Obj) : c == "big" ? sizeof(BigObj) : sizeof(Triv));
      e["al"] = (int)(c == "obj" ? alignof(Obj) : c == "big" ? alignof(BigObj) : alignof(Triv));
      k++;
    } else if (op == "reset") {
      ar->Reset();
      live.clear();
    } else if (op == "destroy") {
      ar.reset();
      live.clear();
    }
    bool intact = true;
    for (const auto& l : live)
      for (size_t i = 0; i < l.n; i++)
        if (l.p[i] != (uint8_t)(l.k * 37 + i * 11 + 5)) intact = false;
    e["intact"] = intact ? 1 : 0;
    e["dtor"] = dtor;
    e["total"] = ar ? (int)ar->total_bytes() : 0;
    e["avail"] = ar ? (int)ar->avail_bytes() : 0;
    Emit(id, e);
    if (op == "destroy") break;
  }
  ar.reset();
  g_dtor = nullptr;
}

// ---- one scenario -------------------------------------------------------------------------------------------
static void RunScenario(size_t id, const json& sc) {
  if (sc.value("kind", "") == "arena") return RunArena(id, sc);
  World w(id, sc);
  for (const auto& d : sc.value("engines", json::array())) {
    w.engines.emplace_back();
    MakeEngine(w.engines.back(), d);
  }
  int ci = 0;
  for (const auto& c : sc.value("ctxs", json::array())) w.ctxs[ci++] = std::make_unique<jf::ExecContext>(c.get<int>());
  for (const auto& v : sc.value("ins", json::array())) w.ins.push_back(std::make_unique<Inputs>(v));
  g_src = nullptr;
  if (sc.contains("src")) {
    w.src = BytesV(sc.at("src"));
    g_src = &w.src;
  }
  int skip = 0;
  for (const auto& st : sc.at("steps")) {
    const std::string op = st.at("op");
    if (skip > 0) { skip--; continue; }
    json e = st;
    e.erase("op");
    e["ev"] = op;
    if (op == "compile") DoCompile(w, st, e);
    else if (op == "exec") DoExec(w, st, e);
    else if (op == "execall") DoExecAll(w, st, e);
    else if (op == "threads") DoThreads(w, st, e);
    else if (op == "reg") DoReg(w, st, e);
    else if (op == "lookup") DoLookup(w, st, e);
    else if (op == "newreg") {
      auto& r = w.regs[st.at("r")];
      Must(jf::FunctionRegistryFactory::CreateFunctionRegistry(&r));
      if (st.value("user", 0)) RegUser(r.get());
    } else if (op == "delreg") w.regs.at(st.at("r")).reset();
    else if (op == "newengine") MakeEngine(w.engines.at(st.at("e")), sc.at("engines").at(st.at("e").get<int>()));
    else if (op == "count") {
      Engine& g = w.engines.at(st.at("e"));
      e["n"] = (int)g.batch->GetFunctionCount();
      json ts = json::array();
      for (size_t i = 0; i < g.batch->GetFunctionCount(); i++) ts.push_back(NameOf(g.batch->GetReturnType(i)));
      e["types"] = ts;
    } else if (op == "ir") {
      Engine& g = w.engines.at(st.at("e"));
      std::string_view v = g.one ? g.one->GetIRCode() : g.batch ? g.batch->GetIRCode() : g.expr ? g.expr->GetIRCode() : g.pipe->GetIRCode();
      e["has"] = v.empty() ? 0 : 1;
    } else if (op == "save") DoSave(w, st, e);
    else if (op == "load") {
      // steps that must not follow a load that went through
      if (DoLoad(w, st, e)) skip = st.value("guard", 0);
    }
    else if (op == "blob") DoBlob(w, st, e);
    else if (op == "dump") DoDump(w, st, e);
    else if (op == "ctxerr") w.ctxs.at(st.at("c"))->AddError(st.at("m").get<std::string>());
    else if (op == "ctxclear") w.ctxs.at(st.at("c"))->Clear();
    else if (op == "tree" || op == "clone" || op == "append" || op == "drop" || op == "setloc" || op == "print") DoTree(w, op, st, e);
    else if (op == "reread") {
      json j = ToJ(w.kept.at(st.at("keep")));
      e["t"] = j["t"];
      e["v"] = j["v"];
    } else if (op == "newin") {     // the arguments are destroyed, and others take their place
      auto& x = w.ins.at(st.at("in").get<int>() - 1);
      x->Scribble();
      x.reset();
      x = std::make_unique<Inputs>(sc.at("ins").at(st.at("as").get<int>() - 1));
    } else if (op == "newctx") {
      auto& x = w.ctxs.at(st.at("c"));
      x.reset();
      x = std::make_unique<jf::ExecContext>(sc.at("ctxs").at(st.at("c").get<int>()).get<int>());
    } else if (op == "report") {      // the diagnostics class itself
      jf::Diagnostic d(st.at("warn").get<int>() ? jf::Diagnostic::Level::kWarning : jf::Diagnostic::Level::kError, BytesV(st.at("m")),
                       st.contains("p") ? LocOf(st.at("p")) : jf::SourceLocation{});
      for (const auto& x : st.at("notes")) d.WithNote(BytesV(x));
      for (const auto& x : st.at("hints")) d.WithHint(BytesV(x));
      std::string a = d.Render();
      e["mb"] = BytesJ(a.data(), a.size());
    } else throw std::runtime_error("bad op " + op);
    Emit(id, e);
  }
}

int main(int argc, char** argv) {
  if (argc < 3) return 96;
  size_t first = argc > 3 ? strtoul(argv[3], nullptr, 10) : 0;
  std::ifstream in(argv[1]);
  g_out = fopen(argv[2], first ? "a" : "w");
  if (!g_out) return 96;
  Must(jf::FunctionRegistryFactory::CreateFunctionRegistry(&g_default));
  RegUser(g_default.get());
  std::string line;
  for (size_t i = 0; std::getline(in, line); i++) {
    if (i < first) continue;
    json sc = json::parse(line);
    Emit(i, {{"ev", "begin"}});
    alarm(sc.value("limit", 60));
    try {
      RunScenario(i, sc);
    } catch (const std::exception& x) {
      // an exception that leaves the library is part of what was observed
      Emit(i, {{"ev", "throw"}, {"what", Clean(x.what())}});
    }
    alarm(0);
    Emit(i, {{"ev", "end"}});
  }
  fclose(g_out);
  _exit(0);
}
