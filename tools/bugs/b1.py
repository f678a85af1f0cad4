BUGS = [
dict(id="switch-nan-cond", property="P03",
  needs="a switch whose non-first condition is a run-time floating value that is NaN",
  breaks="a NaN condition of a switch counts as true, so the wrong branch is evaluated",
  edits=[("src/codegen/switch_codegen.cc", "CreateFCmpONE(cond_value", "CreateFCmpUNE(cond_value")],
  demo='''
int main() {
  Reg r = NewReg();
  RegArgs(r);
  double a[2] = {__builtin_nan(""), 1.0};
  auto v = Run(Sw(AF(0), C((int64_t)1), AF(1), C((int64_t)2), C((int64_t)3)), r, a);
  Need(std::get<int64_t>(v) == 2, "NaN is not a true condition");
}'''),
dict(id="error-dedup", property="P06",
  needs="one execution that reports the same message twice in a row from two different calls",
  breaks="a repeated error message is reported only once",
  edits=[("include/exec_options.h", "void AddError(std::string msg) { errors.emplace_back(std::move(msg)); }",
          "void AddError(std::string msg) {\n    if (errors.empty() || errors.back() != msg) {\n      errors.emplace_back(std::move(msg));\n    }\n  }")],
  demo='''
int main() {
  Reg r = NewReg();
  RegArgs(r);
  Need(r->RegisterReadOnlyCFuncWithExecCtx({"err", {VT::kI64, VT::kI64}, VT::kI64}, (void*)ErrI64).ok(), "reg");
  Node n = Bin(B::kAdd, F("err", AI(0), C((int64_t)4)), F("err", AI(1), C((int64_t)4)));
  jf::ExecEngine e(Opt());
  Need(e.Compile(n, r).ok(), "compile");
  int64_t a[2] = {1, 2};
  jf::RetType v;
  auto s = e.Execute(a, &v);
  Need(s.ToString() == "Runtime Error: E4; E4", "both errors are reported");
}'''),
dict(id="scope-shadow-one", property="P04",
  needs="five nested if-blocks whose outer bodies introduce variables, the innermost assigning a variable of the outermost scope",
  breaks="an assignment made five if-blocks deep to an outermost variable is lost",
  edits=[("src/scope_stack.h", "        if (it->find(name) != it->end()) {\n          shadowed[name] = value;\n          break;\n        }",
          "        if (it->find(name) != it->end()) {\n          shadowed[name] = value;\n        }\n        if (stack_.size() > 5 && !it->empty()) {\n          break;\n        }")],
  demo='''
int main() {
  Reg r = NewReg();
  RegArgs(r);
  Need(r->RegisterStoreCFunc({"st", {VT::kPtr, VT::kI64}, VT::kVoid}, (void*)StI64, 1).ok(), "reg");
  // x = a0; if (a1) { y = 1; if (a1) { z = 1; if (a1) { w = 1; if (a1) { x = 7 } } } } st(x)
  Node body = IB(AI(1), Seq({jf::VarInfo("x", false)}, L(C((int64_t)7))));
  for (const char* v : {"u", "w", "z", "y"})
    body = IB(AI(1), Seq({jf::VarInfo(v, false), jf::VarInfo("", false)}, L(C((int64_t)1), std::move(body))));
  Node outer = std::move(body);
  Node n = Seq({jf::VarInfo("x", false), jf::VarInfo("", false), jf::VarInfo("", false)},
               L(AI(0), std::move(outer), F("st", OUT(), Ref("x"))));
  jf::ExecEngine e(Opt());
  auto s = e.Compile(n, r);
  Need(s.ok(), s.ToString().c_str());
  int64_t a[2] = {5, 1};
  std::vector<int64_t> out;
  Need(e.Execute(a, (void*)&out).ok(), "execute");
  Need(out.size() == 1 && out[0] == 7, "the inner assignment persists");
}'''),
]
