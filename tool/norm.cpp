#include "vf.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/LoopPeel.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/IR/ValueHandle.h"
#include <deque>

namespace vf {

bool starts(const std::string &s, const char *p) { return s.rfind(p, 0) == 0; }

static std::string dropTemplates(const std::string &s) {
  std::string r;
  int d = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    char ch = s[i];
    if (ch == '<' && (r.size() < 8 || r.substr(r.size() - 8) != "operator")) {
      ++d;
      continue;
    }
    if (ch == '>' && d) {
      --d;
      continue;
    }
    if (!d)
      r += ch;
  }
  return r;
}

const Names &names(const Function *F) {
  static std::map<const Function *, Names> cache;
  static std::map<const Function *, std::string> key;
  auto it = cache.find(F);
  if (it != cache.end() && key[F] == F->getName())
    return it->second;
  Names n;
  std::string m = F->getName().str();
  ItaniumPartialDemangler D;
  if (!D.partialDemangle(m.c_str())) {
    auto get = [&](char *(ItaniumPartialDemangler::*f)(char *, size_t *) const) {
      size_t l = 0;
      char *p = (D.*f)(nullptr, &l);
      std::string s = p ? p : "";
      free(p);
      return s;
    };
    n.full = get(&ItaniumPartialDemangler::finishDemangle);
    if (D.isFunction()) {
      n.ctx = dropTemplates(get(&ItaniumPartialDemangler::getFunctionDeclContextName));
      n.base = dropTemplates(get(&ItaniumPartialDemangler::getFunctionBaseName));
    } else
      n.base = n.full;
  } else {
    n.full = n.base = m;
  }
  n.isStd = starts(n.ctx, "std") || starts(n.ctx, "__gnu_cxx");
  key[F] = m;
  return cache[F] = n;
}

Function *calledFn(const CallBase *CB) {
  return dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
}

bool isVF(const Value *callee, const char *name) {
  auto *F = dyn_cast_or_null<Function>(callee);
  if (!F)
    return false;
  StringRef N = F->getName();
  if (!N.starts_with(name))
    return false;
  N = N.substr(strlen(name));
  return N.empty() || N[0] == '.';
}

static void vfAttrs(Function *F) {
  F->setDoesNotThrow();
  if (!F->getName().starts_with("vf_terminate"))
    F->addFnAttr(Attribute::WillReturn);
  F->addFnAttr(Attribute::NoFree);
  F->addFnAttr(Attribute::NoSync);
  bool ptr = false;
  for (auto &A : F->args())
    if (A.getType()->isPointerTy()) {
      ptr = true;
      A.addAttr(Attribute::NoCapture);
      A.removeAttr(Attribute::NonNull);
    }
  auto E = MemoryEffects::inaccessibleMemOnly();
  if (ptr)
    E |= MemoryEffects::argMemOnly(isVF(F, "vf_write") || isVF(F, "vf_havoc_at") ? ModRefInfo::ModRef : ModRefInfo::Ref);
  F->setMemoryEffects(E);
}

FunctionCallee vfFn(Module &M, const std::string &name, Type *ret, ArrayRef<Type *> args) {
  auto C = M.getOrInsertFunction(name, FunctionType::get(ret, args, false));
  if (auto *F = dyn_cast<Function>(C.getCallee()))
    vfAttrs(F);
  return C;
}

void runPasses(Function &F, const char *pipeline) {
  PassBuilder PB;
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  FunctionPassManager FPM;
  if (auto E = PB.parsePassPipeline(FPM, pipeline)) {
    errs() << "pipeline: " << toString(std::move(E)) << "\n";
    exit(3);
  }
  FPM.run(F, FAM);
}
void peelLoops(Function &F, unsigned n);
void runModulePasses(Module &M, const char *pipeline) {
  PassBuilder PB;
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  if (auto E = PB.parsePassPipeline(MPM, pipeline)) {
    errs() << "pipeline: " << toString(std::move(E)) << "\n";
    exit(3);
  }
  MPM.run(M, MAM);
}

std::string locOf(const Instruction *I, const std::string &root0) {
  static const std::string root = getenv("VF_REPO") ? getenv("VF_REPO") : root0;
  const DILocation *L = I->getDebugLoc().get();
  std::string first;
  while (L) {
    std::string f = L->getFilename().str(), d = L->getDirectory().str();
    if (f.empty() || f[0] != '/')
      f = d + "/" + f;
    std::string s = f + ":" + std::to_string(L->getLine());
    if (auto *SP = L->getScope()->getSubprogram())
      s += " (" + SP->getName().str() + ")";
    if (first.empty())
      first = s;
    if (starts(f, (root + "/").c_str()))
      return s;
    L = L->getInlinedAt();
  }
  return first.empty() ? "?" : first;
}

std::string chainOf(const Instruction *I) {
  std::string r;
  for (const DILocation *L = I->getDebugLoc().get(); L; L = L->getInlinedAt()) {
    std::string f = L->getFilename().str();
    if (f.find("/include/c++/") != std::string::npos)
      continue;
    size_t p = f.rfind('/');
    if (p != std::string::npos)
      f = f.substr(p + 1);
    auto *SP = L->getScope()->getSubprogram();
    r += (r.empty() ? "" : " < ") + (SP ? SP->getName().str() : "?") + "@" + f + ":" + std::to_string(L->getLine());
  }
  return r;
}

enum class Kind { Inline, Opaque, Strip, Drop, Intrinsic, Keep };

static bool in(const std::string &s, std::initializer_list<const char *> l) {
  for (auto *x : l)
    if (s == x)
      return true;
  return false;
}

static const std::set<std::string> &accessors() {
  static const std::set<std::string> s{
      "size", "length", "data", "c_str", "begin", "end", "cbegin", "cend", "operator[]",
      "empty", "at", "back", "front", "capacity", "_M_data", "_M_range_check", "_M_get_Tp_allocator",
      "_M_length"};
  return s;
}

// vector(const vector &), vector(initializer_list)
static bool copies(const std::string &full) {
  for (const char *c : {"::vector(", "::_Vector_base("})
    if (auto p = full.rfind(c); p != std::string::npos) {
      auto a = full.substr(p + strlen(c));
      return starts(a, "std::vector<") || starts(a, "std::initializer_list") || starts(a, "std::_Vector_base<");
    }
  return true;
}
static bool isMoveParam(const std::string &full) {
  // vector(vector&&), operator=(vector&&)
  return full.find("&&)") != std::string::npos && full.find("initializer_list") == std::string::npos;
}

static Kind classify(const Function *F, const NormOptions &O) {
  if (F->isIntrinsic())
    return Kind::Intrinsic;
  if (F->getName().starts_with("vf_"))
    return Kind::Intrinsic;
  const Names &n = names(F);
  for (auto &k : O.keep)
    if (n.full == k || n.base == k || (k.back() == '*' && starts(n.full, k.substr(0, k.size() - 1).c_str())) ||
        (n.ctx + "::" + n.base) == k)
      return Kind::Keep;
  if (starts(n.ctx, "spdlog"))
    return O.keepLogs ? Kind::Keep : Kind::Strip;
  if (starts(n.ctx, "fmt")) {
    // the formatting arguments are only read
    if (n.ctx != "fmt" && n.ctx.find("detail") == std::string::npos && n.base != "format" && n.base != "print" && n.base != "vformat")
      return Kind::Opaque;
    return Kind::Opaque;
  }
  if (!O.same && starts(n.ctx, "boost") && !starts(n.ctx, "boost::endian") && n.ctx.find("noncopyable") == std::string::npos)
    return Kind::Opaque;
  if (starts(n.base, "operator delete"))
    return Kind::Drop;
  if (in(n.full, {"__cxa_end_catch", "__cxa_free_exception"}))
    return Kind::Drop;
  if (n.isStd) {
    std::string c = n.ctx;
    bool str = c == "std::__cxx11::basic_string" || c == "std::basic_string";
    bool vec = c == "std::vector" || c == "std::_Vector_base" || c.find("_Vector_impl") != std::string::npos;
    if (n.base[0] == '~' && (str || vec || starts(c, "std::_Rb_tree") || c == "std::set" || c == "std::map"))
      return Kind::Drop;
    if (c == "std::_Sp_counted_base" || (c == "std::__shared_count" && n.base[0] == '~'))
      return Kind::Drop;
    if (O.same && c == "std::vector" && in(n.base, {"emplace_back", "push_back"}))
      return Kind::Inline; // after there is room for the element: see grow
    if (O.same && c == "std::vector" && n.base == "reserve")
      return Kind::Drop;
    if (O.vectors && (c == "std::vector" || c == "std::_Vector_base") &&
        (in(n.base, {"resize", "_M_default_append", "_M_erase_at_end", "_M_check_len", "_M_allocate", "_M_deallocate", "_M_get_Tp_allocator", "get_allocator",
                     "max_size", "_S_max_size", "_S_relocate", "_S_do_relocate", "_M_create_storage", "_M_default_initialize", "_S_check_init_len", "_S_use_relocate"}) ||
         (in(n.base, {"vector", "_Vector_base"}) && !copies(n.full))))
      return Kind::Inline;
    if (c == "std::vector" || c == "std::_Vector_base") {
      if (accessors().count(n.base))
        return Kind::Inline;
      if ((n.base == "vector" || n.base == "operator=" || n.base == "_M_move_assign" || n.base == "swap") &&
          (isMoveParam(n.full) || n.full.find("::vector()") != std::string::npos || n.base == "_M_move_assign" || n.base == "swap"))
        return Kind::Inline;
      if (n.base == "_Vector_base" && (isMoveParam(n.full) || n.full.find("()") != std::string::npos))
        return Kind::Inline;
      return F->isDeclaration() || true ? Kind::Opaque : Kind::Inline;
    }
    if (vec)
      return Kind::Inline;
    if (str) {
      if (accessors().count(n.base))
        return Kind::Inline;
      return Kind::Opaque;
    }
    if (c == "std::basic_string_view" && (starts(n.base, "find") || starts(n.base, "rfind")))
      return Kind::Opaque;
    if (starts(c, "std::_Rb_tree") || c == "std::set" || c == "std::map" || c == "std::basic_ostream" ||
        c == "std::basic_istream" || c == "std::basic_ifstream" || c == "std::basic_ofstream" ||
        c == "std::basic_ios" || starts(c, "std::ios") || starts(c, "std::locale") || c == "std::basic_filebuf")
      return Kind::Opaque;
    if (c == "std" && in(n.base, {"to_string", "operator+", "operator<<", "stoi", "getline"}))
      return Kind::Opaque;
    if (c == "std::__cxx11" && n.base == "to_string")
      return Kind::Opaque;
  }
  if (F->isDeclaration())
    return Kind::Opaque;
  return Kind::Inline;
}

static bool isNew(const Function *F) { return starts(names(F).base, "operator new"); }
static bool isThrow(const Function *F) {
  const Names &n = names(F);
  return n.full == "__cxa_throw" || n.full == "__cxa_rethrow" || (n.ctx == "std" && starts(n.base, "__throw_"));
}
static bool isTerminate(const Function *F) {
  const Names &n = names(F);
  return n.full == "__clang_call_terminate" || (n.ctx == "std" && n.base == "terminate") || n.full == "abort" ||
         n.full == "std::terminate()" || n.full == "__cxa_call_unexpected" || n.full == "exit" || n.full == "_exit";
}

struct Normaliser {
  Module &M;
  Function &Entry;
  const NormOptions &O;
  NormStats &S;
  LLVMContext &C;
  Type *I64, *I32, *I1, *Ptr, *Void;
  std::set<Function *> done, active;
  std::map<Function *, Kind> kinds;

  Normaliser(Module &m, Function &e, const NormOptions &o, NormStats &s)
      : M(m), Entry(e), O(o), S(s), C(m.getContext()) {
    I64 = Type::getInt64Ty(C);
    I32 = Type::getInt32Ty(C);
    I1 = Type::getInt1Ty(C);
    Ptr = PointerType::getUnqual(C);
    Void = Type::getVoidTy(C);
  }
  Kind kind(Function *F) {
    auto it = kinds.find(F);
    if (it != kinds.end())
      return it->second;
    return kinds[F] = classify(F, O);
  }

  Value *nondet(IRBuilder<> &B, Type *T) {
    if (auto *ST = dyn_cast<StructType>(T)) {
      Value *V = PoisonValue::get(T);
      for (unsigned i = 0; i < ST->getNumElements(); ++i)
        V = B.CreateInsertValue(V, nondet(B, ST->getElementType(i)), i);
      return V;
    }
    if (T->isVoidTy())
      return nullptr;
    std::string n;
    raw_string_ostream os(n);
    os << "vf_nd.";
    T->print(os);
    for (auto &ch : n)
      if (!isalnum((unsigned char)ch) && ch != '_' && ch != '.')
        ch = '_';
    return B.CreateCall(vfFn(M, n, T, {}));
  }
  void assume(IRBuilder<> &B, Value *c) { B.CreateCall(vfFn(M, "vf_assume", Void, {I1}), {c}); }
  void region(IRBuilder<> &B, Value *p, Value *n) { B.CreateCall(vfFn(M, "vf_region", Void, {Ptr, I64}), {p, n}); }

  void havocString(IRBuilder<> &B, Value *p) {
    Value *d = nondet(B, Ptr), *n = nondet(B, I64);
    assume(B, B.CreateICmpULE(n, ConstantInt::get(I64, 1ull << 62)));
    region(B, d, B.CreateAdd(n, ConstantInt::get(I64, 1)));
    B.CreateStore(d, p);
    B.CreateStore(n, B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), p, 8));
    B.CreateStore(nondet(B, I64), B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), p, 16));
    B.CreateStore(nondet(B, I64), B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), p, 24));
  }
  unsigned elemSize(const std::string &full) {
    // first template argument of std::vector<...>
    auto p = full.find("std::vector<");
    if (p == std::string::npos)
      return 0;
    p += 12;
    int d = 0;
    std::string a;
    for (; p < full.size(); ++p) {
      if (full[p] == '<')
        ++d;
      if (full[p] == '>')
        --d;
      if ((full[p] == ',' && d == 0) || d < 0)
        break;
      a += full[p];
    }
    if (a == "unsigned long" || a == "long" || a == "double")
      return 8;
    if (a == "unsigned char" || a == "char" || a == "signed char" || a == "std::byte")
      return 1;
    if (a == "int" || a == "unsigned int" || a == "float")
      return 4;
    if (a == "short" || a == "unsigned short")
      return 2;
    if (starts(a, "std::__cxx11::basic_string<"))
      return 32;
    if (starts(a, "std::basic_string_view<"))
      return 16;
    for (const char *pre : {"struct.", "class."})
      if (auto *T = StructType::getTypeByName(C, std::string(pre) + a))
        return M.getDataLayout().getTypeAllocSize(T);
    if (a.find("::Type") != std::string::npos || a.find("::ASSERT") != std::string::npos)
      return 4;
    return 0;
  }
  void havocVector(IRBuilder<> &B, Value *p, const std::string &full) {
    unsigned sz = elemSize(full);
    if (!sz)
      sz = 1;
    Value *d = nondet(B, Ptr), *n = nondet(B, I64);
    assume(B, B.CreateICmpULE(n, ConstantInt::get(I64, (1ull << 62) / sz)));
    Value *bytes = B.CreateMul(n, ConstantInt::get(I64, sz));
    region(B, d, bytes);
    B.CreateStore(d, p);
    B.CreateStore(B.CreateGEP(B.getInt8Ty(), d, bytes), B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), p, 8));
    B.CreateStore(nondet(B, Ptr), B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), p, 16));
  }
  void havocBytes(IRBuilder<> &B, Value *p, uint64_t n) {
    uint64_t o = 0;
    while (o < n) {
      unsigned w = n - o >= 8 ? 8 : n - o >= 4 ? 4 : n - o >= 2 ? 2 : 1;
      B.CreateStore(nondet(B, IntegerType::get(C, w * 8)), B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), p, o));
      o += w;
    }
  }

  static std::vector<std::string> params(const std::string &full) {
    // parameters of a demangled function
    std::vector<std::string> r;
    int d = 0;
    size_t e = full.rfind(')');
    if (e == std::string::npos)
      return r;
    size_t i = e;
    int par = 0;
    for (;; --i) {
      if (full[i] == ')')
        ++par;
      if (full[i] == '(' && --par == 0)
        break;
      if (i == 0)
        return r;
    }
    std::string cur;
    for (++i; i < e; ++i) {
      char ch = full[i];
      if (ch == '<' || ch == '(')
        ++d;
      if (ch == '>' || ch == ')')
        --d;
      if (ch == ',' && d == 0) {
        r.push_back(cur);
        cur.clear();
        ++i;
        continue;
      }
      cur += ch;
    }
    if (!cur.empty())
      r.push_back(cur);
    return r;
  }

  // Replaces an opaque call by what it may do.
  // --- values that stand for themselves: the same function of the same
  // arguments is the same value
  Value *uf(IRBuilder<> &B, const std::string &name, Type *T, ArrayRef<Value *> as) {
    std::vector<Type *> ts;
    for (auto *a : as)
      ts.push_back(a->getType());
    auto FC = M.getOrInsertFunction("vf_pure." + name, FunctionType::get(T, ts, false));
    auto *G = cast<Function>(FC.getCallee());
    G->setMemoryEffects(MemoryEffects::none());
    G->setDoesNotThrow();
    G->addFnAttr(Attribute::WillReturn);
    return B.CreateCall(FC, as);
  }
  Value *ld(IRBuilder<> &B, Type *T, Value *p, unsigned o) {
    return B.CreateLoad(T, o ? B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), p, o) : p);
  }
  Value *textOf(IRBuilder<> &B, Value *p, Value *n) { return uf(B, "text", Ptr, {p, n}); }
  void setString(IRBuilder<> &B, Value *s, Value *text, Value *n) {
    B.CreateStore(text, s);
    B.CreateStore(n, B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), s, 8));
  }
  bool ufCall(CallBase *CB, Function *F, const Names &n, const std::vector<std::string> &ps, bool sret, int thisIdx) {
    const char *STR = "std::__cxx11::basic_string<", *SVW = "std::basic_string_view<";
    bool isStr = n.ctx == "std::__cxx11::basic_string";
    bool constThis = n.full.size() > 6 && n.full.substr(n.full.size() - 6) == " const";
    if (ps.size() + sret + (thisIdx >= 0) != CB->arg_size())
      return false;
    IRBuilder<> B(CB);
    bool throws = false;
    auto arg = [&](unsigned i) { return CB->getArgOperand(sret + (thisIdx >= 0) + i); };
    auto is = [&](unsigned i, const char *pre, const char *suf) {
      return starts(ps[i], pre) && ps[i].size() > strlen(suf) && ps[i].substr(ps[i].size() - strlen(suf)) == suf;
    };
    auto content = [&](unsigned i, Value *&p, Value *&l) {
      if (is(i, STR, "&") || is(i, STR, "const&")) {
        p = ld(B, Ptr, arg(i), 0);
        l = ld(B, I64, arg(i), 8);
        return true;
      }
      if (is(i, SVW, "const&") || is(i, SVW, "&")) {
        l = ld(B, I64, arg(i), 0);
        p = ld(B, Ptr, arg(i), 8);
        return true;
      }
      if (ps[i] == "char const*") {
        p = arg(i);
        l = uf(B, "strlen", I64, {p});
        return true;
      }
      return false;
    };
    Value *p, *l;
    if (n.ctx == "std::vector" && n.base == "vector" && thisIdx >= 0 && !sret && ps.size() == 1 && starts(ps[0], "std::vector<") && is(0, "std::vector<", "const&") &&
        CB->getType()->isVoidTy()) { // its elements are copied: a text shares what it points to
      copyVector(B, CB->getArgOperand(thisIdx), arg(0), 0);
      replaceCall(CB, nullptr, throws);
      return true;
    }
    if (n.ctx == "std::vector" && n.base == "clear" && thisIdx >= 0 && !sret && ps.empty() && CB->getType()->isVoidTy()) {
      Value *T = CB->getArgOperand(thisIdx);
      B.CreateStore(ld(B, Ptr, T, 0), B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), T, 8));
      replaceCall(CB, nullptr, throws);
      return true;
    }
    bool assigns = isStr && thisIdx >= 0 && !sret &&
                   (n.base == "operator=" || n.base == "assign" || n.base == "basic_string");
    if (assigns) {
      Value *T = CB->getArgOperand(thisIdx);
      unsigned k = ps.size();
      if (k && ps[k - 1].find("allocator<") != std::string::npos && !starts(ps[k - 1], STR))
        --k;
      if (k == 0) {
        setString(B, T, textOf(B, ConstantPointerNull::get(cast<PointerType>(Ptr)), ConstantInt::get(I64, 0)), ConstantInt::get(I64, 0));
      } else if (k == 2 && ps[0] == "char const*" && ps[1] == "unsigned long") {
        setString(B, T, textOf(B, arg(0), arg(1)), arg(1));
      } else if (k == 1 && content(0, p, l)) {
        setString(B, T, textOf(B, p, l), l);
      } else
        return false;
      if (!CB->getType()->isVoidTy() && CB->getType() != Ptr)
        return false;
      replaceCall(CB, CB->getType()->isVoidTy() ? nullptr : T, throws);
      return true;
    }
    if (isStr && thisIdx >= 0 && sret && n.base == "substr" && ps.size() == 2) {
      Value *T = CB->getArgOperand(thisIdx);
      p = ld(B, Ptr, T, 0);
      l = ld(B, I64, T, 8);
      Value *rest = B.CreateSub(l, arg(0));
      Value *k = B.CreateSelect(B.CreateICmpULT(arg(1), rest), arg(1), rest);
      setString(B, CB->getArgOperand(0), textOf(B, B.CreateGEP(B.getInt8Ty(), p, arg(0)), k), k);
      replaceCall(CB, nullptr, true);
      return true;
    }
    if (isStr && thisIdx >= 0 && !sret && ps.empty() && starts(n.base, "operator std::basic_string_view") && CB->getType()->isStructTy() &&
        CB->getType()->getStructNumElements() == 2 && CB->getType()->getStructElementType(0) == I64) {
      Value *T = CB->getArgOperand(thisIdx);
      Value *R = B.CreateInsertValue(PoisonValue::get(CB->getType()), ld(B, I64, T, 8), 0);
      R = B.CreateInsertValue(R, ld(B, Ptr, T, 0), 1);
      replaceCall(CB, R, false);
      return true;
    }
    // a function that only reads
    if (!n.isStd || sret || (thisIdx >= 0 && !constThis) || CB->getType()->isVoidTy())
      return false;
    if (thisIdx < 0 && !in(n.base, {"operator==", "operator!=", "operator<", "__str_find", "compare"}))
      return false;
    std::vector<Value *> as;
    if (thisIdx >= 0) {
      Value *T = CB->getArgOperand(thisIdx);
      if (isStr) {
        p = ld(B, Ptr, T, 0);
        l = ld(B, I64, T, 8);
        as = {textOf(B, p, l), l};
      } else if (n.ctx == "std::basic_string_view") {
        l = ld(B, I64, T, 0);
        p = ld(B, Ptr, T, 8);
        as = {textOf(B, p, l), l};
      } else
        as = {T};
    }
    for (unsigned i = 0; i < ps.size(); ++i) {
      if (content(i, p, l)) {
        as.push_back(textOf(B, p, l));
        as.push_back(l);
      } else
        as.push_back(arg(i));
    }
    // looking up a name
    if (thisIdx >= 0 && in(n.ctx, {"std::set", "std::map", "std::unordered_set", "std::unordered_map", "std::multiset", "std::multimap"})) {
      Value *T = as[0];
      Value *E = uf(B, "end", Ptr, {T}), *Z = B.CreateICmpEQ(uf(B, "size", I64, {T}), ConstantInt::get(I64, 0));
      Value *R = nullptr;
      if (ps.size() == 1 && in(n.base, {"find", "count", "contains"})) {
        R = B.CreateSelect(Z, E, uf(B, "find", Ptr, as));
        if (n.base != "find")
          R = B.CreateZExt(B.CreateICmpNE(R, E), n.base == "count" ? I64 : I1);
      } else if (n.base == "end" || n.base == "cend")
        R = E;
      else if (n.base == "begin" || n.base == "cbegin")
        R = B.CreateSelect(Z, E, uf(B, "begin", Ptr, {T}));
      else if (n.base == "empty")
        R = Z;
      else if (n.base == "size")
        R = uf(B, "size", I64, {T});
      if (R && R->getType() == CB->getType()) {
        replaceCall(CB, R, false);
        return true;
      }
    }
    std::string nm = n.ctx + "::" + n.base + "." + std::to_string(ps.size());
    replaceCall(CB, uf(B, nm, CB->getType(), as), !CB->doesNotThrow() && !F->doesNotThrow() && !O.dropUnwind);
    return true;
  }

  void havocCall(CallBase *CB, Function *F) {
    static const Names none;
    const Names &n = F ? names(F) : none;
    S.opaque++;
    if (F)
      S.opaqueNames.insert(n.full);
    else {
      S.unresolved++;
      S.unresolvedAt.insert(locOf(CB));
    }
    IRBuilder<> B(CB);
    bool constThis = F && n.full.size() > 6 && n.full.substr(n.full.size() - 6) == " const";
    auto ps = F ? params(n.full) : std::vector<std::string>{};
    unsigned nargs = CB->arg_size();
    unsigned idx = 0;
    bool sret = nargs && CB->paramHasAttr(0, Attribute::StructRet);
    bool cls = F && (n.isStd || !n.ctx.empty()) &&
               (n.ctx == "std::__cxx11::basic_string" || n.ctx == "std::vector" || n.ctx == "std::_Vector_base");
    int thisIdx = -1;
    if (F && !n.ctx.empty() && nargs > (unsigned)sret) {
      if (ps.size() + sret + 1 == nargs)
        thisIdx = sret;
      else if (cls)
        thisIdx = sret;
    }
    if (O.same && F && ufCall(CB, F, n, ps, sret, thisIdx))
      return;
    bool matched = ps.size() + sret + (thisIdx >= 0) == nargs;
    for (; idx < nargs; ++idx) {
      Value *A = CB->getArgOperand(idx);
      if (!A->getType()->isPointerTy())
        continue;
      if (sret && idx == 0) {
        Type *T = CB->getParamStructRetType(0);
        std::string tn = T->isStructTy() && cast<StructType>(T)->hasName() ? cast<StructType>(T)->getName().str() : "";
        if (tn.find("basic_string") != std::string::npos && tn.find("view") == std::string::npos)
          havocString(B, A);
        else if (tn.find("std::vector") != std::string::npos)
          havocVector(B, A, n.full);
        else
          havocBytes(B, A, M.getDataLayout().getTypeAllocSize(T));
        continue;
      }
      std::string p;
      if ((int)idx == thisIdx) {
        if (constThis)
          continue;
        if (n.ctx == "std::__cxx11::basic_string") {
          havocString(B, A);
          continue;
        }
        if (n.ctx == "std::vector" || n.ctx == "std::_Vector_base") {
          havocVector(B, A, n.full);
          continue;
        }
      } else if (matched) {
        p = ps[idx - sret - (thisIdx >= 0)];
        if (p.size() > 6 && p.substr(p.size() - 6) == "const&")
          continue;
        if (p.size() > 6 && p.substr(p.size() - 6) == "const*")
          continue;
        if (p.find(" const (&)") != std::string::npos)
          continue;
        if (starts(p, "std::__cxx11::basic_string<") && (p.back() == '&')) {
          havocString(B, A);
          continue;
        }
      }
      if (CB->paramHasAttr(idx, Attribute::ReadOnly) || CB->paramHasAttr(idx, Attribute::ReadNone))
        continue;
      uint64_t N = CB->getParamDereferenceableBytes(idx);
      if (F && idx < F->arg_size())
        N = std::max<uint64_t>(N, F->getArg(idx)->getDereferenceableBytes());
      if (auto *GV = dyn_cast<GlobalVariable>(A->stripPointerCasts()))
        if (GV->isConstant())
          continue;
      if (N && N <= 4096)
        havocBytes(B, A, N);
    }
    Value *R = nondet(B, CB->getType());
    if (R && R->getType()->isPointerTy()) {
      uint64_t N = CB->getRetDereferenceableBytes();
      if (F)
        N = std::max<uint64_t>(N, F->getAttributes().getRetDereferenceableBytes());
      if (N)
        region(B, R, ConstantInt::get(I64, N));
    }
    bool throws = !CB->doesNotThrow() && !(F && F->doesNotThrow()) && !O.dropUnwind && !(F && starts(n.ctx, "boost"));
    replaceCall(CB, R, throws);
  }

  // CB is replaced by R; raises or not
  void replaceCall(CallBase *CB, Value *R, bool throws) {
    if (R)
      CB->replaceAllUsesWith(R);
    else if (!CB->getType()->isVoidTy())
      CB->replaceAllUsesWith(UndefValue::get(CB->getType()));
    if (auto *II = dyn_cast<InvokeInst>(CB)) {
      IRBuilder<> B(II);
      BasicBlock *N = II->getNormalDest(), *U = II->getUnwindDest();
      if (throws) {
        auto T = M.getOrInsertFunction("vf_may_throw", FunctionType::get(Void, false));
        auto *NI = B.CreateInvoke(T, N, U, {});
        NI->setDebugLoc(II->getDebugLoc());
        II->eraseFromParent();
      } else {
        U->removePredecessor(II->getParent());
        B.CreateBr(N);
        II->eraseFromParent();
      }
    } else {
      if (throws) {
        IRBuilder<> B(CB);
        auto T = M.getOrInsertFunction("vf_may_throw", FunctionType::get(Void, false));
        B.CreateCall(T)->setDebugLoc(CB->getDebugLoc());
      }
      CB->eraseFromParent();
    }
  }

  // A vector moves to a block where there is room for another element; texts
  // are values here, their bytes can be moved.
  // to has what is in from, and room for some more
  void copyVector(IRBuilder<> &B, Value *to, Value *from, unsigned more) {
    auto at = [&](Value *V, unsigned o) { return o ? B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), V, o) : V; };
    Value *b = B.CreateLoad(Ptr, from), *e = B.CreateLoad(Ptr, at(from, 8));
    Value *n = B.CreateSub(B.CreatePtrToInt(e, I64), B.CreatePtrToInt(b, I64));
    auto FC = M.getOrInsertFunction("_Znwm", FunctionType::get(Ptr, {I64}, false));
    auto *R = B.CreateCall(FC, {B.CreateAdd(n, B.getInt64(more), "", true, true)});
    R->setDoesNotThrow();
    R->addRetAttr(Attribute::NonNull);
    R->addRetAttr(Attribute::NoAlias);
    B.CreateMemCpy(R, Align(8), b, Align(1), n);
    Value *end = B.CreateInBoundsGEP(B.getInt8Ty(), R, n);
    B.CreateStore(R, to);
    B.CreateStore(end, at(to, 8));
    B.CreateStore(B.CreateInBoundsGEP(B.getInt8Ty(), end, B.getInt64(more)), at(to, 16));
  }
  void grow(CallBase *CB) {
    if (CB->hasMetadata("vf.room"))
      return;
    CB->setMetadata("vf.room", MDNode::get(C, {}));
    IRBuilder<> B(CB);
    copyVector(B, CB->getArgOperand(0), CB->getArgOperand(0), 256);
  }
  bool rewriteOpaque(Function &F) {
    bool changed = false;
    std::vector<CallBase *> calls;
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I))
        calls.push_back(CB);
    for (auto *CB : calls) {
      Function *G = calledFn(CB);
      if (!G) {
        if (CB->isInlineAsm()) {
          replaceCall(CB, nullptr, false);
          changed = true;
        }
        continue; // indirect: handled later
      }
      if (isNew(G)) {
        continue;
      }
      if (isThrow(G) || isTerminate(G))
        continue;
      Kind k = kind(G);
      if (O.same && k == Kind::Inline && names(G).ctx == "std::vector" && in(names(G).base, {"emplace_back", "push_back"}) &&
          CB->arg_size() && !CB->paramHasAttr(0, Attribute::StructRet)) {
        grow(CB);
        changed = true;
      }
      if (k == Kind::Strip || k == Kind::Drop) {
        S.stripped += k == Kind::Strip;
        if (!CB->getType()->isVoidTy() || (CB->arg_size() && CB->paramHasAttr(0, Attribute::StructRet))) {
          bool s = O.dropUnwind;
          const_cast<NormOptions &>(O).dropUnwind = true;
          havocCall(CB, G);
          const_cast<NormOptions &>(O).dropUnwind = s;
        } else
          replaceCall(CB, nullptr, false);
        changed = true;
      } else if (k == Kind::Opaque) {
        StringRef N = G->getName();
        if (N == "memcmp" || N == "bcmp" || N == "strlen" || N == "memchr")
          continue;
        if (N == "isspace" || N == "isprint" || N == "isalnum" || N == "isdigit" || N == "toupper" || N == "tolower" || N == "round" ||
            N == "lround") {
          IRBuilder<> B(CB);
          if (O.blank && (N == "isspace" || N == "isprint")) {
            // texts without blanks
            replaceCall(CB, ConstantInt::get(CB->getType(), N == "isprint"), false);
            changed = true;
            continue;
          }
          std::string nm = ("vf_pure." + N).str();
          auto FC = M.getOrInsertFunction(nm, G->getFunctionType());
          cast<Function>(FC.getCallee())->setMemoryEffects(MemoryEffects::none());
          cast<Function>(FC.getCallee())->setDoesNotThrow();
          cast<Function>(FC.getCallee())->addFnAttr(Attribute::WillReturn);
          std::vector<Value *> as(CB->args().begin(), CB->args().end());
          Value *R = B.CreateCall(FC, as);
          replaceCall(CB, R, false);
          changed = true;
          continue;
        }
        if (N == "__cxa_allocate_exception") {
          // a block of the heap
          auto FC = M.getOrInsertFunction("_Znwm", FunctionType::get(Ptr, {CB->getArgOperand(0)->getType()}, false));
          IRBuilder<> B(CB);
          auto *R = B.CreateCall(FC, {CB->getArgOperand(0)});
          R->setDoesNotThrow();
          replaceCall(CB, R, false);
          changed = true;
          continue;
        }
        if (N == "__cxa_begin_catch") {
          IRBuilder<> B(CB);
          replaceCall(CB, nondet(B, Ptr), false);
          changed = true;
          continue;
        }
        if (N == "__gxx_personality_v0")
          continue;
        havocCall(CB, G);
        changed = true;
      }
    }
    return changed;
  }

  void process(Function &F) {
    if (done.count(&F) || active.count(&F))
      return;
    active.insert(&F);
    rewriteOpaque(F);
    inlineAll(F);
    active.erase(&F);
    done.insert(&F);
  }

  bool inlineAll(Function &F) {
    bool changed = false;
    for (;;) {
      std::vector<CallBase *> calls;
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (auto *G = calledFn(CB))
            if (!G->isDeclaration() && !isTerminate(G) && kind(G) == Kind::Inline && !active.count(G))
              calls.push_back(CB);
      if (calls.empty())
        break;
      for (auto *CB : calls) {
        Function *G = calledFn(CB);
        process(*G);
        S.functions.insert(names(G).full);
        InlineFunctionInfo IFI;
        auto R = InlineFunction(*CB, IFI);
        if (!R.isSuccess()) {
          S.unresolvedAt.insert(std::string("cannot inline ") + names(G).full + ": " + R.getFailureReason());
          havocCall(CB, G);
        } else {
          S.inlined++;
          changed = true;
        }
      }
      if (F.getInstructionCount() > O.maxInsts) {
        errs() << "too big: " << F.getName() << "\n";
        exit(3);
      }
    }
    if (changed || !F.getInstructionCount())
      ;
    runPasses(F, "sroa,early-cse,simplifycfg");
    return changed;
  }

  static bool neverReturns(const Function *G) {
    return G->doesNotReturn() || isThrow(G) || isTerminate(G);
  }

  // Exceptions as ordinary control flow.
  bool lowerInvokes(Function &F) {
    bool changed = false;
    std::vector<WeakVH> is;
    for (auto &I : instructions(F))
      is.push_back(&I);
    for (auto &H : is) {
      auto *I = dyn_cast_or_null<Instruction>((Value *)H);
      if (!I)
        continue;
      if (auto *II = dyn_cast<InvokeInst>(I)) {
        changed = true;
        Function *G = calledFn(II);
        BasicBlock *N = II->getNormalDest(), *U = II->getUnwindDest(), *BB = II->getParent();
        bool mayThrow = G && G->getName() == "vf_may_throw";
        bool noret = II->doesNotReturn() || (G && neverReturns(G));
        bool nounw = II->doesNotThrow() || (G && (G->doesNotThrow() || isTerminate(G))) ||
                     (O.nothrowAlloc && G && isNew(G));
        IRBuilder<> B(II);
        if (!mayThrow && !noret) {
          std::vector<Value *> as(II->args().begin(), II->args().end());
          CallInst *CI = B.CreateCall(II->getFunctionType(), II->getCalledOperand(), as);
          CI->setAttributes(II->getAttributes());
          II->replaceAllUsesWith(CI);
        }
        if (noret && nounw) {
          U->removePredecessor(BB, true);
          N->removePredecessor(BB, true);
          event(B, isTerminate(G) ? "vf_terminate" : "vf_noreturn", G);
          B.CreateUnreachable();
        } else if (noret) {
          N->removePredecessor(BB, true);
          event(B, "vf_throw", G);
          B.CreateBr(U);
        } else if (nounw) {
          U->removePredecessor(BB, true);
          B.CreateBr(N);
        } else {
          Value *c = nondet(B, I1);
          B.CreateCondBr(c, U, N);
        }
        if (!II->use_empty())
          II->replaceAllUsesWith(PoisonValue::get(II->getType()));
        II->eraseFromParent();
      } else if (auto *LP = dyn_cast<LandingPadInst>(I)) {
        changed = true;
        IRBuilder<> B(LP->getParent(), LP->getParent()->getFirstInsertionPt());
        B.SetCurrentDebugLocation(LP->getDebugLoc());
        Value *V = nondet(B, LP->getType());
        LP->replaceAllUsesWith(V);
        LP->eraseFromParent();
      } else if (auto *R = dyn_cast<ResumeInst>(I)) {
        changed = true;
        IRBuilder<> B(R);
        event(B, "vf_unwind", nullptr);
        B.CreateUnreachable();
        R->eraseFromParent();
      } else if (auto *CI = dyn_cast<CallInst>(I)) {
        Function *G = calledFn(CI);
        if (!G)
          continue;
        if (G->getName() == "vf_may_throw") {
          CI->eraseFromParent(); // leaves the entry point
          changed = true;
        } else if (!G->isIntrinsic() && !G->getName().starts_with("vf_") && (CI->doesNotReturn() || neverReturns(G))) {
          IRBuilder<> B(CI);
          event(B, isTerminate(G) ? "vf_terminate" : "vf_throw", G);
          changeToUnreachable(CI);
          changed = true;
        } else if (G->getIntrinsicID() == Intrinsic::eh_typeid_for) {
          IRBuilder<> B(CI);
          CI->replaceAllUsesWith(nondet(B, CI->getType()));
          CI->eraseFromParent();
          changed = true;
        }
      }
    }
    if (changed) {
      F.setPersonalityFn(nullptr);
      runPasses(F, "simplifycfg");
    }
    return changed;
  }
  void event(IRBuilder<> &B, const std::string &n, Function *G) {
    std::string nm = n;
    if (G)
      nm += "." + names(G).base;
    for (auto &ch : nm)
      if (!isalnum((unsigned char)ch) && ch != '_' && ch != '.')
        ch = '_';
    B.CreateCall(vfFn(M, nm, Void, {}));
  }

  // --- objects allocated by new with a constant size: one slot per site
  struct Slot {
    AllocaInst *A;
    uint64_t size;
  };
  std::set<AllocaInst *> slots;
  bool promoteNews(Function &F) {
    bool changed = false;
    std::vector<CallBase *> calls;
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (auto *G = calledFn(CB))
          if (isNew(G) && CB->arg_size() == 1 && isa<ConstantInt>(CB->getArgOperand(0)) &&
              cast<ConstantInt>(CB->getArgOperand(0))->getZExtValue() <= 4096)
            calls.push_back(CB);
    for (auto *CB : calls) {
      uint64_t n = cast<ConstantInt>(CB->getArgOperand(0))->getZExtValue();
      IRBuilder<> B(&*F.getEntryBlock().begin());
      auto *A = B.CreateAlloca(ArrayType::get(B.getInt8Ty(), n));
      A->setAlignment(Align(16));
      slots.insert(A);
      IRBuilder<> B2(CB);
      B2.SetCurrentDebugLocation(CB->getDebugLoc());
      // fresh contents
      replaceCall(CB, A, !O.nothrowAlloc);
      S.promoted++;
      changed = true;
    }
    return changed;
  }

  // --- the variables of the probe that only it uses
  void promoteGlobals(Function &F) {
    for (auto &GV : M.globals()) {
      if (!GV.hasLocalLinkage() || GV.isConstant() || !GV.hasInitializer() || GV.isThreadLocal())
        continue;
      bool ok = true;
      std::vector<Use *> here;
      for (auto &U : GV.uses()) {
        auto *I = dyn_cast<Instruction>(U.getUser());
        ok &= I && (isa<LoadInst>(I) || (isa<StoreInst>(I) && U.getOperandNo() == 1));
        if (I && I->getFunction() == &F)
          here.push_back(&U);
      }
      if (!ok || here.empty())
        continue;
      IRBuilder<> B(&*F.getEntryBlock().begin());
      auto *A = B.CreateAlloca(GV.getValueType());
      B.CreateStore(GV.getInitializer(), A);
      for (auto *U : here)
        U->set(A);
    }
  }

  static void roots(Value *V, std::set<Value *> &out, std::set<Value *> &seen) {
    if (!seen.insert(V).second)
      return;
    if (auto *P = dyn_cast<PHINode>(V)) {
      for (auto &U : P->incoming_values())
        roots(U.get(), out, seen);
    } else if (auto *Se = dyn_cast<SelectInst>(V)) {
      roots(Se->getTrueValue(), out, seen);
      roots(Se->getFalseValue(), out, seen);
    } else if (isa<ConstantPointerNull>(V) || isa<UndefValue>(V)) {
    } else
      out.insert(V);
  }

  // Pointers that are either null or one slot.
  bool singletons(Function &F) {
    bool changed = false;
    for (int round = 0; round < 2; ++round) {
      // unify the slots flowing together
      for (auto &I : instructions(F)) {
        if (!I.getType()->isPointerTy() || !(isa<PHINode>(I) || isa<SelectInst>(I)))
          continue;
        std::set<Value *> r, seen;
        roots(&I, r, seen);
        if (r.size() < 2)
          continue;
        bool all = true;
        for (auto *v : r)
          all &= isa<AllocaInst>(v) && slots.count(cast<AllocaInst>(v));
        if (!all)
          continue;
        AllocaInst *big = nullptr;
        for (auto *v : r) {
          auto *A = cast<AllocaInst>(v);
          if (!big || cast<ArrayType>(A->getAllocatedType())->getNumElements() >
                          cast<ArrayType>(big->getAllocatedType())->getNumElements())
            big = A;
        }
        big->moveBefore(&*F.getEntryBlock().begin());
        for (auto *v : r)
          if (v != big) {
            v->replaceAllUsesWith(big);
            slots.erase(cast<AllocaInst>(v));
            cast<AllocaInst>(v)->eraseFromParent();
          }
        changed = true;
        break;
      }
    }
    std::vector<Instruction *> ps;
    for (auto &I : instructions(F))
      if (I.getType()->isPointerTy() && (isa<PHINode>(I) || isa<SelectInst>(I)))
        ps.push_back(&I);
    for (auto *I : ps) {
      std::set<Value *> r, seen;
      roots(I, r, seen);
      if (r.size() != 1 || !isa<AllocaInst>(*r.begin()))
        continue;
      auto *A = cast<AllocaInst>(*r.begin());
      if (A->getParent() != &F.getEntryBlock())
        continue;
      std::vector<Use *> us;
      for (auto &U : I->uses())
        us.push_back(&U);
      for (auto *U : us) {
        auto *X = dyn_cast<Instruction>(U->getUser());
        bool addr = isa<GetElementPtrInst>(X) || isa<LoadInst>(X) || isa<MemIntrinsic>(X) ||
                    (isa<StoreInst>(X) && U->getOperandNo() == 1);
        if (addr) {
          U->set(A);
          changed = true;
        }
      }
      if (I->use_empty() && !isa<PHINode>(I)) {
        I->eraseFromParent();
      }
    }
    return changed;
  }

  // function stored at offset off of the constant table G
  Function *slotFn(Value *G, int64_t off) {
    auto *GV = dyn_cast<GlobalVariable>(G);
    if (!GV || !GV->hasInitializer())
      return nullptr;
    const DataLayout &DL = M.getDataLayout();
    Constant *C0 = GV->getInitializer();
    while (C0) {
      if (auto *F = dyn_cast<Function>(C0->stripPointerCasts()))
        return off == 0 ? F : nullptr;
      if (auto *CS = dyn_cast<ConstantStruct>(C0)) {
        auto *SL = DL.getStructLayout(CS->getType());
        if (off < 0 || (uint64_t)off >= SL->getSizeInBytes())
          return nullptr;
        unsigned i = SL->getElementContainingOffset(off);
        off -= SL->getElementOffset(i);
        C0 = CS->getOperand(i);
      } else if (auto *CA = dyn_cast<ConstantArray>(C0)) {
        uint64_t es = DL.getTypeAllocSize(CA->getType()->getElementType());
        uint64_t i = off / es;
        if (off < 0 || i >= CA->getNumOperands())
          return nullptr;
        off -= i * es;
        C0 = CA->getOperand(i);
      } else
        return nullptr;
    }
    return nullptr;
  }

  static bool constOffset(const DataLayout &DL, Value *&V, int64_t &off) {
    // V + off with constant geps stripped (instructions and constants)
    APInt o(64, off, true);
    V = V->stripAndAccumulateConstantOffsets(DL, o, true);
    off = o.getSExtValue();
    return true;
  }

  // phi web of constants at constant offsets
  bool tables(Value *V, int64_t off, std::set<std::pair<Value *, int64_t>> &out, std::set<std::pair<Value *, int64_t>> &seen) {
    constOffset(M.getDataLayout(), V, off);
    if (!seen.insert({V, off}).second)
      return true;
    if (seen.size() > 64)
      return false;
    if (auto *P = dyn_cast<PHINode>(V)) {
      for (auto &U : P->incoming_values())
        if (!tables(U.get(), off, out, seen))
          return false;
      return true;
    }
    if (auto *Se = dyn_cast<SelectInst>(V))
      return tables(Se->getTrueValue(), off, out, seen) && tables(Se->getFalseValue(), off, out, seen);
    if (isa<UndefValue>(V) || isa<ConstantPointerNull>(V))
      return true;
    if (isa<GlobalVariable>(V) && cast<GlobalVariable>(V)->isConstant()) {
      out.insert({V, off});
      return true;
    }
    return false;
  }

  // virtual call on an object of known storage: its virtual tables are the
  // constants stored at that place
  void viaSlot(Function &F, LoadInst *L, Value *V, int64_t off, std::vector<std::pair<Value *, Function *>> &cases) {
    const DataLayout &DL = M.getDataLayout();
    std::vector<LoadInst *> vls;
    std::set<Value *> seenV, work{V};
    while (!work.empty()) {
      Value *X = *work.begin();
      work.erase(work.begin());
      if (!seenV.insert(X).second)
        continue;
      if (auto *P = dyn_cast<PHINode>(X)) {
        for (auto &U : P->incoming_values())
          work.insert(U.get());
      } else if (auto *VL = dyn_cast<LoadInst>(X))
        vls.push_back(VL);
      else if (!isa<Constant>(X))
        return;
    }
    if (vls.empty())
      return;
    std::set<std::pair<Value *, int64_t>> places;
    for (auto *VL : vls) {
      Value *P = VL->getPointerOperand();
      int64_t o = 0;
      constOffset(DL, P, o);
      std::set<Value *> r, seen;
      roots(P, r, seen);
      if (r.empty())
        return;
      for (auto *v : r) {
        int64_t o2 = o;
        Value *b = v;
        constOffset(DL, b, o2);
        if (!isa<AllocaInst>(b))
          return;
        places.insert({b, o2});
      }
    }
    std::set<std::pair<GlobalVariable *, int64_t>> vts;
    std::vector<StoreInst *> stores;
    for (auto &I : instructions(F))
      if (auto *S2 = dyn_cast<StoreInst>(&I)) {
        Value *P = S2->getPointerOperand();
        int64_t o = 0;
        constOffset(DL, P, o);
        std::set<Value *> r, seen;
        roots(P, r, seen);
        bool hit = false;
        for (auto *v : r) {
          int64_t o2 = o;
          Value *b = v;
          constOffset(DL, b, o2);
          hit |= places.count({b, o2}) > 0;
        }
        if (!hit)
          continue;
        Value *W = S2->getValueOperand();
        if (!W->getType()->isPointerTy())
          continue;
        int64_t wo = 0;
        constOffset(DL, W, wo);
        auto *G = dyn_cast<GlobalVariable>(W);
        if (!G || !G->isConstant() || !G->getName().starts_with("_ZTV"))
          return;
        vts.insert({G, wo});
        stores.push_back(S2);
      }
    if (places.size() == 1 && vts.size() > 1) { // the constructor of the derived class stores after the one of its base
      DominatorTree DT(F);
      for (auto *S2 : stores)
        if (DT.dominates(S2, L) && llvm::all_of(stores, [&](StoreInst *O2) { return O2 == S2 || DT.dominates(O2, S2); })) {
          Value *W = S2->getValueOperand();
          int64_t wo = 0;
          constOffset(DL, W, wo);
          vts = {{cast<GlobalVariable>(W), wo}};
          break;
        }
    }
    IRBuilder<> B(L);
    for (auto &[g, o] : vts) {
      Function *T = slotFn(g, o + off);
      if (!T)
        return;
      if (T->getName() == "__cxa_pure_virtual")
        continue;
      Constant *k = ConstantExpr::getGetElementPtr(Type::getInt8Ty(C), g, ConstantInt::get(I64, o));
      cases.push_back({B.CreateICmpEQ(V, k), T});
    }
  }

  bool devirtualise(Function &F) {
    bool changed = false;
    const DataLayout &DL = M.getDataLayout();
    std::vector<CallBase *> calls;
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (!calledFn(CB) && !CB->isInlineAsm())
          calls.push_back(CB);
    for (auto *CB : calls) {
      auto *L = dyn_cast<LoadInst>(CB->getCalledOperand());
      std::vector<std::pair<Value *, Function *>> cases; // (condition, function)
      IRBuilder<> B(CB);
      if (L) {
        Value *V = L->getPointerOperand();
        int64_t off = 0;
        // variable index in a table of functions (std::visit)
        if (auto *G = dyn_cast<GetElementPtrInst>(V)) {
          Value *base = G->getPointerOperand();
          int64_t o2 = 0;
          constOffset(DL, base, o2);
          if (isa<GlobalVariable>(base) && cast<GlobalVariable>(base)->isConstant() && !G->hasAllConstantIndices() &&
              cast<GlobalVariable>(base)->hasInitializer()) {
            uint64_t sz = DL.getTypeAllocSize(cast<GlobalVariable>(base)->getValueType());
            B.SetInsertPoint(CB);
            for (uint64_t o = o2; o + 8 <= sz; o += 8) {
              Function *T = slotFn(base, o);
              if (!T)
                continue;
              auto *pc = B.CreateICmpEQ(G, B.CreateConstGEP1_64(B.getInt8Ty(), base, o));
              cases.push_back({pc, T});
            }
          }
        }
        if (cases.empty()) {
          constOffset(DL, V, off);
          std::set<std::pair<Value *, int64_t>> out, seen;
          if (tables(V, off, out, seen) && !out.empty()) {
            bool ok = true;
            for (auto &[g, o] : out) {
              Function *T = slotFn(g, o);
              if (!T) {
                ok = false;
                break;
              }
              Constant *k = ConstantExpr::getGetElementPtr(Type::getInt8Ty(C), cast<Constant>(g),
                                                           ConstantInt::get(I64, o));
              auto *pc = B.CreateICmpEQ(L->getPointerOperand(), k);
              cases.push_back({pc, T});
            }
            if (!ok)
              cases.clear();
          }
          if (cases.empty())
            viaSlot(F, L, V, off, cases);
        }
      } else {
        std::set<Value *> r, seen;
        roots(CB->getCalledOperand(), r, seen);
        bool ok = !r.empty();
        for (auto *v : r)
          ok &= isa<Function>(v);
        if (ok)
          for (auto *v : r)
            cases.push_back({B.CreateICmpEQ(CB->getCalledOperand(), v), cast<Function>(v)});
      }
      if (cases.empty())
        continue;
      changed = true;
      S.devirt++;
      if (cases.size() == 1) {
        CB->setCalledOperand(cases[0].second);
        continue;
      }
      expand(CB, cases);
    }
    return changed;
  }
  void expand(CallBase *CB, std::vector<std::pair<Value *, Function *>> &cases) {
    Function &F = *CB->getFunction();
    BasicBlock *BB = CB->getParent();
    // make the call the end of its block
    BasicBlock *Cont;
    if (auto *II = dyn_cast<InvokeInst>(CB)) {
      // normal destination through a block of its own
      BasicBlock *N = II->getNormalDest();
      Cont = BasicBlock::Create(C, "cont", &F);
      BranchInst::Create(N, Cont);
      N->replacePhiUsesWith(BB, Cont);
      II->setNormalDest(Cont);
    } else
      Cont = SplitBlock(BB, CB->getNextNode());
    // isolate the call in its own block
    BasicBlock *Call = SplitBlock(BB, CB);
    BB->getTerminator()->eraseFromParent();
    PHINode *P = nullptr;
    Cont->removePredecessor(Call, true);
    if (!CB->getType()->isVoidTy())
      P = PHINode::Create(CB->getType(), cases.size(), "", &*Cont->begin());
    BasicBlock *Cur = BB;
    BasicBlock *U = isa<InvokeInst>(CB) ? cast<InvokeInst>(CB)->getUnwindDest() : nullptr;
    for (size_t i = 0; i < cases.size(); ++i) {
      BasicBlock *T = BasicBlock::Create(C, "dv", &F);
      auto *NC = CB->clone();
      cast<CallBase>(NC)->setCalledOperand(cases[i].second);
      NC->insertInto(T, T->end());
      if (!U)
        BranchInst::Create(Cont, T);
      else
        for (auto &Ph : U->phis())
          Ph.addIncoming(Ph.getIncomingValueForBlock(Call), T);
      if (P)
        P->addIncoming(NC, T);
      if (i + 1 < cases.size()) {
        BasicBlock *Nx = BasicBlock::Create(C, "dvn", &F);
        BranchInst::Create(T, Nx, cases[i].first, Cur);
        Cur = Nx;
      } else
        BranchInst::Create(T, Cur);
    }
    if (P)
      CB->replaceAllUsesWith(P);
    if (U)
      U->removePredecessor(Call, true);
    Call->dropAllReferences();
    // erase the block
    while (!Call->empty())
      Call->back().eraseFromParent();
    Call->eraseFromParent();
  }

  // functions that never return normally (raise an exception on every path)
  void inferNoReturn() {
    for (bool ch = true; ch;) {
      ch = false;
      for (auto &F : M) {
        if (F.isDeclaration() || F.doesNotReturn() || &F == &Entry)
          continue;
        std::set<BasicBlock *> seen;
        std::vector<BasicBlock *> work{&F.getEntryBlock()};
        bool ret = false;
        while (!work.empty() && !ret) {
          BasicBlock *B = work.back();
          work.pop_back();
          if (!seen.insert(B).second)
            continue;
          bool stop = false;
          for (auto &I : *B)
            if (auto *CI = dyn_cast<CallInst>(&I))
              if (CI->doesNotReturn() || (calledFn(CI) && neverReturns(calledFn(CI)))) {
                stop = true;
                break;
              }
          if (stop)
            continue;
          if (isa<ReturnInst>(B->getTerminator()))
            ret = true;
          if (auto *II = dyn_cast<InvokeInst>(B->getTerminator())) {
            if (!(II->doesNotReturn() || (calledFn(II) && neverReturns(calledFn(II)))))
              work.push_back(II->getNormalDest());
            work.push_back(II->getUnwindDest());
            continue;
          }
          for (auto *S2 : successors(B))
            work.push_back(S2);
        }
        if (!ret) {
          F.setDoesNotReturn();
          ch = true;
        }
      }
    }
  }

  static bool indirect(Function &F) {
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (!calledFn(CB) && !CB->isInlineAsm())
          return true;
    return false;
  }
  void unrollLoops(Function &F) {
    // the loops whose number of iterations is a constant
    for (int round = 0; round < 3; ++round) {
      for (auto &I : instructions(F))
        I.setMetadata(LLVMContext::MD_loop, nullptr);
      runPasses(F, "sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),sroa,early-cse<memssa>,gvn,simplifycfg");
    }
    if (O.peel) {
      runPasses(F, "loop-simplify,lcssa");
      peelLoops(F, O.peel);
    }
  }

  void run() {
    for (auto &F : M) {
      if (F.getName().starts_with("vf_"))
        vfAttrs(&F);
      // allocations do not touch what the program sees
      if (O.freshNew && F.isDeclaration() && F.getName().starts_with("_Znwm"))
        F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
      F.removeFnAttr(Attribute::NoInline);
      F.removeFnAttr(Attribute::OptimizeNone);
      if (F.getName() == "vf_may_throw")
        F.removeFnAttr(Attribute::NoUnwind);
    }
    inferNoReturn();
    // a function that never returns is an event
    for (auto &F : M)
      if (!F.isDeclaration() && neverReturns(&F))
        kinds[&F] = Kind::Intrinsic;
    process(Entry);
    const char *opt = "sroa,early-cse<memssa>,simplifycfg,gvn,sroa,simplifycfg,instsimplify,loop-mssa(loop-simplifycfg),"
                      "loop-unroll-full,simplifycfg,sroa,early-cse<memssa>,gvn,dse,adce,simplifycfg";
    (void)opt;
    int unrolled = 0;
    for (int round = 0; round < (O.early ? 30 : 12); ++round) {
      bool ch = false;
      runPasses(Entry, "sroa,early-cse<memssa>,gvn,simplifycfg,sroa,adce");
      ch |= devirtualise(Entry);
      ch |= rewriteOpaque(Entry);
      ch |= inlineAll(Entry);
      ch |= promoteNews(Entry);
      if (getenv("VF_TRACE"))
        errs() << "round " << round << " insts " << Entry.getInstructionCount() << " changed " << ch << "\n";
      if (!ch) {
        if (singletons(Entry))
          continue;
        if (lowerInvokes(Entry))
          continue;
        if (O.same && O.early && unrolled < 6 && indirect(Entry)) {
          ++unrolled;
          unrollLoops(Entry);
          continue;
        }
        break;
      }
      singletons(Entry);
    }
    // remaining indirect calls
    std::vector<CallBase *> calls;
    for (auto &I : instructions(Entry))
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (!calledFn(CB))
          calls.push_back(CB);
    if (getenv("VF_IND"))
      for (auto *CB : calls) {
        errs() << "INDIRECT " << locOf(CB) << *CB << "\n";
        Value *V = CB->getCalledOperand();
        for (int d = 0; d < 6; ++d) {
          auto *I = dyn_cast<Instruction>(V);
          if (!I)
            break;
          errs() << "   " << I->getParent()->getName() << *I << "\n";
          if (I->getNumOperands() == 0 || isa<PHINode>(I))
            break;
          V = I->getOperand(0);
        }
      }
    for (auto *CB : calls)
      havocCall(CB, nullptr);
    lowerInvokes(Entry);
    if (O.same) {
      promoteGlobals(Entry);
      unrollLoops(Entry);
    }
    runPasses(Entry, "sroa,early-cse<memssa>,gvn,simplifycfg,instsimplify,dse,adce,simplifycfg");
  }
};

void peelLoops(Function &F, unsigned n) {
  PassBuilder PB;
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  auto &LI = FAM.getResult<LoopAnalysis>(F);
  auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
  auto &DT = FAM.getResult<DominatorTreeAnalysis>(F);
  auto &AC = FAM.getResult<AssumptionAnalysis>(F);
  std::vector<Loop *> ls(LI.begin(), LI.end());
  for (auto *L : ls)
    if (canPeel(L)) {
      ValueToValueMapTy VM;
      peelLoop(L, n, &LI, &SE, DT, &AC, true, VM);
    }
}

void normalise(Module &M, Function &Entry, const NormOptions &O, NormStats &S) {
  Normaliser N(M, Entry, O, S);
  N.run();
}

} // namespace vf
