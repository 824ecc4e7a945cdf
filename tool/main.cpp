#include "vf.h"
#include "instr.h"
#include "prove.h"
#include "fpr.h"
#include "same.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include <cstring>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;

static int cutPipe = -1;
int main(int argc, char **argv) {
  // the same addresses on every run: the order of the sets of values is stable
  if (!getenv("VF_EXEC") && personality(0xffffffff) != -1 && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    setenv("VF_EXEC", "1", 1);
    if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  std::string entry, out, json, mode = "dump";
  std::vector<std::string> in;
  vf::NormOptions O;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--entry") entry = argv[++i];
    else if (a == "--keep") O.keep.insert(argv[++i]);
    else if (a == "--mode") mode = argv[++i];
    else if (a == "--json") json = argv[++i];
    else if (a == "-o") out = argv[++i];
    else if (a == "--blank") O.blank = true;
    else if (a == "--peel") O.peel = atoi(argv[++i]);
    else if (a == "--early") O.early = true;
    else if (a == "--vectors") O.vectors = true;
    else if (a == "--fresh") O.freshNew = true;
    else if (a == "--unroll") {
      const char *as[] = {"vf", argv[++i]};
      cl::ParseCommandLineOptions(2, as);
    }
    else if (a == "--no-unwind") O.dropUnwind = true;
    else if (a == "--no-oom") O.nothrowAlloc = true;
    else in.push_back(a);
  }
  LLVMContext C;
  SMDiagnostic E;
  std::unique_ptr<Module> M;
  for (auto &f : in) {
    auto X = parseIRFile(f, E, C);
    if (!X) { E.print("vf", errs()); return 3; }
    if (!M) M = std::move(X);
    else if (Linker::linkModules(*M, std::move(X))) return 3;
  }
  for (auto &A : make_early_inc_range(M->aliases()))
    if (auto *T = A.getAliaseeObject(); T && T->getType() == A.getType() && A.getAliasee() == T) {
      A.replaceAllUsesWith(T);
      A.eraseFromParent();
    }
  Function *F = M->getFunction(entry);
  if (!F) { errs() << "no entry " << entry << "\n"; return 3; }
  for (auto &G : *M)
    if (!G.isDeclaration() && &G != F) { G.setLinkage(GlobalValue::InternalLinkage); G.setComdat(nullptr);}
  F->setComdat(nullptr);
  for (auto &G : M->globals()) if (!G.isDeclaration() && !G.getName().starts_with("llvm.")) { G.setLinkage(GlobalValue::InternalLinkage); G.setComdat(nullptr);}
  vf::runModulePasses(*M, "globaldce,cgscc(function-attrs)");
  if (mode == "convert") {
    for (auto k : {"lround", "llround", "lrint", "llrint"}) O.keep.insert(k);
    vf::markConversions(*M);
  }
  if (mode == "same") O.same = true;
  vf::NormStats S;
  vf::normalise(*M, *F, O, S);
  if (verifyFunction(*F, &errs())) return 3;
  errs() << "inlined " << S.inlined << " opaque " << S.opaque << " stripped " << S.stripped << " devirt " << S.devirt << " promoted " << S.promoted << " unresolved " << S.unresolved << " insts " << F->getInstructionCount() << "\n";
  for (auto &n : S.opaqueNames) errs() << "  opaque " << n.substr(0, 150) << "\n";
  for (auto &n : S.unresolvedAt) errs() << "  unresolved " << n << "\n";
  if (mode == "dump") F->print(outs());
  if (mode == "same") {
    vf::runPasses(*F, "sroa,early-cse<memssa>,gvn,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa,loop-mssa(loop-rotate),loop-unroll-full,sroa,early-cse<memssa>,gvn,simplifycfg,dse,adce,early-cse<memssa>");
    if (getenv("VF_PRINT")) F->print(outs());
    json::Array os, fs;
    for (auto &r : vf::compareValues(*F)) {
      os.push_back(json::Object{{"ok", r.ok}, {"what", r.what}, {"loc", r.loc}, {"chain", r.chain}, {"detail", r.detail}});
      if (json.empty())
        outs() << (r.ok ? "ok   " : "FAIL ") << r.what << " " << r.loc << " " << r.detail.substr(0, getenv("VF_DEPTH") ? 6000 : 600) << "\n";
    }
    for (auto &f : S.functions) fs.push_back(json::fixUTF8(f));
    json::Array uo;
    for (auto &n : S.unresolvedAt) uo.push_back(json::fixUTF8(n));
    if (!json.empty()) {
      std::error_code EC;
      raw_fd_ostream J(json, EC);
      J << json::Value(json::Object{{"entry", entry}, {"obligations", std::move(os)}, {"functions", std::move(fs)}, {"unresolved", std::move(uo)}, {"insts", (int64_t)F->getInstructionCount()}}) << "\n";
    }
    return 0;
  }
  if (mode == "convert") {
    json::Array cs;
    for (auto &c : vf::conversionRanges(*F)) {
      auto num = [](double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return std::string(b); };
      cs.push_back(json::Object{{"kind", c.kind}, {"loc", c.loc}, {"chain", c.chain}, {"lo", num(c.lo)}, {"hi", num(c.hi)}, {"nan", c.nan}});
    }
    std::error_code EC;
    raw_fd_ostream J(json, EC);
    J << json::Value(json::Object{{"entry", entry}, {"conversions", std::move(cs)}, {"inlined", S.inlined}}) << "\n";
  }
  if (mode == "bounds") {
    vf::InstrInfo R;
    // each round in a process of its own, until the cuts that remain all hold
    int round = 0;
    for (;; ++round) {
      int fd[2];
      if (pipe(fd)) return 3;
      pid_t pid = fork();
      if (!pid) {
        close(fd[0]);
        cutPipe = fd[1];
        break;
      }
      close(fd[1]);
      std::vector<unsigned> drop;
      unsigned x, next = 0;
      while (read(fd[0], &x, sizeof x) == sizeof x) {
        if (x == ~0u) next = 1;
        else if (x == ~1u) next = 2;
        else drop.push_back(x);
      }
      close(fd[0]);
      int st;
      waitpid(pid, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st)) return 3;
      if (next == 1) { // another choice of the variables
        R.choice++;
        R.droppedCuts.clear();
      } else if (next == 2) { // there is none
        R.noPhi = true;
        R.droppedCuts.clear();
      } else if (drop.empty())
        return 0;
      R.droppedCuts.insert(drop.begin(), drop.end());
    }
    vf::instrument(*F, R);
    if (verifyFunction(*F, &errs())) return 3;
    if (getenv("VF_PRINT")) F->print(outs());
    int64_t nThrow = 0;
    for (auto &BB : *F)
      for (auto &I : BB)
        if (auto *CI = dyn_cast<CallInst>(&I))
          if (auto *G = CI->getCalledFunction())
            nThrow += G->getName().starts_with("vf_throw");
    vf::Prover P(*F);
    P.verbose = getenv("VF_V") ? atoi(getenv("VF_V")) : 1;
    vf::ProveResult PR;
    P.run(PR);
    {
      std::set<unsigned> bad;
      std::vector<vf::Oblig> rest;
      for (auto &o : PR.obligs) {
        unsigned id = StringRef(o.what).starts_with("assert") ? atoi(o.what.c_str() + 6) : 0;
        if (id < vf::CUT0) rest.push_back(o);
        else if (!o.ok) bad.insert(id - vf::CUT0);
      }
      // when one of the values a variable may have holds the others are wrong, and
      // can be why the rest does not
      std::map<unsigned, int> holds;
      for (auto &[no, g] : R.cutGroup)
        holds[g] += !R.droppedCuts.count(no) && !bad.count(no);
      std::set<unsigned> drop;
      bool phi = false;
      for (unsigned b : bad) {
        phi |= R.phiCuts.count(b) && !holds[R.cutGroup[b]];
        if (holds[R.cutGroup[b]])
          drop.insert(b);
      }
      if (drop.empty() && phi)
        drop.insert(R.choice + 1 < R.choiceRadix ? ~0u : ~1u);
      if (drop.empty())
        drop = bad;
      for (unsigned b : drop)
        if (write(cutPipe, &b, sizeof b) != sizeof b) return 3;
      if (getenv("VF_V")) errs() << "round " << round << " cuts " << R.cuts << " dropped " << R.droppedCuts.size() << " failing " << bad.size() << "\n";
      if (!bad.empty()) return 0;
      PR.obligs = rest;
    }
    unsigned ok = 0;
    for (auto &o : PR.obligs) ok += o.ok;
    if (!json.empty()) {
      std::error_code EC;
      raw_fd_ostream J(json, EC);
      json::Array obs, fns;
      for (auto &o : PR.obligs)
        obs.push_back(json::Object{{"ok", o.ok}, {"what", o.what}, {"loc", o.loc}, {"chain", o.chain}, {"detail", json::fixUTF8(o.detail)}});
      for (auto &n : S.functions)
        fns.push_back(json::fixUTF8(n));
      json::Array opq, unr;
      for (auto &n : S.opaqueNames) opq.push_back(json::fixUTF8(n));
      for (auto &n : S.unresolvedAt) unr.push_back(json::fixUTF8(n));
      J << json::Value(json::Object{{"entry", entry}, {"obligations", std::move(obs)}, {"functions", std::move(fns)}, {"opaque", std::move(opq)}, {"unresolved", std::move(unr)},
        {"throws", nThrow}, {"inlined", S.inlined}, {"devirt", S.devirt}, {"loops", PR.loops}, {"candidates", PR.candidates}, {"invariants", PR.invariants}, {"lps", (int64_t)PR.lps}, {"skipped", R.skipped}, {"unknown", R.unknown}, {"instructions", F->getInstructionCount()}});
      J << "\n";
    }
    errs() << "checks " << R.checks << " unknown " << R.unknown << " skipped " << R.skipped << " counted " << R.nCounted << "; loops " << PR.loops << " cands " << PR.candidates << " inv " << PR.invariants << " rounds " << PR.rounds << " lps " << PR.lps << "; obligations " << PR.obligs.size() << " ok " << ok << "\n";
  }
  return 0;
}
