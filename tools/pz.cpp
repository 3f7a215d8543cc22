// pz: abstract interpreter for ohcount's generated parsers (ragel -G2 output lowered to LLVM IR).
//
// Domain (per basic block): a finite map  key -> zone  where
//   key   abstract values of all tracked cells: parser globals of integer type (constant / nonzero / unknown /
//         STALE = left over from an earlier parse), tags of pointer globals (STALE, NULL, in-buffer, string
//         constant, ENTRY value), the queue state, ghost flags, and finite SSA values live across blocks;
//   zone  difference bounds (clamped to a finite threshold set, so the lattice is finite) over in-buffer pointers:
//         buffer start, buffer end, every pointer global, ghosts (end of last reported line, previous token
//         start) and temporaries.
// The fixpoint is computed with joins; no path is enumerated and no solver is used. On the fixpoint, every
// callback, character load, store to the scan position and return is checked against the rules below.
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/SetVector.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <bitset>
#include <climits>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
using namespace llvm;
typedef int16_t B;
static const B INF = 10000;
// int cell codes
static const int S_STALE = INT_MIN, S_TOP = INT_MIN + 1, S_NZ = INT_MIN + 2;
// pointer cell tags
enum { P_STALE = 0, P_TOP = 1, P_NULL = 2, P_BUF = 3, P_ENTRY = 4, P_STR = 16 };
// queue states
enum { Q_OLD = 0, Q_EMPTY = 1, Q_FRESH = 2, Q_FLUSHED = 3 };

static B clampUp(int v) {
  if (v >= INF) return INF;
  if (v > 4) return INF;
  if (v < -4) return -4;
  return (B)v;
}

struct Zone {
  int n = 0; bool bot = false;
  std::bitset<256> cs;                                      // characters possible at the scan position
  std::bitset<256> qs;                                      // characters possible at zQ
  std::bitset<256> es;                                      // characters possible at the end of the current token
  std::vector<B> d;
  void init(int k) { n = k; cs.set(); qs.set(); es.set(); d.assign(k * k, INF); for (int i = 0; i < k; i++) d[i * k + i] = 0; }
  B get(int i, int j) const { return d[i * n + j]; }        // x_i - x_j <= get
  void add(int i, int j, int c) {                            // x_i - x_j <= c
    if (bot || c >= d[i * n + j]) return;
    if (d[j * n + i] < INF && d[j * n + i] + c < 0) { bot = true; return; }
    for (int a = 0; a < n; a++) {
      int ai = d[a * n + i]; if (ai >= INF) continue;
      for (int b = 0; b < n; b++) {
        int jb = d[j * n + b]; if (jb >= INF) continue;
        int v = ai + c + jb;
        if (v < d[a * n + b]) d[a * n + b] = v < -30 ? -30 : (B)v;
      }
    }
  }
  void forget(int i) { for (int a = 0; a < n; a++) if (a != i) { d[a * n + i] = INF; d[i * n + a] = INF; } }
  void shift(int i, int c) {                                 // x_i += c
    for (int a = 0; a < n; a++) if (a != i) {
      if (d[i * n + a] < INF) d[i * n + a] += c;
      if (d[a * n + i] < INF) d[a * n + i] -= c;
    }
  }
  void assign(int i, int j, int c) {                         // x_i := x_j + c
    if (i == j) { shift(i, c); return; }
    forget(i);
    for (int a = 0; a < n; a++) if (a != i) {
      if (d[j * n + a] < INF) d[i * n + a] = d[j * n + a] + c;
      if (d[a * n + j] < INF) d[a * n + i] = d[a * n + j] - c;
    }
    d[i * n + j] = c; d[j * n + i] = -c;
  }
  bool le(int i, int j, int c) const { return bot || d[i * n + j] <= c; } // entails x_i - x_j <= c
  bool join(const Zone &o) {                                 // returns changed
    bool ch = false;
    if ((cs | o.cs) != cs) { cs |= o.cs; ch = true; }
    if ((qs | o.qs) != qs) { qs |= o.qs; ch = true; }
    if ((es | o.es) != es) { es |= o.es; ch = true; }
    for (int k = 0; k < n * n; k++) if (o.d[k] > d[k]) { B v = clampUp(o.d[k]); if (v < o.d[k]) v = INF; d[k] = v; ch = true; }
    return ch;
  }
  bool empty() const { for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (d[i * n + j] < INF && d[j * n + i] < INF && d[i * n + j] + d[j * n + i] < 0) return true; return false; }
  void norm() { for (auto &x : d) { if (x > 4 && x < INF) x = INF; else if (x < -4) x = -4; } }
};

struct AV {          // abstract value of an SSA value
  enum K { TOP, INT, PTR, NUL, STR, OFF, CHR, STALE, ENTRY, ENTTAB, ARG, TAB, QHEAD, QITEM, FUN } k = TOP;
  int a = 0, b = 0;  // INT: a=code, b=origin cell+1; PTR: var a + b; STR: id a; OFF: var a + b; CHR: addr var a + b
  int org = 0;       // origin cell + 1 (loads)
  bool operator<(const AV &o) const { return std::tie(k, a, b, org) < std::tie(o.k, o.a, o.b, o.org); }
  bool operator==(const AV &o) const { return k == o.k && a == o.a && b == o.b && org == o.org; }
};

struct Cell { std::string name; const GlobalVariable *g; int off; bool ptr; bool lang; int zv; };

struct State {
  std::vector<int> key;                       // cells, then specials
  std::map<const Value *, AV> sv;             // SSA values live across blocks
  Zone z;
};
struct KeyCmp {
  bool operator()(const State *, const State *) const;
};
typedef std::pair<std::vector<int>, std::map<const Value *, AV>> PKey;

struct Violation { std::string rule, key, text; };

struct Analyzer {
  Module &M; Function &F; const DataLayout &DL;
  std::vector<Cell> cells;
  DenseMap<std::pair<const GlobalVariable *, int>, int> cellOf;
  std::vector<std::string> strs; std::map<std::string, int> strId;
  int nz = 0, zB, zE, zLE, zLC, zPT, zFB, zFN, zFBc, zFNc, zFW, zQ, zT0; static const int NT = 5;
  int kCount, kQ, kG, kNA, kNx, kNBL, kBef, nkey;
  std::set<int> pivots;                 // line terminators: the next character may be known to be one   // special key slots
  std::vector<int> backups, stackCells;
  int cLS = -1, cLCC = -1, cWLC = -1, cP = -1, cPE = -1, cTS = -1, cTE = -1, cInq = -1, cTop = -1, cCS = -1, cSeen = -1;
  struct Ent { Zone z; bool dirty = true; };
  std::map<const BasicBlock *, std::map<PKey, Ent>> in;
  std::map<const BasicBlock *, std::vector<char>> liveIn;
  std::map<const BasicBlock *, std::set<const Value *>> ssaLive;
  std::set<const Value *> cross;
  std::map<std::string, Violation> viol;
  std::map<std::string, long> cnt;
  std::set<std::string> langs, cats, calls;
  bool checking = false;
  std::set<const Instruction *> seenSites;
  std::set<std::string> entTabs;
  std::vector<const Function *> fns;    // functions met as values

  Analyzer(Module &M, Function &F) : M(M), F(F), DL(M.getDataLayout()) { prompt = F.getName() == "parse_dcl"; }

  int str(StringRef s) {
    auto it = strId.find(s.str()); if (it != strId.end()) return it->second;
    strs.push_back(s.str()); return strId[s.str()] = strs.size() - 1;
  }
  static std::string where(const Instruction *I) {
    if (auto *L = I->getDebugLoc().get()) return (L->getFilename() + ":" + Twine(L->getLine())).str();
    return "?";
  }
  State *cur = nullptr;
  void report(const std::string &rule, const std::string &detail, const Instruction *I, const std::string &text) {
    if (!checking) return;
    std::string key = rule + ":" + F.getName().str() + (detail.empty() ? "" : ":" + detail);
    if (!viol.count(key) && getenv("PZ_DEBUG") && cur) {
      errs() << "VIOL " << key << " " << where(I) << "\n";
      for (size_t k = 0; k < cur->key.size(); k++) errs() << " " << (k < cells.size() ? cells[k].name : "special" + std::to_string(k - cells.size())) << "=" << cur->key[k];
      errs() << "\n"; std::map<int, std::string> nm = {{zB, "B"}, {zE, "E"}, {zLE, "LE"}, {zLC, "LC"}, {zPT, "PT"}, {zFB, "FB"}, {zFN, "FN"}, {zFBc, "FBc"}, {zFNc, "FNc"}, {zFW, "FW"}, {zQ, "Q"}};
      for (auto &c : cells) if (c.zv >= 0) nm[c.zv] = c.name;
      for (int i = 0; i < nz; i++) for (int j = 0; j < nz; j++) if (i != j && nm.count(i) && nm.count(j) && cur->z.get(i, j) < INF) errs() << " " << nm[i] << "-" << nm[j] << "<=" << cur->z.get(i, j);
      errs() << "\n";
    }
    if (!viol.count(key)) viol[key] = {rule, key, where(I) + ": " + text};
  }

  void setup() {
    std::set<const GlobalVariable *> used;
    for (auto &BB : F) for (auto &I : BB) for (auto &U : I.operands()) {
      const Value *V = U.get()->stripInBoundsConstantOffsets();
      if (auto *G = dyn_cast<GlobalVariable>(V)) used.insert(G);
    }
    static const std::set<std::string> core = {"p", "pe", "ts", "line_start", "line_contains_code", "whole_line_comment", "inqueue"};
    // cells: mutable scalar globals and small int arrays
    for (auto &G : M.globals()) {
      if (G.isConstant() || G.isDeclaration() || (!used.count(&G) && !core.count(G.getName().str()))) continue;
      Type *T = G.getValueType();
      auto addc = [&](int off, bool ptr, std::string nm) {
        bool lang = false;
        if (ptr && G.hasInitializer() && !G.getInitializer()->isNullValue()) lang = true;
        cellOf[{&G, off}] = cells.size();
        cells.push_back({nm, &G, off, ptr, lang, -1});
      };
      if (T->isPointerTy()) addc(0, true, G.getName().str());
      else if (T->isIntegerTy()) addc(0, false, G.getName().str());
      else if (auto *AT = dyn_cast<ArrayType>(T))
        if (AT->getElementType()->isIntegerTy(32) && AT->getNumElements() <= 64)
          for (unsigned k = 0; k < AT->getNumElements(); k++) addc(4 * k, false, (G.getName() + "[" + Twine(k) + "]").str());
    }
    zB = nz++; zE = nz++; zLE = nz++; zLC = nz++; zPT = nz++; zFB = nz++; zFN = nz++; zFBc = nz++; zFNc = nz++; zFW = nz++; zQ = nz++; zT0 = nz; nz += NT;
    for (size_t i = 0; i < cells.size(); i++) {
      auto &c = cells[i];
      if (c.ptr && !c.lang && used.count(c.g) && c.name != "callback_list_head" && c.name != "callback_list_tail" && c.name != "seen")
        c.zv = nz++;
      if (c.name == "line_start") cLS = i; if (c.name == "line_contains_code") cLCC = i;
      if (c.name == "whole_line_comment") cWLC = i; if (c.name == "p") cP = i; if (c.name == "pe") cPE = i;
      if (c.name == "ts") cTS = i; if (c.name == "te") cTE = i; if (c.name == "inqueue") cInq = i; if (c.name == "top") cTop = i; if (c.name == "cs") cCS = i;
      if (c.name == "seen") cSeen = i;
      if (c.name.rfind("last_", 0) == 0) backups.push_back(i);
      if (c.name.rfind("stack[", 0) == 0) stackCells.push_back(i);
    }
    nkey = cells.size();
    kCount = nkey++; kQ = nkey++; kG = nkey++; kNA = nkey++; kNx = nkey++; kNBL = nkey++; kBef = nkey++;
    // cross-block SSA values
    for (auto &BB : F) for (auto &I : BB) {
      if (I.getType()->isVoidTy() || isa<AllocaInst>(I)) continue;
      if (isa<PHINode>(I)) { cross.insert(&I); continue; }
      for (auto *U : I.users()) {
        auto *UI = cast<Instruction>(U);
        if (isa<PHINode>(UI) || UI->getParent() != &BB) { cross.insert(&I); break; }
      }
    }
    // local integers that are counted up or down in a loop (nesting depths and the like) are not tracked
    std::map<const Value *, std::vector<const Value *>> dep;
    for (auto &BB : F) for (auto &I : BB) {
      if (!I.getType()->isIntegerTy()) continue;
      if (auto *P = dyn_cast<PHINode>(&I)) { for (auto &V : P->incoming_values()) if (isa<Instruction>(V)) dep[&I].push_back(V); }
      else if (I.getOpcode() == Instruction::Add || I.getOpcode() == Instruction::Sub || isa<CastInst>(I) || isa<SelectInst>(I))
        for (auto &V : I.operands()) if (isa<Instruction>(V)) dep[&I].push_back(V);
    }
    for (auto &BB : F) for (auto &I : BB) if (I.getType()->isIntegerTy() && (I.getOpcode() == Instruction::Add || I.getOpcode() == Instruction::Sub)) {
      std::set<const Value *> seen; std::vector<const Value *> w(dep[&I]); bool cyc = false;
      while (!w.empty() && !cyc) { auto *v = w.back(); w.pop_back(); if (v == &I) cyc = true; else if (seen.insert(v).second && dep.count(v)) for (auto *x : dep[v]) w.push_back(x); }
      if (cyc) { for (auto *v : seen) if (isa<PHINode>(v)) counters.insert(v); }
    }
    for (auto &BB : F) for (auto &I : BB) if (auto *X = dyn_cast<ICmpInst>(&I)) {
      auto *r = dyn_cast<ConstantInt>(X->getOperand(1));
      if (X->getPredicate() == ICmpInst::ICMP_EQ || X->getPredicate() == ICmpInst::ICMP_NE) if (r && r->getSExtValue() >= 10 && r->getSExtValue() <= 13) pivots.insert(r->getSExtValue());
    }
    liveness();
  }
  std::set<const Value *> counters;

  // address operand -> cell index, or -1
  int cellAddr(const Value *Ptr) {
    APInt off(64, 0);
    const Value *V = Ptr->stripAndAccumulateConstantOffsets(DL, off, true);
    if (auto *G = dyn_cast<GlobalVariable>(V)) {
      auto it = cellOf.find({G, (int)off.getSExtValue()});
      if (it != cellOf.end()) return it->second;
    }
    return -1;
  }
  void liveness() {
    int n = cells.size();
    std::map<const BasicBlock *, std::vector<char>> use, def;
    std::map<const BasicBlock *, std::set<const Value *>> suse, sdef;
    for (auto &BB : F) {
      auto &u = use[&BB]; auto &d = def[&BB]; u.assign(n, 0); d.assign(n, 0);
      for (auto &I : BB) {
        if (!isa<PHINode>(I)) for (auto &O : I.operands()) if (cross.count(O.get()) && !sdef[&BB].count(O.get())) suse[&BB].insert(O.get());
        if (cross.count(&I)) sdef[&BB].insert(&I);
        if (auto *L = dyn_cast<LoadInst>(&I)) {
          int c = cellAddr(L->getPointerOperand());
          if (c >= 0) { if (!d[c]) u[c] = 1; }
          else for (int k = 0; k < n; k++) if (cells[k].g == L->getPointerOperand()->stripInBoundsConstantOffsets() ) u[k] = 1;
          // variable index into an int array
          if (c < 0) if (auto *GEP = dyn_cast<GEPOperator>(L->getPointerOperand()))
            for (int k = 0; k < n; k++) if (cells[k].g == GEP->getPointerOperand() && !d[k]) u[k] = 1;
        } else if (auto *St = dyn_cast<StoreInst>(&I)) {
          int c = cellAddr(St->getPointerOperand());
          if (c >= 0 && !u[c]) d[c] = 1;
        } else if (isa<ReturnInst>(I)) {
          for (int k = 0; k < n; k++) if ((cells[k].lang || k == cLCC || k == cWLC || k == cP || k == cPE || k == cTop) && !d[k]) u[k] = 1;
        } else if (auto *C = dyn_cast<CallInst>(&I)) {
          if (C->getCalledFunction() && C->getCalledFunction()->getName().starts_with("parse_"))
            for (int k = 0; k < n; k++) if (cells[k].lang && !d[k]) u[k] = 1;
          if (!C->getCalledFunction() || C->getCalledFunction()->getName() == "enqueue")  // line events are checked against these
            for (int k : {cLCC, cWLC}) if (k >= 0 && !d[k]) u[k] = 1;
        }
      }
      // the carry-over rule inspects these at the next step of the scan position
      for (int k : {cLS, cLCC, cWLC, cP, cPE}) if (k >= 0 && !d[k]) u[k] = 1;
    }
    std::vector<const BasicBlock *> po;
    for (auto *BB : post_order(&F)) po.push_back(BB);
    bool ch = true;
    for (auto *BB : po) { liveIn[BB] = use[BB]; ssaLive[BB] = suse[BB]; }
    while (ch) {
      ch = false;
      for (auto *BB : po) {
        auto &L = liveIn[BB]; auto &SL = ssaLive[BB];
        for (auto *S : successors(BB)) {
          auto &SI = liveIn[S]; if (SI.empty()) continue;
          for (int k = 0; k < n; k++) if (SI[k] && !def[BB][k] && !L[k]) { L[k] = 1; ch = true; }
          for (auto *v : ssaLive[S]) if (!sdef[BB].count(v) && SL.insert(v).second) ch = true;
          for (auto &I : *S) if (auto *P = dyn_cast<PHINode>(&I)) {
            auto *v = P->getIncomingValueForBlock(BB);
            if (cross.count(v) && !sdef[BB].count(v) && SL.insert(v).second) ch = true;
          } else break;
        }
      }
    }
    // phis are defined at block entry
    for (auto *BB : po) for (auto &I : *BB) if (isa<PHINode>(I)) ssaLive[BB].erase(&I); else break;
  }

  // ---------------------------------------------------------------- evaluation
  struct Ctx { State *st; std::map<const Value *, AV> env; };

  AV val(Ctx &C, const Value *V) {
    if (auto *CI = dyn_cast<ConstantInt>(V)) { AV r; r.k = AV::INT; long x = CI->getSExtValue(); r.a = (x > INT_MAX || x < INT_MIN + 8) ? S_TOP : (int)x; return r; }
    if (isa<ConstantPointerNull>(V)) { AV r; r.k = AV::NUL; return r; }
    if (auto *A = dyn_cast<Argument>(V)) {
      AV r; r.k = AV::ARG; r.a = A->getArgNo();
      if (r.a == 0) { r.k = AV::PTR; r.a = zB; r.b = 0; }
      else if (r.a == 1) { r.k = AV::OFF; r.a = zE; }      // the length: the position of the end
      else if (r.a == 2) { r.k = AV::INT; r.a = C.st->key[kCount]; r.org = kCount + 1; }
      return r;
    }
    if (auto *K = dyn_cast<Constant>(V)) {
      if (auto *Fn = dyn_cast<Function>(K)) {
        AV r; r.k = AV::FUN; auto it = std::find(fns.begin(), fns.end(), Fn);
        r.a = it - fns.begin(); if (it == fns.end()) fns.push_back(Fn);
        return r;
      }
      if (K->getType()->isPointerTy()) {
        APInt off(64, 0);
        const Value *Bs = K->stripAndAccumulateConstantOffsets(DL, off, true);
        if (auto *G = dyn_cast<GlobalVariable>(Bs)) {
          if (G->isConstant() && G->hasInitializer())
            if (auto *D = dyn_cast<ConstantDataSequential>(G->getInitializer()))
              if (D->isString()) { AV r; r.k = AV::STR; r.a = str(D->getAsString().drop_front(off.getZExtValue()).rtrim('\0')); return r; }
          if (G->isConstant() && G->hasInitializer() && isa<ConstantAggregateZero>(G->getInitializer())) { AV r; r.k = AV::STR; r.a = str(""); return r; }
        }
      }
      return AV();
    }
    auto it = C.env.find(V); if (it != C.env.end()) return it->second;
    auto jt = C.st->sv.find(V); if (jt != C.st->sv.end()) return jt->second;
    return AV();
  }
  // invalidate references to zone var v held by SSA values before v is overwritten (unless by self + c)
  void detach(Ctx &C, int v) {
    auto usesVar = [&](AV &a) { return (a.k == AV::PTR || a.k == AV::OFF || a.k == AV::CHR) && a.a == v; };
    bool need = false;
    for (auto &kv : C.env) if (usesVar(kv.second)) need = true;
    for (auto &kv : C.st->sv) if (usesVar(kv.second)) need = true;
    if (!need) return;
    // move to a temporary
    std::set<int> busy;
    for (auto *m : {&C.env, &C.st->sv}) for (auto &kv : *m) if (kv.second.k == AV::PTR || kv.second.k == AV::OFF || kv.second.k == AV::CHR) busy.insert(kv.second.a);
    int t = -1;
    for (int k = 0; k < NT; k++) if (!busy.count(zT0 + k)) { t = zT0 + k; break; }
    for (auto *m : {&C.env, &C.st->sv}) for (auto &kv : *m) if (usesVar(kv.second)) { if (t >= 0) kv.second.a = t; else kv.second = AV(); }
    if (t >= 0) C.st->z.assign(t, v, 0);
  }
  void killOrigins(Ctx &C, int cell) {
    for (auto *m : {&C.env, &C.st->sv}) for (auto &kv : *m) if (kv.second.org == cell + 1) kv.second.org = 0;
  }
  int zBot(State &st) { return st.z.bot; }

  AV loadCell(Ctx &C, int c, const Instruction *I) {
    auto &cell = cells[c]; int v = C.st->key[c]; AV r; r.org = c + 1;
    if (cell.name == "callback_list_head" || cell.name == "callback_list_tail") { r.k = AV::QHEAD; r.a = C.st->key[kQ]; return r; }
    if (!cell.ptr) {
      if (v == S_STALE) { r.k = AV::STALE; r.a = c; return r; }
      r.k = AV::INT; r.a = v; return r;
    }
    if (v == P_STALE) { r.k = AV::STALE; r.a = c; }
    else if (v == P_NULL) r.k = AV::NUL;
    else if (v == P_BUF && cell.zv >= 0) { r.k = AV::PTR; r.a = cell.zv; r.b = 0; }
    else if (v == P_ENTRY) { r.k = AV::ENTRY; r.a = c; }
    else if (v >= P_STR) { r.k = AV::STR; r.a = v - P_STR; }
    return r;
  }
  bool flagsMaybe(State &st) { return st.key[cLCC] != 0 || st.key[cWLC] != 0; }

  void storeCell(Ctx &C, int c, AV v, const Instruction *I) {
    auto &cell = cells[c]; State &st = *C.st;
    killOrigins(C, c);
    if (cell.name == "callback_list_head" || cell.name == "callback_list_tail") st.key[c] = P_TOP;
    if (cell.name == "callback_list_head") { if (v.k == AV::NUL) st.key[kQ] = Q_EMPTY; return; }
    if (cell.name == "callback_list_tail") return;
    if (c == cLCC && v.k == AV::INT && v.a == 0) st.key[kG] &= ~1;
    if (c == cWLC && v.k == AV::INT && v.a == 0) st.key[kG] &= ~2;
    // a mark set after the report, while the scan still stands on the reported line
    if ((c == cLCC || c == cWLC) && v.k == AV::INT && v.a != 0 && (st.key[kG] & 8) && st.z.le(cells[cP].zv, zLE, -1))
      st.key[kG] |= c == cLCC ? 1 : 2;
    if (c == cLS && v.k == AV::PTR && (st.key[kG] & 8) && st.z.le(cells[cP].zv, zLE, -1) && st.z.le(v.a, zLE, -v.b - 1)) st.key[kG] |= 4;
    if (c == cLS && (v.k == AV::NUL || (v.k == AV::PTR && st.z.le(zLE, v.a, v.b)))) st.key[kG] &= ~4;
    if (c == cInq && v.k == AV::INT && v.a == 0 && st.key[cInq] != 0) {   // queue closed: flushed or dropped
      if (st.key[kQ] == Q_FLUSHED || st.key[kQ] == Q_EMPTY) st.z.assign(zLC, zLE, 0); else dropQueue(st);
    }
    if (c == cInq && v.k == AV::INT && v.a == 1) { st.z.assign(zFBc, zFB, 0); st.z.assign(zFNc, zFN, 0); }
    if (!cell.ptr) {
      if (v.k == AV::INT) st.key[c] = v.a;
      else if (v.k == AV::STALE) st.key[c] = S_STALE;
      else st.key[c] = S_TOP;
      return;
    }
    if (c == cP && v.k == AV::PTR && st.key[cP] != P_STALE) scanStep(C, v, I);
    if (c == cP) {
      bool step = v.k == AV::PTR && v.a == cell.zv && v.b == 1;
      bool same = v.k == AV::PTR && st.z.le(v.a, cell.zv, -v.b) && st.z.le(cell.zv, v.a, v.b) && st.key[cP] == P_BUF;
      if (step) { sawChar(st, cells[cP].zv, 0, st.z.cs); }
      if (step) { if (st.key[kNBL] == 2) st.key[kNBL] = 1; else if (st.key[kNBL] == 1 && (st.z.cs & ~whites()).any()) st.key[kNBL] = 0; }
      else if (!same) st.key[kNBL] = st.key[kNBL] == 1 && v.k == AV::PTR && v.a == cell.zv && v.b == -1 ? 2 : 0;
      fwStep = step ? 1 : same ? 0 : 2;
      if (step) { st.z.cs.set(); int k = st.key[kNx]; if (k > 0) { st.z.cs.reset(); st.z.cs.set(k & 255); } st.key[kNx] = k > 255 ? -1 : 0; }
      else if (!same) {
        bool back = v.k == AV::PTR && st.key[cP] == P_BUF && this->same(st, v.a, v.b + 1, cell.zv);       // one back: what stood here stands next
        st.key[kNx] = back && st.z.cs.count() == 1 && !st.z.cs[0] ? 256 + (int)st.z.cs._Find_first() : 0;
        st.z.cs.set();
      }
    }
    if (c == cTS && v.k == AV::PTR) tokenStart(C, v, I);
    if (c == cTE) { st.z.es.set(); if (v.k == AV::PTR && st.key[cP] == P_BUF && same(st, v.a, v.b, cells[cP].zv)) st.z.es = st.z.cs; }
    if (c == cP && v.k == AV::PTR && cTE >= 0 && st.key[cTE] == P_BUF && same(st, v.a, v.b, cells[cTE].zv)) atTE = true; else atTE = false;
    switch (v.k) {
    case AV::NUL: st.key[c] = P_NULL; if (cell.zv >= 0) { detach(C, cell.zv); st.z.forget(cell.zv); } break;
    case AV::PTR:
      if (cell.zv < 0) { st.key[c] = P_TOP; break; }
      if (v.a == cell.zv) {
        int d = v.b; st.z.shift(cell.zv, d);
        for (auto *m : {&C.env, &C.st->sv}) for (auto &kv : *m)
          if ((kv.second.k == AV::PTR || kv.second.k == AV::OFF || kv.second.k == AV::CHR) && kv.second.a == cell.zv) kv.second.b -= d;
      } else { detach(C, cell.zv); st.z.assign(cell.zv, v.a, v.b); }
      st.key[c] = P_BUF;
      if (atTE && st.z.es.any() && (st.z.cs & st.z.es).any()) st.z.cs &= st.z.es;
      if (c == cP && (fwStep == 2 || (fwStep == 1 && !st.z.le(cell.zv, zFW, -1)))) st.z.assign(zFW, cell.zv, 1);
      break;
    case AV::STR: st.key[c] = P_STR + v.a; break;
    case AV::ENTRY: st.key[c] = (v.a == c) ? P_ENTRY : P_TOP;
      // another language variable's value at entry: use its initial value
      if (v.a != c) { int s = langInit(v.a); if (s >= 0) st.key[c] = P_STR + s; }
      break;
    case AV::STALE: st.key[c] = P_STALE; break;
    default: st.key[c] = P_TOP; if (cell.zv >= 0) { detach(C, cell.zv); st.z.forget(cell.zv); }
    }
  }
  int langInit(int c) {
    auto *Init = cells[c].g->getInitializer();
    APInt off(64, 0);
    if (auto *G = dyn_cast<GlobalVariable>(Init->stripAndAccumulateConstantOffsets(DL, off, true)))
      if (G->hasInitializer()) {
        if (auto *D = dyn_cast<ConstantDataSequential>(G->getInitializer())) if (D->isString()) return str(D->getAsString().rtrim('\0'));
      }
    return -1;
  }

  void dropQueue(State &st) { st.z.assign(zLE, zLC, 0); st.z.assign(zFB, zFBc, 0); st.z.assign(zFN, zFNc, 0); }
  // [last line end, zFB) holds only blanks, [last line end, zFN) no newline: extended over the character at x + c
  void extend(State &st, int f, int x, int c) {
    auto &z = st.z;
    if (!z.le(x, f, -c) || z.le(x, f, -c - 1)) return;             // beyond the known prefix, or inside it
    if (z.le(f, x, c)) { z.assign(f, x, c + 1); return; }
    std::vector<int> up(z.n), lo(z.n);
    for (int a = 0; a < z.n; a++) { up[a] = z.get(f, a); lo[a] = z.get(a, f); }
    z.forget(f);
    for (int a = 0; a < z.n; a++) if (a != f) { if (up[a] < INF) z.add(f, a, up[a] + 1); if (lo[a] < INF) z.add(a, f, lo[a]); }
    z.add(x, f, -c - 1);
  }
  bool same(State &st, int x, int c, int y) { return st.z.le(x, y, -c) && st.z.le(y, x, c); }     // x + c == y
  static std::bitset<256> &whites() { static std::bitset<256> w; if (w.none()) { w.set(9); w.set(11); w.set(32); } return w; }
  static std::bitset<256> &ends() { static std::bitset<256> w; if (w.none()) { w.set(10); w.set(12); w.set(13); } return w; }
  int fwStep = 0; bool atTE = false;
  bool prompt = false;                                       // '$' begins a DCL line and is not part of its text
  bool blankc(int c) { return (prompt && c == '$') || c == ' ' || c == 9 || c == 11 || c == 12 || c == 13 || c == 10; }
  void sawChar(State &st, int x, int c, const std::bitset<256> &cs) {
    if (cs.none()) return;
    bool q = cInq >= 0 && st.key[cInq] != 0;
    if (!cs[10]) { extend(st, zFN, x, c); if (q) extend(st, zFNc, x, c); }
    bool bl = true; for (int k = 0; k < 256 && bl; k++) if (cs[k] && !blankc(k)) bl = false;
    if (bl) { extend(st, zFB, x, c); if (q) extend(st, zFBc, x, c); }
  }
  // rule CARRY: nothing about a finished line is carried past the next step of the scan position
  void scanStep(Ctx &C, const AV &v, const Instruction *I) {
    State &st = *C.st;
    if (int g = st.key[kG]) {
      if (g & 1) report("carry", "code", I, "after a line is reported, its code mark survives into the next line");
      if (g & 2) report("carry", "comment", I, "after a line is reported, its comment mark survives into the next line");
      if (g & 4) report("carry", "start", I, "after a line is reported, the next line's start is not set anew: it may start before that line's end");
      st.key[kG] = 0;
    }
    // rule ROLLBACK: the scan must not return to text that has already been reported
    if (!(v.a == cells[cP].zv && v.b >= 0)) {
      if (checking) cnt["scan_repositions"]++;
    }
    // rule ROOM: the position never leaves the text
    if (!st.z.le(v.a, zE, -v.b) || !st.z.le(zB, v.a, v.b + 1))
      report("position", "", I, "the scan position may leave the text");
  }
  // rule PROGRESS
  void tokenStart(Ctx &C, const AV &v, const Instruction *I) {
    State &st = *C.st;
    if (checking) cnt["token_starts"]++;
    if (st.z.le(zPT, v.a, v.b - 1)) st.key[kNA] = 0;       // previous token start < this one
    else if (st.z.le(zPT, v.a, v.b)) {
      if (++st.key[kNA] >= 4) { report("progress", "", I, "a token may start again and again at the same position"); st.key[kNA] = 3; }
    } else { report("progress", "back", I, "a token may start before the previous token's start"); st.key[kNA] = 0; }
    st.z.assign(zPT, v.a, v.b);
  }

  std::string avs(const AV &v) {
    switch (v.k) {
    case AV::NUL: return "NULL"; case AV::STR: return "\"" + strs[v.a] + "\""; case AV::STALE: return "stale " + cells[v.a].name;
    case AV::INT: return v.a == S_TOP ? "int?" : std::to_string(v.a); case AV::PTR: return "ptr"; case AV::OFF: return "off"; default: return "unknown"; }
  }
  std::set<int> langOf(const AV &v) { return {}; }

  void lang(Ctx &C, const AV &v, const Instruction *I) {
    if (!checking) return;
    cnt["language_arguments"]++;
    if (v.k == AV::STR) langs.insert(strs[v.a]);
    else if (v.k == AV::ENTRY) langs.insert("@" + cells[v.a].name);
    else if (v.k == AV::STALE) report("stale", cells[v.a].name, I, "a language left over from an earlier parse is reported: " + cells[v.a].name);
    else report("language", "", I, "the reported language is not a known constant: " + avs(v));
  }
  void range(Ctx &C, const AV &s, const AV &e, const Instruction *I, const std::string &cat) {
    State &st = *C.st;
    if (checking) cnt["range_obligations"]++;
    for (auto *x : {&s, &e})
      if (x->k == AV::STALE) report("stale", cells[x->a].name, I, "a position left over from an earlier parse is reported: " + cells[x->a].name);
    if (s.k != AV::OFF) { report("range", "start:" + cat, I, "the reported start is not a position in the text (" + avs(s) + ")"); return; }
    if (e.k != AV::OFF) { report("range", "end:" + cat, I, "the reported end is not a position in the text (" + avs(e) + ")"); return; }
    if (!st.z.le(zB, s.a, s.b)) report("range", "neg:" + cat, I, "reported start may lie before the text");
    if (!st.z.le(e.a, zE, -e.b)) report("range", "over:" + cat, I, "reported end may lie beyond the text");
    if (!st.z.le(s.a, e.a, e.b - s.b)) report("range", "inverted:" + cat, I, "reported end may precede the reported start");
  }
  void lineEvent(Ctx &C, const AV &cat, const AV &s, const AV &e, const Instruction *I, bool queued) {
    State &st = *C.st;
    std::string c = cat.k == AV::STR ? strs[cat.a] : "?";
    range(C, s, e, I, c);
    if (checking) cnt["line_events"]++;
    int code = st.key[cLCC], com = st.key[cWLC];
    auto yes = [](int v) { return v == S_NZ || (v != 0 && v > S_NZ); };
    bool ok = c == "lcode" ? yes(code) : c == "lcomment" ? (code == 0 && yes(com)) : (code == 0 && com == 0);
    if (!ok) report("category", c, I, "line reported as " + c + " while the line's marks are code=" + flag(code) + " comment=" + flag(com));
    if (s.k == AV::OFF && e.k == AV::OFF) {
      if (!st.z.le(zLE, s.a, s.b + (c == "lblank"))) report("order", c, I, "line may start before the end of the previously reported line");
      {       // rule GAP: nothing but blanks before a line is left out
        if (checking) cnt["gap_obligations"]++;
        if (!st.z.le(s.a, zFB, -s.b)) report("gap", c, I, "text between the previously reported line and this one may be left out");
      }
      if (c == "lblank") {       // rule BLANK: a line reported as blank holds nothing but blanks
        if (checking) cnt["blank_obligations"]++;
        if (!st.z.le(e.a, zFB, -e.b)) report("blank", "", I, "a line with text may be reported as blank");
      }
      {       // rule MULTI: one line at a time
        if (checking) cnt["single_line_obligations"]++;
        if (!st.z.le(e.a, zFN, 1 - e.b)) report("multi", c, I, "several lines may be reported as one");
      }
      st.z.assign(zLE, e.a, e.b); st.z.assign(zFB, e.a, e.b); st.z.assign(zFN, e.a, e.b);
      if (!queued) st.z.assign(zLC, e.a, e.b);
      sawChar(st, cells[cP].zv, 0, st.z.cs);       // what is known of the character at the scan position
    }
    st.key[kG] = 8 | (code != 0 ? 1 : 0) | (com != 0 ? 2 : 0) | (st.key[cLS] != P_NULL ? 4 : 0);
    if (checking) cnt["line_end_resets"]++;
  }
  static std::string flag(int v) { return v == S_TOP ? "?" : v == S_STALE ? "stale" : v == S_NZ ? "1" : std::to_string(v); }

  void event(Ctx &C, const CallInst *CI, bool queued) {
    State &st = *C.st;
    if (checking && seenSites.insert(CI).second) cnt["report_sites"]++;
    AV l = val(C, CI->getArgOperand(0)), c = val(C, CI->getArgOperand(1)), s = val(C, CI->getArgOperand(2)), e = val(C, CI->getArgOperand(3));
    if (!queued && (l.k == AV::QITEM || c.k == AV::QITEM || s.k == AV::QITEM)) {   // flushing the queue
      if (checking) cnt["queue_flushes"]++;
      if (st.key[kQ] == Q_OLD) report("stale", "queue", CI, "lines queued during an earlier parse may be reported");
      bool all = l.k == AV::QITEM && c.k == AV::QITEM && s.k == AV::QITEM && e.k == AV::QITEM;
      if (st.key[kQ] == Q_FRESH) st.key[kQ] = Q_FLUSHED;
      if (!all || l.a != 0 || c.a != 8 || s.a != 16 || e.a != 20) report("queue", "fields", CI, "a queued line is not reported with its own language, kind and range");
      return;
    }
    lang(C, l, CI);
    bool line = st.key[kCount] != 0;
    if (c.k == AV::STR && (strs[c.a] == "lcode" || strs[c.a] == "lcomment" || strs[c.a] == "lblank")) {
      if (checking) { cats.insert(strs[c.a]); cnt["category_arguments"]++; }
      if (!line) report("kind", "line-in-entity", CI, "a line is reported while entities were asked for");
      if (queued) {
        int q = st.key[cInq];
        if (q == 0) report("queue", "closed", CI, "a line is queued although no queue is open");
        if (st.key[kQ] != Q_OLD) st.key[kQ] = Q_FRESH;
      }
      lineEvent(C, c, s, e, CI, queued);
      return;
    }
    if (line) { report("kind", "entity-in-line", CI, "something other than lcode/lcomment/lblank is reported while counting lines (" + avs(c) + ")"); return; }
    if (checking) cnt["entity_arguments"]++;
    if (c.k == AV::ENTTAB) ;  // checked at the load
    else if (c.k == AV::STR) { if (checking) entTabs.insert("literal:" + strs[c.a]); }
    else report("kind", "entity", CI, "the reported entity name does not come from an entity table");
    range(C, s, e, CI, "entity");
  }

  // returns false when the path ends
  bool exec(Ctx &C, const Instruction &I) {
    State &st = *C.st; AV r;
    switch (I.getOpcode()) {
    case Instruction::Load: {
      auto &L = cast<LoadInst>(I); const Value *P = L.getPointerOperand();
      int c = cellAddr(P);
      if (c >= 0) { r = loadCell(C, c, &I); break; }
      AV a = val(C, P);
      if (L.getType()->isIntegerTy(8)) {
        if (a.k == AV::PTR) {
          if (checking) { cnt["char_reads"]++;
            bool lo = st.z.le(zB, a.a, a.b), hi = st.z.le(a.a, zE, -a.b);
            if (!lo) report("read", "before", &I, "a character before the start of the text may be read");
            if (!hi) report("read", "after", &I, "a character beyond the end of the text may be read");
          }
          r.k = AV::CHR; r.a = a.a; r.b = a.b;
          if (a.a != cells[cP].zv && !same(st, a.a, a.b, zQ)) { st.z.assign(zQ, a.a, a.b); st.z.qs.set(); }
        } else if (checking && (a.k == AV::NUL || a.k == AV::STALE)) report("read", "wild", &I, "a character is read through an unset position");
        break;
      }
      if (auto *G = dyn_cast<GEPOperator>(P)) {
        const Value *Base = G->getPointerOperand();
        if (auto *GV = dyn_cast<GlobalVariable>(Base)) {
          auto *AT = dyn_cast<ArrayType>(GV->getValueType());
          if (AT && AT->getElementType()->isPointerTy()) {   // entity table
            AV ix = val(C, G->getOperand(G->getNumOperands() - 1));
            r.k = AV::ENTTAB;
            if (checking) {
              cnt["entity_lookups"]++; entTabs.insert(GV->getName().str());
              if (ix.k == AV::STALE) report("stale", cells[ix.a].name, &I, "entity index left over from an earlier parse");
              else if (ix.k != AV::INT || ix.a == S_TOP || ix.a == S_NZ) report("entity", GV->getName().str() + ":unknown", &I, "entity index is not a known constant");
              else if (ix.a < 0 || ix.a >= (int)AT->getNumElements()) report("entity", GV->getName().str() + ":" + std::to_string(ix.a), &I, "entity index " + std::to_string(ix.a) + " outside the table of " + std::to_string(AT->getNumElements()));
            }
            break;
          }
          if (AT && AT->getElementType()->isIntegerTy(32) && cellOf.count({GV, 0})) {  // stack[i]
            AV ix = val(C, G->getOperand(G->getNumOperands() - 1));
            r.k = AV::INT; r.a = S_TOP;
            if (ix.k == AV::INT && ix.a > S_NZ) {
              if (ix.a < 0 || ix.a >= (int)AT->getNumElements()) report("stack", "underflow", &I, "return-state stack read outside its bounds");
              else r = loadCell(C, cellOf[{GV, 4 * ix.a}], &I);
            } else report("stack", "unknown", &I, "return-state stack read at an unknown depth");
            break;
          }
        }
      }
      // queue items: any load through a pointer obtained from the queue head
      if (a.k == AV::QITEM || a.k == AV::QHEAD) { r.k = AV::QITEM; r.a = 0;  break; }
      if (auto *G = dyn_cast<GEPOperator>(P)) {
        AV bs = val(C, G->getPointerOperand());
        if (bs.k == AV::QITEM || bs.k == AV::QHEAD) { APInt off(64, 0); G->accumulateConstantOffset(DL, off); r.k = AV::QITEM; r.a = (int)off.getSExtValue(); break; }
      }
      break;
    }
    case Instruction::Store: {
      auto &S = cast<StoreInst>(I); const Value *P = S.getPointerOperand();
      int c = cellAddr(P); AV v = val(C, S.getValueOperand());
      if (c >= 0) { storeCell(C, c, v, &I); return true; }
      if (auto *G = dyn_cast<GEPOperator>(P))
        if (auto *GV = dyn_cast<GlobalVariable>(G->getPointerOperand()))
          if (cellOf.count({GV, 0})) {
            AV ix = val(C, G->getOperand(G->getNumOperands() - 1));
            int n = cast<ArrayType>(GV->getValueType())->getNumElements();
            if (checking) cnt["stack_pushes"]++;
            if (ix.k == AV::INT && ix.a > S_NZ) {
              if (ix.a < 0 || ix.a >= n) { report("stack", "overflow", &I, "nested languages may overflow the return-state stack (depth " + std::to_string(ix.a + 1) + " of " + std::to_string(n) + ")"); return false; }
              storeCell(C, cellOf[{GV, 4 * ix.a}], v, &I);
            } else { report("stack", "unknown", &I, "return-state stack written at an unknown depth"); for (int k = 0; k < n; k++) st.key[cellOf[{GV, 4 * k}]] = S_TOP; }
            return true;
          }
      AV a = val(C, P);
      if (a.k == AV::PTR) report("write", "", &I, "the text being parsed is modified");
      return true;
    }
    case Instruction::GetElementPtr: {
      auto &G = cast<GetElementPtrInst>(I);
      AV b = val(C, G.getPointerOperand());
      if (b.k == AV::PTR) {
        MapVector<Value *, APInt> vo; APInt co(64, 0);
        if (G.collectOffset(DL, 64, vo, co)) {
          if (vo.empty()) { r = b; r.org = 0; r.b += co.getSExtValue(); }
          else if (vo.size() == 1 && vo.begin()->second == 1) {
            AV x = val(C, vo.begin()->first);
            if (x.k == AV::OFF && same(st, b.a, b.b, zB)) { r.k = AV::PTR; r.a = x.a; r.b = x.b + co.getSExtValue(); }
          }
        }
      }
      if (b.k == AV::QHEAD || b.k == AV::QITEM) { if (G.hasAllZeroIndices()) r = b; }
      break;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::SExt: case Instruction::ZExt: case Instruction::Trunc:
      r = val(C, I.getOperand(0));
      if (I.getOpcode() == Instruction::Trunc && r.k == AV::CHR) r = AV();
      if (I.getOpcode() == Instruction::ZExt && I.getOperand(0)->getType()->isIntegerTy(1)) { int t = truth(C, I.getOperand(0)); r = AV(); if (t >= 0) { r.k = AV::INT; r.a = t; } }
      break;
    case Instruction::Add: case Instruction::Sub: {
      AV x = resolve(C, val(C, I.getOperand(0))), y = resolve(C, val(C, I.getOperand(1)));
      bool sub = I.getOpcode() == Instruction::Sub;
      auto con = [](const AV &v) { return v.k == AV::INT && v.a > S_NZ; };
      if (con(x) && con(y)) { r.k = AV::INT; r.a = sub ? x.a - y.a : x.a + y.a; bool depth = cTop >= 0 && (x.org == cTop + 1 || y.org == cTop + 1); if (depth ? (r.a > 6 || r.a < -1) : x.org || y.org) r.a = S_TOP; } // counters are widened
      else if ((x.k == AV::PTR || x.k == AV::OFF) && con(y)) { r = x; r.org = 0; r.b += sub ? -y.a : y.a; }
      else if (!sub && (y.k == AV::PTR || y.k == AV::OFF) && con(x)) { r = y; r.org = 0; r.b += x.a; }
      else if (sub && x.k == AV::PTR && y.k == AV::PTR) {
        // distance from the start of the text
        if (st.z.le(y.a, zB, -y.b) && st.z.le(zB, y.a, y.b)) { r.k = AV::OFF; r.a = x.a; r.b = x.b; }
      } else if (sub && x.k == AV::NUL && y.k == AV::PTR) { r = x; }
      else if (x.k == AV::STALE) { r = x; r.org = 0; }
      else if (y.k == AV::STALE) { r = y; r.org = 0; }
      else if (x.k == AV::INT && y.k == AV::INT) { r.k = AV::INT; r.a = S_TOP; }
      break;
    }
    case Instruction::Select: {
      int t = truth(C, I.getOperand(0));
      if (t >= 0) r = val(C, I.getOperand(t ? 1 : 2));
      else { AV x = val(C, I.getOperand(1)), y = val(C, I.getOperand(2)); if (x == y) r = x; else if (x.k == AV::INT && y.k == AV::INT) { r.k = AV::INT; r.a = S_TOP; } }
      break;
    }
    case Instruction::ICmp: { int t = truth(C, &I); if (t >= 0) { r.k = AV::INT; r.a = t; } break; }
    case Instruction::Call: {
      auto &K = cast<CallInst>(I);
      const Function *Cal = K.getCalledFunction();
      if (!Cal) { AV f = val(C, K.getCalledOperand()); if (f.k == AV::FUN) Cal = fns[f.a]; }
      if (!Cal) { if (K.arg_size() == 5) event(C, &K, false); else report("kind", "call", &I, "unknown indirect call"); break; }
      if (Cal->isIntrinsic()) break;
      StringRef n = Cal->getName();
      if (n == "enqueue") { event(C, &K, true); break; }
      if (n == "free_queue") {
        if (st.key[kQ] == Q_FRESH) dropQueue(st);                  // queued lines dropped
        if (st.key[kQ] == Q_FLUSHED) st.z.assign(zLC, zLE, 0);
        st.key[kQ] = Q_EMPTY; break; }
      if (Cal->arg_size() == 5 && n.starts_with("parse_") ) {
        std::string s = n.str();
        for (size_t k = 0; k < cells.size(); k++) if (cells[k].lang && st.key[k] != P_ENTRY) s += "|" + cells[k].name + "=" + (st.key[k] >= P_STR ? strs[st.key[k] - P_STR] : "?");
        if (checking) { calls.insert(s); cnt["delegations"]++; }
        for (unsigned k = 0; k < 5; k++) if (K.getArgOperand(k) != F.getArg(k)) report("delegate", n.str(), &I, "argument " + std::to_string(k) + " is not passed on unchanged to " + n.str());
        for (size_t k = 0; k < cells.size(); k++) if (!cells[k].lang) { st.key[k] = cells[k].ptr ? (cells[k].zv >= 0 ? P_STALE : P_STALE) : S_STALE; }
        st.key[cLCC] = st.key[cWLC] = 0;
        break;
      }
      if (n == "malloc" || n == "printf" || n == "free" || n == "strlen" || n == "strncmp" || n == "strcmp" || n == "memcmp" || n == "isspace" || n == "__ctype_b_loc") break;
      if (Cal->isDeclaration()) { cnt["external_calls:" + n.str()]++; break; }
      report("call", n.str(), &I, "call to a function this analysis does not model: " + n.str());
      break;
    }
    default: break;
    }
    if (!I.getType()->isVoidTy()) C.env[&I] = r;
    return true;
  }

  // truth of a condition: 0/1/-1
  int truth(Ctx &C, const Value *V) {
    if (auto *CI = dyn_cast<ConstantInt>(V)) return CI->isZero() ? 0 : 1;
    if (forced.count(V)) { auto it = C.env.find(V); if (it != C.env.end() && it->second.k == AV::INT && it->second.a > S_NZ) return it->second.a != 0; }
    if (auto *X = dyn_cast<ICmpInst>(V)) {
      if (C.env.count(V) == 0 && C.st->sv.count(V)) { AV a = C.st->sv[V]; if (a.k == AV::INT && a.a > S_NZ) return a.a != 0; return -1; }
      AV a = resolve(C, val(C, X->getOperand(0))), b = resolve(C, val(C, X->getOperand(1)));
      auto p = X->getPredicate();
      if (a.k == AV::STALE || b.k == AV::STALE) return -1;
      auto con = [](const AV &v) { return v.k == AV::INT && v.a > S_NZ; };
      if (con(a) && b.k == AV::CHR) { std::swap(a, b); p = ICmpInst::getSwappedPredicate(p); }
      if (atP(a, 0) && con(b) && isSigned(p)) {
        bool y = false, n = false;
        for (int c = 0; c < 256; c++) if (C.st->z.cs[c]) (holds(p, (signed char)c, b.a) ? y : n) = true;
        return y && n ? -1 : y ? 1 : 0;
      }
      if (con(a) && con(b)) {
        long x = a.a, y = b.a;
        switch (p) { case ICmpInst::ICMP_EQ: return x == y; case ICmpInst::ICMP_NE: return x != y; case ICmpInst::ICMP_SLT: return x < y; case ICmpInst::ICMP_SLE: return x <= y;
        case ICmpInst::ICMP_SGT: return x > y; case ICmpInst::ICMP_SGE: return x >= y; default: return -1; }
      }
      auto eqne = [&](int eq) { return p == ICmpInst::ICMP_EQ ? eq : p == ICmpInst::ICMP_NE ? !eq : -1; };
      if (a.k == AV::INT && a.a == S_NZ && con(b) && b.a == 0) return eqne(0);
      auto isptr = [](const AV &v) { return v.k == AV::PTR || v.k == AV::STR || v.k == AV::ARG || v.k == AV::ENTRY; };
      if (a.k == AV::NUL && b.k == AV::NUL) return eqne(1);
      if ((isptr(a) && b.k == AV::NUL) || (a.k == AV::NUL && isptr(b))) {
        if (p == ICmpInst::ICMP_EQ || p == ICmpInst::ICMP_NE) return eqne(0);
        bool agt = isptr(a);
        switch (p) { case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_UGE: return agt; case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_ULE: return !agt; default: return -1; }
      }
      if (a.k == AV::QHEAD && b.k == AV::NUL) { if (a.a == Q_EMPTY) return eqne(1); if (a.a == Q_FRESH) return eqne(0); }
      if (a.k == AV::STR && b.k == AV::STR) return eqne(strs[a.a] == strs[b.a]);   // same literal: merged or not, same language
      if (a.k == AV::PTR && b.k == AV::PTR) {
        auto &z = C.st->z; int c = b.b - a.b;   // a <= b  <=>  xa - xb <= c
        bool le = z.le(a.a, b.a, c), lt = z.le(a.a, b.a, c - 1), ge = z.le(b.a, a.a, -c), gt = z.le(b.a, a.a, -c - 1);
        switch (p) {
        case ICmpInst::ICMP_EQ: return (le && ge) ? 1 : (lt || gt) ? 0 : -1;
        case ICmpInst::ICMP_NE: return (le && ge) ? 0 : (lt || gt) ? 1 : -1;
        case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: return lt ? 1 : ge ? 0 : -1;
        case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: return le ? 1 : gt ? 0 : -1;
        case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: return gt ? 1 : le ? 0 : -1;
        case ICmpInst::ICMP_UGE: case ICmpInst::ICMP_SGE: return ge ? 1 : lt ? 0 : -1;
        default: return -1; }
      }
      return -1;
    }
    AV a = val(C, V);
    if (a.k == AV::INT && a.a > S_NZ) return a.a != 0;
    if (a.k == AV::INT && a.a == S_NZ) return 1;
    return -1;
  }
  // the character at the scan position, when an earlier test determined it
  AV resolve(Ctx &C, AV a) {
    if (a.k == AV::CHR && a.a == cells[cP].zv) {
      State &st = *C.st; int v = 0;
      if (a.b == 0 && st.z.cs.count() == 1) v = (signed char)st.z.cs._Find_first();
      if (a.b == 1 && st.key[kNx] > 0) v = (signed char)(st.key[kNx] & 255);
      if (v) { AV r; r.k = AV::INT; r.a = v; return r; }
    }
    return a;
  }
  static bool holds(CmpInst::Predicate p, long x, long y) {
    switch (p) { case ICmpInst::ICMP_EQ: return x == y; case ICmpInst::ICMP_NE: return x != y; case ICmpInst::ICMP_SLT: return x < y; case ICmpInst::ICMP_SLE: return x <= y;
    case ICmpInst::ICMP_SGT: return x > y; case ICmpInst::ICMP_SGE: return x >= y; default: return true; }
  }
  static bool isSigned(CmpInst::Predicate p) { return p == ICmpInst::ICMP_EQ || p == ICmpInst::ICMP_NE || ICmpInst::isSigned(p); }
  bool atP(const AV &a, int off) { return a.k == AV::CHR && a.a == cells[cP].zv && a.b == off; }
  // the set of characters possible at the scan position, narrowed by a comparison
  bool learn(Ctx &C, const AV &a, CmpInst::Predicate p, int k) {
    if (!isSigned(p)) return true;
    State &st = *C.st;
    if (a.k == AV::CHR && !atP(a, 0)) { std::bitset<256> one; for (int c = 0; c < 256; c++) if (holds(p, (signed char)c, k)) one.set(c); sawChar(st, a.a, a.b, one);
      if (same(st, a.a, a.b, zQ)) {            // looking ahead of the scan position
        st.z.qs &= one;
        if (st.z.qs.none()) return false;
        if (st.z.le(zQ, zFW, 0)) {             // whites up to there
          if ((st.z.qs & ~whites()).none()) extend(st, zFW, zQ, 0);
          else if ((st.z.qs & (whites() | ends())).none()) st.key[kNBL] = 2;     // something after p before the line's end
        }
      }
    }
    if (atP(a, 1)) { if (p == ICmpInst::ICMP_EQ && pivots.count(k)) st.key[kNx] = k; return true; }
    if (!atP(a, 0)) return true;
    for (int c = 0; c < 256; c++) if (st.z.cs[c] && !holds(p, (signed char)c, k)) st.z.cs.reset(c);
    if (cTE >= 0 && st.key[cTE] == P_BUF && same(st, cells[cP].zv, 0, cells[cTE].zv)) st.z.es &= st.z.cs;
    if (st.z.cs.any()) sawChar(st, cells[cP].zv, 0, st.z.cs);
    if (st.key[kNBL] == 1 && (st.z.cs & ~ends()).none()) return false;      // no line end before what was seen ahead
    return st.z.cs.any();
  }
  void staleUse(Ctx &C, const Value *V, const Instruction *I, int depth = 0) {
    if (!checking || depth > 3) return;
    AV a = val(C, V);
    if (a.k == AV::STALE) { report("stale", cells[a.a].name, I, "a decision depends on " + cells[a.a].name + ", whose value was left by an earlier parse"); return; }
    if (auto *X = dyn_cast<Instruction>(V)) if (isa<ICmpInst>(X) || isa<BinaryOperator>(X) || isa<CastInst>(X))
      for (auto &O : X->operands()) if (C.env.count(O.get()) || C.st->sv.count(O.get())) staleUse(C, O.get(), I, depth + 1);
  }
  // assume condition V has truth t in C; returns false if infeasible
  bool assume(Ctx &C, const Value *V, bool t) {
    int k = truth(C, V);
    if (k >= 0) return k == (int)t;
    State &st = *C.st;
    if (auto *X = dyn_cast<ICmpInst>(V)) {
      if (C.env.count(V) == 0) return true;       // evaluated in another block: operands may have changed
      auto p = t ? X->getPredicate() : X->getInversePredicate();
      AV a = val(C, X->getOperand(0)), b = val(C, X->getOperand(1));
      auto con = [](const AV &v) { return v.k == AV::INT && v.a > S_NZ; };
      if (a.k == AV::PTR && b.k == AV::PTR) {
        int c = b.b - a.b;
        switch (p) {
        case ICmpInst::ICMP_EQ: st.z.add(a.a, b.a, c); st.z.add(b.a, a.a, -c); break;
        case ICmpInst::ICMP_NE: if (st.z.le(a.a, b.a, c)) st.z.add(a.a, b.a, c - 1); else if (st.z.le(b.a, a.a, -c)) st.z.add(b.a, a.a, -c - 1); break;
        case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: st.z.add(a.a, b.a, c - 1); break;
        case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: st.z.add(a.a, b.a, c); break;
        case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: st.z.add(b.a, a.a, -c - 1); break;
        case ICmpInst::ICMP_UGE: case ICmpInst::ICMP_SGE: st.z.add(b.a, a.a, -c); break;
        default: break; }
        return !st.z.bot;
      }
      if (a.k == AV::INT && con(a) && b.k == AV::CHR) { std::swap(a, b); p = ICmpInst::getSwappedPredicate(p); }
      if (b.k == AV::INT && con(b)) {
        if (!learn(C, a, p, b.a)) return false;
        if (a.k == AV::CHR && ((p == ICmpInst::ICMP_EQ && b.a != 0) || (p == ICmpInst::ICMP_NE && b.a == 0))) return nonzeroChar(C, a);
        if (a.k == AV::INT && a.org) return refine(C, a.org - 1, p, b.a);
      }
      if (b.k == AV::NUL && a.k == AV::QHEAD) return true;
      return true;
    }
    return true;
  }
  bool refine(Ctx &C, int cell, CmpInst::Predicate p, int k) {
    int &v = C.st->key[cell];
    if (v == S_TOP) { if (p == ICmpInst::ICMP_EQ) v = k; else if (p == ICmpInst::ICMP_NE && k == 0) v = S_NZ; }
    else if (v == S_NZ) { if (p == ICmpInst::ICMP_EQ) { if (k == 0) return false; v = k; } }
    return true;
  }
  bool nonzeroChar(Ctx &C, const AV &a) {          // the byte at the end of the text is the terminating NUL
    auto &z = C.st->z;
    if (z.le(a.a, zE, -a.b)) z.add(a.a, zE, -a.b - 1);
    return !z.bot;
  }

  std::set<const Value *> forced;
  void flow(Ctx &C, const BasicBlock *From, const BasicBlock *To, std::deque<const BasicBlock *> &wl, std::set<const BasicBlock *> &inwl) {
    if (C.st->z.bot) return;
    // a condition merged into a boolean is decided on the edge, so that what it says about the text is not lost
    for (auto &I : *To) if (auto *P = dyn_cast<PHINode>(&I)) {
      if (!P->getType()->isIntegerTy(1)) continue;
      auto *X = dyn_cast<ICmpInst>(P->getIncomingValueForBlock(From));
      if (!X || !C.env.count(X) || forced.count(X) || truth(C, X) >= 0) continue;
      for (int k = 0; k < 2; k++) {
        State s2 = *C.st; Ctx D; D.st = &s2; D.env = C.env;
        if (!assume(D, X, k)) continue;
        AV b; b.k = AV::INT; b.a = k; D.env[X] = b; forced.insert(X);
        flow(D, From, To, wl, inwl);
        forced.erase(X);
      }
      return;
    } else break;
    // with embedded languages: is the scan position inside text that has been reported already (a longer token failed)?
    if (cTop >= 0 && C.st->key[kCount] != 0) {
      State &st = *C.st; int P = cells[cP].zv;
      if (st.key[cP] != P_BUF || liveIn[To].empty() || !liveIn[To][cP]) st.key[kBef] = 0;
      else if (st.z.le(P, zLE, -1)) st.key[kBef] = 1;
      else if (st.z.le(zLE, P, 0)) st.key[kBef] = 0;
      else {
        for (int k = 0; k < 2; k++) {
          State s2 = st; Ctx D; D.st = &s2; D.env = C.env;
          if (k) s2.z.add(P, zLE, -1); else s2.z.add(zLE, P, 0);
          if (!s2.z.bot) flow(D, From, To, wl, inwl);
        }
        return;
      }
    }
    // what was learnt of the character at the scan position, in the light of what a branch has since told about the position
    if (C.st->key[kCount] != 0 && C.st->key[cP] == P_BUF && !C.st->z.cs.all() && C.st->z.cs.any()) sawChar(*C.st, cells[cP].zv, 0, C.st->z.cs);
    State ns = *C.st;
    // phis
    std::map<const Value *, AV> nsv; 
    std::vector<std::pair<const Value *, AV>> ph;
    for (auto &I : *To) if (auto *P = dyn_cast<PHINode>(&I)) ph.push_back({P, val(C, P->getIncomingValueForBlock(From))}); else break;
    auto keep = [&](const Value *v, AV a) {
      if (a.k == AV::TOP) return;
      a.org = 0;
      nsv[v] = a;
    };
    auto &SL = ssaLive[To];
    for (auto &pr : ph) if (counters.count(pr.first) && pr.second.k == AV::INT) pr.second = AV();   // widened at once
    for (auto *v : SL) { AV a = val(C, v); keep(v, a); }
    for (auto &pr : ph) keep(pr.first, pr.second);
    // pointers held across blocks get their own temporaries, by order of value, so that states can join
    int t = 0; Zone nzv = ns.z;
    bool pLive = ns.key[cP] == P_BUF && !liveIn[To].empty() && liveIn[To][cP];
    std::vector<std::pair<int, std::pair<int,int>>> as;
    for (auto &kv : nsv) if (kv.second.k == AV::PTR || kv.second.k == AV::OFF || kv.second.k == AV::CHR) {
      if (kv.second.a == zB || kv.second.a == zE) continue;
      // a character read at the scan position stays tied to it
      if (kv.second.k == AV::CHR && pLive && kv.second.a == cells[cP].zv && kv.second.b >= -1 && kv.second.b <= 1) continue;
      if (t < NT) { as.push_back({zT0 + t, {kv.second.a, kv.second.b}}); kv.second.a = zT0 + t; kv.second.b = 0; t++; }
      else kv.second = AV();
    }
    if (!as.empty()) {
      // simultaneous assignment through a wider matrix
      Zone w; int N = ns.z.n + NT; w.init(N);
      for (int i = 0; i < ns.z.n; i++) for (int j = 0; j < ns.z.n; j++) w.d[i * N + j] = ns.z.d[i * ns.z.n + j];
      for (auto &x : as) w.assign(ns.z.n + (x.first - zT0), x.second.first, x.second.second);
      for (int k = 0; k < NT; k++) nzv.forget(zT0 + k);
      for (int i = 0; i < ns.z.n; i++) for (int j = 0; j < ns.z.n; j++) {
        int wi = (i >= zT0 && i < zT0 + t) ? ns.z.n + (i - zT0) : i, wj = (j >= zT0 && j < zT0 + t) ? ns.z.n + (j - zT0) : j;
        bool ti = i >= zT0 + t && i < zT0 + NT, tj = j >= zT0 + t && j < zT0 + NT;
        if (ti || tj) { nzv.d[i * nzv.n + j] = i == j ? 0 : INF; continue; }
        nzv.d[i * nzv.n + j] = w.d[wi * N + wj];
      }
    } else for (int k = 0; k < NT; k++) nzv.forget(zT0 + k);
    // dead cells
    auto &L = liveIn[To];
    for (size_t k = 0; k < cells.size(); k++) if (!L.empty() && !L[k] && (int)k != cP) {
      ns.key[k] = cells[k].ptr ? P_TOP : S_TOP;
      if (cells[k].zv >= 0) nzv.forget(cells[k].zv);
    }
    if (cTE >= 0 && ns.key[cTE] != P_BUF) nzv.es.set();
    if (ns.key[cP] == P_BUF && nzv.le(zE, cells[cP].zv, 0)) nzv.cs.reset();      // nothing stands at the end of the text
    if (cTE >= 0 && ns.key[cTE] == P_BUF && nzv.le(zE, cells[cTE].zv, 0)) nzv.es.reset();
    // with no queue open the backups are meaningless until the queue is opened again: reading them is an error
    if (cInq >= 0 && ns.key[cInq] == 0) {
      for (int c : backups) { ns.key[c] = cells[c].ptr ? P_STALE : S_STALE; if (cells[c].zv >= 0) nzv.forget(cells[c].zv); }
      ns.key[kQ] = Q_OLD;
    }
    if (cTop >= 0 && ns.key[cTop] >= 0)
      for (size_t k = 0; k < stackCells.size(); k++) if ((int)k >= ns.key[cTop]) ns.key[stackCells[k]] = S_STALE;
    nzv.norm();
    if (nzv.empty()) return;
    PKey pk(ns.key, nsv);
    auto &m = in[To];
    auto it = m.find(pk);
    bool ch = false;
    if (it == m.end()) { Ent e; e.z = nzv; m.emplace(std::move(pk), std::move(e)); ch = true; }
    else { ch = it->second.z.join(nzv); if (ch) it->second.dirty = true; }
    if (ch && inwl.insert(To).second) wl.push_back(To);
  }

  void block(const BasicBlock *BB, std::deque<const BasicBlock *> &wl, std::set<const BasicBlock *> &inwl) {
    std::vector<std::pair<const PKey *, Zone>> snapshot;
    for (auto &kv : in[BB]) if (kv.second.dirty || checking) { kv.second.dirty = false; snapshot.push_back({&kv.first, kv.second.z}); }
    for (auto &kv : snapshot) {
      State st; st.key = kv.first->first; st.sv = kv.first->second; st.z = std::move(kv.second);
      Ctx C; C.st = &st; cur = &st;
      for (auto &pr : st.sv) C.env[pr.first] = pr.second;
      st.sv.clear();
      bool dead = false;
      for (auto &I : *BB) {
        if (isa<PHINode>(I)) continue;
        if (I.isTerminator()) break;
        if (!exec(C, I)) { dead = true; break; }
        if (st.z.bot) { dead = true; break; }
      }
      if (dead) continue;
      const Instruction *T = BB->getTerminator();
      if (auto *Br = dyn_cast<BranchInst>(T)) {
        if (Br->isUnconditional()) flow(C, BB, Br->getSuccessor(0), wl, inwl);
        else {
          staleUse(C, Br->getCondition(), T);
          for (int k = 0; k < 2; k++) {
            State s2 = st; Ctx D; D.st = &s2; D.env = C.env;
            if (assume(D, Br->getCondition(), k == 0)) flow(D, BB, Br->getSuccessor(k), wl, inwl);
          }
        }
      } else if (auto *Sw = dyn_cast<SwitchInst>(T)) {
        staleUse(C, Sw->getCondition(), T);
        AV v = resolve(C, val(C, Sw->getCondition()));
        bool known = v.k == AV::INT && v.a > S_NZ;
        if (known) {
          auto *CI = cast<ConstantInt>(ConstantInt::getSigned(Sw->getCondition()->getType(), v.a));
          flow(C, BB, Sw->findCaseValue(CI)->getCaseSuccessor(), wl, inwl);
        } else {
          std::set<const BasicBlock *> done;
          for (auto &cs : Sw->cases()) {
            State s2 = st; Ctx D; D.st = &s2; D.env = C.env;
            if (v.k == AV::CHR && !learn(D, v, ICmpInst::ICMP_EQ, cs.getCaseValue()->getSExtValue())) continue;
            if (v.k == AV::CHR && !cs.getCaseValue()->isZero()) { if (!nonzeroChar(D, v)) continue; }
            else if (v.k == AV::INT && v.org) { if (!refine(D, v.org - 1, ICmpInst::ICMP_EQ, cs.getCaseValue()->getSExtValue())) continue; }
            flow(D, BB, cs.getCaseSuccessor(), wl, inwl);
          }
          State s2 = st; Ctx D; D.st = &s2; D.env = C.env; bool ok = true;
          if (v.k == AV::CHR) for (auto &cs : Sw->cases()) ok = ok && learn(D, v, ICmpInst::ICMP_NE, cs.getCaseValue()->getSExtValue());
          if (ok) flow(D, BB, Sw->getDefaultDest(), wl, inwl);
        }
      } else if (isa<ReturnInst>(T)) atReturn(C, T);
    }
  }
  void atReturn(Ctx &C, const Instruction *T) {
    if (!checking) return;
    State &st = *C.st;
    cnt["returns"]++;
    for (size_t k = 0; k < cells.size(); k++) if (cells[k].lang) {
      int v = st.key[k];
      if (v == P_ENTRY) continue;
      int s = langInit(k);
      if (!(v >= P_STR && s >= 0 && strs[v - P_STR] == strs[s]))
        report("restore", cells[k].name, T, "on return, " + cells[k].name + " is left at " + (v >= P_STR ? strs[v - P_STR] : std::string("another value")) + "; later parses report that language");
      else cnt["restored"]++;
    }
    bool own = cP >= 0 && st.key[cP] == P_BUF;
    if (!own) return;       // pure delegation
    int zp = cells[cP].zv;
    if (st.key[kNBL] == 1 && st.z.le(zE, zp, 0)) return;    // not at the end of the text: something was seen ahead
    if (!st.z.le(zE, zp, 1)) report("stuck", st.key[kCount] != 0 ? "lines" : "entities", T, std::string("some input stops the scan before the end of the text; the rest is not ") + (st.key[kCount] != 0 ? "counted" : "reported"));
    if (st.key[kCount] != 0) {
      cnt["last_line_obligations"]++;
      if (cInq >= 0 && st.key[cInq] != 0 && st.key[kQ] == Q_FRESH) report("lastline", "queued", T, "lines held back inside an unfinished token are never reported");
      if ((st.key[cLCC] != 0 || st.key[cWLC] != 0) && !st.z.le(zE, zLE, 0))
        report("lastline", "", T, "a last line without newline is not reported");
      else if (!st.z.le(zE, zLE, 0) && !st.z.le(zE, zFB, 0))
        report("lastline", "tail", T, "text after the last reported line may be left out");
    }
  }

  void dump(long steps) {
    long parts = 0; const BasicBlock *mx = nullptr; size_t best = 0;
    for (auto &kv : in) { parts += kv.second.size(); if (kv.second.size() > best) { best = kv.second.size(); mx = kv.first; } }
    errs() << "steps " << steps << " blocks " << in.size() << " parts " << parts << " max " << best << " at " << where(&mx->front()) << "\n";
    std::map<std::string, std::map<int, int>> h;
    std::map<std::string, int> svh;
    for (auto &p : in[mx]) {
      for (size_t k = 0; k < p.first.first.size(); k++) h[k < cells.size() ? cells[k].name : "special" + std::to_string(k - cells.size())][p.first.first[k]]++;
      for (auto &x : p.first.second) svh[(x.first->getName() + " k" + Twine(x.second.k) + " a" + Twine(x.second.a) + " b" + Twine(x.second.b)).str()]++;
    }
    for (auto &x : h) if (x.second.size() > 1) { errs() << "   " << x.first << ":"; for (auto &y : x.second) errs() << " " << y.first << "x" << y.second; errs() << "\n"; }
    for (auto &x : svh) errs() << "   sv " << x.first << " x" << x.second << "\n";
  }

  void run() {
    setup();
    if (cP < 0 || cPE < 0 || cLS < 0 || cLCC < 0 || cWLC < 0 || cTS < 0 || cInq < 0) { errs() << "missing parser globals\n"; exit(3); }
    std::deque<const BasicBlock *> wl; std::set<const BasicBlock *> inwl;
    const BasicBlock *E = &F.getEntryBlock();
    for (int count : {0, S_NZ}) {
      State st; st.key.assign(nkey, S_TOP);
      for (size_t k = 0; k < cells.size(); k++) st.key[k] = cells[k].ptr ? (cells[k].lang ? P_ENTRY : cells[k].name.rfind("callback_list_", 0) == 0 ? P_TOP : P_STALE) : S_STALE;
      st.key[kCount] = count; st.key[kQ] = Q_OLD; st.key[kG] = 0; st.key[kNA] = 0; st.key[kNx] = 0; st.key[kNBL] = 0; st.key[kBef] = 0;
      st.z.init(nz);
      st.z.add(zB, zE, 0);
      st.z.assign(zLE, zB, 0); st.z.assign(zLC, zB, 0); st.z.assign(zPT, zB, -1); for (int f : {zFB, zFN, zFBc, zFNc}) st.z.assign(f, zB, 0); st.z.assign(zFW, zB, 1);
      in[E][PKey(st.key, {})].z = st.z;
    }
    wl.push_back(E); inwl.insert(E);
    // process in reverse post order priority
    std::map<const BasicBlock *, int> ord; int k = 0;
    for (auto *BB : ReversePostOrderTraversal<const Function *>(&F)) ord[BB] = k++;
    long steps = 0;
    auto cmp = [&](const BasicBlock *a, const BasicBlock *b) { return ord[a] < ord[b]; };
    std::set<const BasicBlock *, decltype(cmp)> q(cmp);
    q.insert(E);
    while (!q.empty()) {
      const BasicBlock *BB = *q.begin(); q.erase(q.begin());
      std::deque<const BasicBlock *> w2; std::set<const BasicBlock *> i2;
      block(BB, w2, i2);
      for (auto *x : w2) q.insert(x);
      if (getenv("PZ_DEBUG") && steps % 20000 == 0) dump(steps);
      if (++steps > 3000000) { errs() << "no fixpoint\n"; exit(3); }
    }
    cnt["steps"] = steps; cnt["blocks"] = in.size();
    long parts = 0; for (auto &kv : in) parts += kv.second.size();
    cnt["abstract_states"] = parts;
    checking = true;
    for (auto &BB : F) if (in.count(&BB)) { std::deque<const BasicBlock *> w2; std::set<const BasicBlock *> i2; block(&BB, w2, i2); }
  }
};

static std::string esc(StringRef s) {
  std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) r += "?"; else r += c; } return "\"" + r + "\"";
}

int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 2; }
  std::set<std::string> want; for (int k = 2; k < argc; k++) want.insert(argv[k]);
  if (!want.empty()) for (auto &Fn : *M)
    if (!Fn.isDeclaration() && Fn.getName().starts_with("parse_") && Fn.arg_size() == 5 && !want.count(Fn.getName().str())) Fn.deleteBody();
  // helpers are inlined; parsers and the two queue primitives are not
  for (auto &Fn : *M) {
    if (Fn.isDeclaration()) continue;
    bool keep = (Fn.getName().starts_with("parse_") && Fn.arg_size() == 5) || Fn.getName() == "enqueue" || Fn.getName() == "free_queue";
    Fn.removeFnAttr(Attribute::AlwaysInline); Fn.removeFnAttr(Attribute::NoInline); Fn.removeFnAttr(Attribute::OptimizeNone);
    Fn.addFnAttr(keep ? Attribute::NoInline : Attribute::AlwaysInline);
  }
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, "always-inline,function(sroa)")) { errs() << toString(std::move(E)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  raw_ostream &O = outs();
  O << "{"; bool f0 = true;
  for (auto &Fn : *M) {
    if (Fn.isDeclaration() || !Fn.getName().starts_with("parse_") || Fn.arg_size() != 5) continue;
    if (!want.empty() && !want.count(Fn.getName().str())) continue;
    Analyzer A(*M, Fn); A.run();
    if (!f0) O << ",\n"; f0 = false;
    O << esc(Fn.getName()) << ":{\"file\":" << esc(Fn.getSubprogram() ? Fn.getSubprogram()->getFilename() : "") << ",\"violations\":[";
    bool f = true;
    for (auto &v : A.viol) { if (!f) O << ","; f = false; O << "{\"rule\":" << esc(v.second.rule) << ",\"key\":" << esc(v.second.key) << ",\"text\":" << esc(v.second.text) << "}"; }
    O << "],\"counts\":{"; f = true;
    for (auto &c : A.cnt) { if (!f) O << ","; f = false; O << esc(c.first) << ":" << c.second; }
    O << "}";
    auto lst = [&](const char *n, const std::set<std::string> &s) { O << ",\"" << n << "\":["; bool f = true; for (auto &x : s) { if (!f) O << ","; f = false; O << esc(x); } O << "]"; };
    lst("langs", A.langs); lst("cats", A.cats); lst("calls", A.calls); lst("tables", A.entTabs);
    O << ",\"langinit\":{"; f = true;
    for (size_t k = 0; k < A.cells.size(); k++) if (A.cells[k].lang) { int s = A.langInit(k); if (!f) O << ","; f = false; O << esc(A.cells[k].name) << ":" << esc(s >= 0 ? A.strs[s] : "?"); }
    O << "}}";
  }
  O << "}\n";
  return 0;
}
