// Abstract interpreter over inlined LLVM IR: convex polyhedra for lengths, offsets and counters; memory as symbolic
// segments with message provenance; data words as hash-consed expression graphs.
#pragma once
#include "common.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "poly.h"

namespace vp {

struct Piece {
  Lin lo, hi;                                   // relative to the start of the range
  enum K { kNode, kMsg, kFill, kStale } k = kStale;
  int node = -1;                                // kNode: the whole cell; kFill: the byte
  int msg = 0;
  Lin off;                                      // kMsg: byte y is M[y + off]
  auto Tie() const { return std::tie(k, node, msg); }
  bool operator<(const Piece& o) const {
    if (Tie() != o.Tie()) return Tie() < o.Tie();
    if (!(lo == o.lo)) return lo < o.lo;
    if (!(hi == o.hi)) return hi < o.hi;
    return off < o.off;
  }
};

enum NodeOp { NConst, NNum, NByte, NFold, NOpaque, NStale, NInst, NExtract, NConcat, NKernel, NKOut, NRange, NRelFold, NRelByte, NRelNum, NArg };

struct Node {
  int op = NConst, sub = 0;
  unsigned width = 0;
  std::string k;  // constants (decimal) and tags
  std::vector<int> kids;
  Lin lin;
  std::vector<Piece> pieces;
  bool stale = false, msg = false, fold = false, lins = false;
  bool numeric = false;  // built from lengths and counters only
  bool operator<(const Node& o) const {
    auto a = std::tie(op, sub, width, k, kids), b = std::tie(o.op, o.sub, o.width, o.k, o.kids);
    if (a != b) return a < b;
    if (!(lin == o.lin)) return lin < o.lin;
    return std::lexicographical_compare(pieces.begin(), pieces.end(), o.pieces.begin(), o.pieces.end());
  }
};

struct NodeTab {
  std::map<Node, int> ids;
  std::vector<const Node*> nodes;
  int Get(Node n) {
    for (int c : n.kids) n.stale |= nodes[c]->stale, n.msg |= nodes[c]->msg, n.fold |= nodes[c]->fold, n.lins |= nodes[c]->lins;
    for (auto& p : n.pieces) {
      if (p.k == Piece::kStale) n.stale = true;
      if (p.k == Piece::kMsg) n.msg = n.lins = true;
      if (p.node >= 0) n.stale |= nodes[p.node]->stale, n.msg |= nodes[p.node]->msg, n.fold |= nodes[p.node]->fold, n.lins |= nodes[p.node]->lins;
      if (!p.lo.IsConst() || !p.hi.IsConst()) n.lins = true;
    }
    if (n.op == NStale) n.stale = true;
    if (n.op == NByte) n.msg = true, n.lins = true;
    if (n.op == NFold) n.fold = true, n.lins = true;
    if (n.op == NNum) n.lins = n.numeric = true;
    if (n.op == NInst && n.width <= 64) {
      bool any = false, all = true;
      for (int c : n.kids) any |= nodes[c]->numeric, all &= nodes[c]->numeric || nodes[c]->op == NConst;
      n.numeric = any && all;
    }
    auto [it, fresh] = ids.emplace(std::move(n), (int)nodes.size());
    if (fresh) nodes.push_back(&it->first);
    return it->second;
  }
  const Node& operator[](int i) const { return *nodes[i]; }
  std::string Str(int id, int depth = 4) const;
};

struct Val {
  enum K { kUndef, kNum, kPtr, kNode, kAgg } k = kUndef;
  unsigned w = 0;
  Lin l;           // kNum: value; kPtr: offset
  int obj = -1;    // kPtr (-1: null or unknown)
  int node = -1;   // kNode; kNum: optional expression it came from
  std::vector<Val> agg;
};

struct Seg {
  Lin lo, hi;
  enum K { kCell, kMsg, kFill, kStale } k = kStale;
  Val v;           // kCell (whole); kFill: byte in v
  int msg = 0;
  Lin off;         // kMsg: byte at x is M[x + off]
};

struct Obj {
  std::string name;
  Lin size;
  Type* ty = nullptr;      // layout for the sub-object rule
  bool readonly = false, local = false, freed = false;
  std::vector<Seg> segs;
};

struct St {
  Poly p;
  std::map<const Value*, Val> env;
  std::vector<Obj> objs;
  bool exact = true;
  bool tied = false;             // a condition on data that is not plainly free was taken
  bool loose = false;       // joined or partly unmodelled: the conditions do not describe one path
  std::map<int, bool> assumed;   // data conditions taken on this path
  std::map<int, int> node_dim;
  std::vector<std::string> trace;
  Val ret;
};

struct KernelSig {
  int id = 0;
  std::string name;
  int weight = 0;
  struct Rng { int arg; int64_t off, size; };
  std::vector<Rng> reads, writes;
  std::vector<int> ints;  // scalar arguments
  unsigned ret = 0;       // result width
};

struct Unsupported {
  std::string what;
};

struct Obligation {
  std::string rule, where, what, entry;
  bool exact = false;
};

class Interp {
 public:
  Interp(Module& m, const std::map<std::string, KernelSig>& kernels) : m_(m), dl_(m.getDataLayout()), kernels_(kernels) {}
  NodeTab nodes;
  bool alarm = false;       // unwidened exploration (to classify failures)
  int peel = 3;
  unsigned xor_limit = 12;   // operands an exclusive-or list may merge from one operand
  bool recording = true;
  std::string entry;
  std::map<std::string, Obligation> failed;   // deduplicated by rule + place
  long obligations = 0, steps = 0, forks = 0, states = 0, truncated = 0;
  long max_steps = 4000000;
  std::chrono::steady_clock::time_point deadline = std::chrono::steady_clock::time_point::max();
  void Tick() const {
    if (std::chrono::steady_clock::now() > deadline) throw Unsupported{"time limit"};
  }
  std::set<int> globals;    // dimensions never forgotten
  int trace_level = 0;

  // Fold context: the chaining words of the algorithm.
  struct Fold {
    int obj = -1;                                   // state object they live in
    std::vector<std::pair<int64_t, unsigned>> cells;  // offset, width
    std::vector<int> init;                          // node of the initial value
    std::vector<int> tmpl;                          // relative expression per cell; empty until learned
    int block = 0;                                  // message bytes per step
    int msg = 0;
    std::vector<std::string> learned_at;
  } fold;
  std::map<std::string, std::map<std::string, std::string>> spec_flags;  // encoding of boolean block parameters
  bool use_fold = false;
  std::set<std::pair<int64_t, unsigned>> became_data;  // state cells that received data words
  std::vector<std::string> nonfold;                    // kernel calls on the chaining words that are not a step
  std::function<void(St&, const CallInst*, int kernel_node)> on_kernel;

  int NewDim() { return next_dim_++; }
  int AddObj(St& st, const std::string& name, const Lin& size, Type* ty, Seg::K fill, bool readonly);
  std::vector<St> Run(Function& f, const std::vector<Val>& args, St st);
  std::vector<St> JoinAll(std::vector<St> in, bool widen_ok);
  bool Fixpoint(std::vector<St>& cur, const std::vector<St>& add, int iter);  // true if cur grew
  void Gc(St& st, const std::set<const Value*>* live);
  Val NumVal(const Lin& l, unsigned w) { Val v; v.k = Val::kNum; v.w = w; v.l = l; return v; }
  Val PtrVal(int obj, const Lin& off) { Val v; v.k = Val::kPtr; v.w = 64; v.obj = obj; v.l = off; return v; }
  Val NodeVal(int n);
  int AsNode(St& st, const Val& v);
  // Word operation with simplification: constants, byte moves, units.
  int Extract(int id, unsigned sub, unsigned width);
  int MkInst(int op, unsigned width, std::vector<int> kids);
  bool Bytes(int node, std::vector<int>* out);
  int FromBytes(const std::vector<int>& b);
  Lin ForceNode(St& st, int node);
  Val Force(St& st, const Val& v);
  int ConstNode(const mpz_class& v, unsigned w);
  std::vector<Seg> SegsOf(St& st, int obj) { return st.objs[obj].segs; }
  void Canon(St& st, Obj& o);
  std::string Signature(const St& st, bool with_nodes = true) const;
  int Relativise(St& st, int node, const Lin& q, int block, std::map<int, int>& memo, bool* ok, std::set<int>* bytes, bool learn);
  bool TryFoldCells(St& st);
  bool Assume(St& st, int cond, bool truth);
  bool FreeCondition(int cond, std::set<int>* bytes);
  void Fail(St& st, const Instruction* at, const std::string& rule, const std::string& what);
  std::string Where(const Instruction& i) const;

  bool splits = true;  // partitions may be split
  // x = c*q + r with 0 <= r < c.
  void DivMod(St& st, const Lin& x, const mpz_class& c, Lin* q, Lin* r);
 private:
  struct Fork {};
  Module& m_;
  const DataLayout& dl_;
  const std::map<std::string, KernelSig>& kernels_;
  int next_dim_ = 1;
  std::vector<St>* pending_ = nullptr;
  std::map<const Function*, std::unique_ptr<DominatorTree>> dts_;
  std::map<const Function*, std::unique_ptr<LoopInfo>> lis_;
  std::map<const Function*, std::map<const BasicBlock*, std::set<const Value*>>> live_;
  std::map<const Function*, std::map<const BasicBlock*, int>> rpo_;
  std::map<const GlobalVariable*, int> global_objs_;
  int opaque_ = 0;

  void Prepare(Function& f);
  bool Decide(St& st, const Lin& e);
  bool DecideEq(St& st, const Lin& e);
  Val Eval(St& st, const Value* v);
  Val EvalConst(St& st, const Constant* c);
  Lin AsNum(St& st, const Val& v);
  Val Bin(St& st, const BinaryOperator& b);
  void Exec(St& st, const Instruction& i);
  void ExecCall(St& st, const CallInst& c);
  void Kernel(St& st, const CallInst& c, const KernelSig& k);
  Val LoadVal(St& st, const Instruction& at, const Val& p, Type* t);
  void StoreVal(St& st, const Instruction& at, const Val& p, const Val& v, Type* t);
  bool CheckAccess(St& st, const Instruction& at, const Val& p, const Lin& len, bool write);
  std::vector<Piece> ReadRange(St& st, const Val& p, const Lin& len);
  void WriteSegs(St& st, int obj, const Lin& a, const Lin& len, std::vector<Seg> mid);
  Val FromPieces(St& st, const std::vector<Piece>& ps, unsigned bytes);
  int GlobalObj(St& st, const GlobalVariable* g);
  void InitSegs(Obj& o, const Constant* c, uint64_t off);
  using Out = std::map<const BasicBlock*, std::vector<St>>;
  void RunBlock(const BasicBlock* b, St st, Out& out, std::vector<St>& rets);
  Out RunLoop(const Loop* l, std::vector<St> entry, std::vector<St>& rets);
  void RunRegion(const Function& f, const Loop* l, const BasicBlock* start, std::vector<St> entry, Out& exits, std::vector<St>& back,
                 std::vector<St>& rets);
  void EnterBlock(St& st, const BasicBlock* from, const BasicBlock* to);
  St JoinPair(const St& a, const St& b, bool widen, bool* same);
  std::vector<Lin*> Positions(St& st);
};

// Prepares entries: everything inlined except block kernels, simplified.
struct Prepared {
  std::unique_ptr<Module> m;
  std::map<std::string, KernelSig> kernels;
  std::string err;
};
Prepared PrepareEntries(Module& m, const std::vector<std::string>& entries, bool opaque_blocks = true);

}  // namespace vp
