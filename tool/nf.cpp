// nf: compare pairs of functions by canonical form after whole-program partial evaluation.
//
//   libo-sa nf MODULE.bc PAIRS.txt OPAQUE.txt OUT.json
//
// PAIRS: one "H_name R_name" per line.  Every H/R body is optimised by LLVM with the whole program
// inlined into it (constant tags propagated, dead switch arms removed, byte-swap idioms recognised),
// then both are serialised into a canonical effect/value form and compared.
#include "common.h"
#include <chrono>
#include "llvm/IR/PatternMatch.h"
#include "llvm/IR/ConstantRange.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Analysis/MemorySSA.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Transforms/Utils/LoopPeel.h"
#include "llvm/Transforms/Utils/LoopUtils.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/ADT/PostOrderIterator.h"
#include <cstring>
#include <fstream>
#include <sstream>

namespace {
struct Env;
struct Interner {
  std::map<std::string, int> M;
  std::vector<std::string> rev;
  std::map<int, size_t> width;
  struct Lin { std::map<int, uint64_t> t; uint64_t k = 0; };
  std::map<int, Lin> lin; // sums: value id -> linear form modulo 2^width
  int operator()(const std::string &s) {
    auto it = M.find(s);
    if (it != M.end()) return it->second;
    int id = (int)M.size();
    M[s] = id;
    rev.push_back(s);
    return id;
  }
};

// decided predicates: finite relations between two values, intervals against constants, single bits
struct Env {
  struct Split {
    int kind; // 0 bool, 1 relation, 2 interval
    std::string key;
    int id;
    unsigned mask;
    std::vector<std::pair<uint64_t, uint64_t>> yes, no;
  };
  std::map<std::string, unsigned> rel;
  std::map<int, bool> b;
  std::map<int, std::vector<std::pair<uint64_t, uint64_t>>> iv;
  bool boolean(int id) {
    auto it = b.find(id);
    if (it != b.end()) return it->second;
    throw Split{0, "", id, 0, {}, {}};
  }
  unsigned mask(const std::string &k, unsigned full) {
    auto it = rel.find(k);
    return it == rel.end() ? full : it->second;
  }
  bool relation(const std::string &k, unsigned m, unsigned full) {
    unsigned c = mask(k, full);
    if (!(c & ~m)) return true;
    if (!(c & m)) return false;
    throw Split{1, k, 0, m, {}, {}};
  }
  typedef std::vector<std::pair<uint64_t, uint64_t>> Iv; // closed, sorted, disjoint
  static Iv meet(const Iv &x, const Iv &y) {
    Iv r;
    for (auto &a : x)
      for (auto &c : y) {
        uint64_t lo = std::max(a.first, c.first), hi = std::min(a.second, c.second);
        if (lo <= hi) r.push_back({lo, hi});
      }
    std::sort(r.begin(), r.end());
    return r;
  }
  bool interval(int v, unsigned w, CmpInst::Predicate P, const APInt &c) {
    uint64_t max = w == 64 ? ~0ull : (1ull << w) - 1;
    auto toIv = [&](CmpInst::Predicate Q) {
      ConstantRange CR = ConstantRange::makeExactICmpRegion(Q, c);
      Iv r;
      if (CR.isEmptySet()) return r;
      if (CR.isFullSet()) { r.push_back({0, max}); return r; }
      uint64_t lo = CR.getLower().getZExtValue(), hi = CR.getUpper().getZExtValue();
      if (lo < hi) r.push_back({lo, hi - 1});
      else {
        if (hi) r.push_back({0, hi - 1});
        r.push_back({lo, max});
      }
      return r;
    };
    Iv cur = iv.count(v) ? iv[v] : Iv{{0, max}};
    Iv y = meet(cur, toIv(P)), n = meet(cur, toIv(CmpInst::getInversePredicate(P)));
    if (n.empty()) return true;
    if (y.empty()) return false;
    throw Split{2, "", v, 0, y, n};
  }
  Env with(const Split &s, bool yes, unsigned full = 15) const {
    Env e = *this;
    if (s.kind == 0) e.b[s.id] = yes;
    else if (s.kind == 1) {
      unsigned c = e.rel.count(s.key) ? e.rel[s.key] : (s.key[0] == 'F' ? 15 : 7);
      e.rel[s.key] = yes ? (c & s.mask) : (c & ~s.mask);
    } else e.iv[s.id] = yes ? s.yes : s.no;
    return e;
  }
};

struct Canon {
  Function &F;
  const DataLayout &DL;
  Interner &IN;
  MemorySSA &MSSA;
  AAResults &AA;
  DenseMap<const Value *, int> memo;
  DenseMap<const BasicBlock *, int> bnum;
  std::vector<BasicBlock *> order;
  DenseMap<const AllocaInst *, int> allocas;
  std::map<const Instruction *, std::string> effVer; // version name each effect defines
  int ngroup = 0;
  int nload = 0;
  std::vector<std::string> out;

  // trace-partitioned mode: one control-flow path, chosen by the environment of decided predicates
  struct Env *env = nullptr;
  DenseMap<const BasicBlock *, const BasicBlock *> from;

  Canon(Function &F, Interner &IN, MemorySSA &MSSA, AAResults &AA)
      : F(F), DL(F.getParent()->getDataLayout()), IN(IN), MSSA(MSSA), AA(AA) {}

  static std::string ty(Type *T) {
    std::string s;
    raw_string_ostream os(s);
    if (T->isPointerTy()) return "p";
    T->print(os);
    return s;
  }

  // ---- values are identified by interned canonical strings; integers are canonicalised bit by bit ----
  typedef std::vector<int> Bits;
  DenseMap<const Value *, Bits> bmemo;

  int id(const Value *V) {
    auto it = memo.find(V);
    if (it != memo.end()) return it->second;
    int r;
    if (bitable(V)) r = pack(bits(V), V->getType());
    else r = IN(expr(V));
    memo[V] = r;
    return r;
  }
  bool bitTy(Type *T) { return T->isIntegerTy() ? T->getIntegerBitWidth() <= 128 : (T->isFloatTy() || T->isDoubleTy() || T->isPointerTy()); }
  unsigned width(Type *T) { return (unsigned)DL.getTypeSizeInBits(T).getFixedValue(); }
  // instructions whose result is described bit by bit
  bool bitable(const Value *V) {
    if (!bitTy(V->getType())) return false;
    if (isa<ConstantInt>(V)) return true;
    auto *I = dyn_cast<Instruction>(V);
    if (!I) return false;
    if (I->getOpcode() == Instruction::Sub) return true;
    if (env) {
      switch (I->getOpcode()) {
      case Instruction::ICmp: case Instruction::FCmp: case Instruction::PHI: case Instruction::Select:
      case Instruction::FNeg: case Instruction::FMul: case Instruction::FSub:
        return true;
      case Instruction::Call:
        if (auto *II = dyn_cast<IntrinsicInst>(I))
          switch (II->getIntrinsicID()) {
          case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:
          case Intrinsic::abs: case Intrinsic::usub_sat: case Intrinsic::fabs:
            return true;
          default: break;
          }
        break;
      case Instruction::ExtractValue:
        if (auto *W = dyn_cast<WithOverflowInst>(cast<ExtractValueInst>(I)->getAggregateOperand()))
          if (W->getBinaryOp() == Instruction::Add && !W->isSigned()) return true;
        break;
      default: break;
      }
    }
    switch (I->getOpcode()) {
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      return isa<ConstantInt>(I->getOperand(1));
    case Instruction::Mul:
      return isa<ConstantInt>(I->getOperand(1)) && width(I->getType()) <= 64;
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Add:
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
    case Instruction::Freeze:
      return bitTy(I->getOperand(0)->getType());
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
      return bitTy(I->getOperand(0)->getType()) && width(I->getOperand(0)->getType()) == width(I->getType());
    case Instruction::Load:
      return !cast<LoadInst>(I)->isVolatile() && width(I->getType()) % 8 == 0;
    case Instruction::Call:
      if (auto *II = dyn_cast<IntrinsicInst>(I)) {
        if (II->getIntrinsicID() == Intrinsic::bswap || II->getIntrinsicID() == Intrinsic::bitreverse) return true;
        if (II->getIntrinsicID() == Intrinsic::fshl || II->getIntrinsicID() == Intrinsic::fshr) return isa<ConstantInt>(II->getArgOperand(2));
      }
      return false;
    }
    return false;
  }
  int bit0() { return IN("0"); }
  int bit1() { return IN("1"); }
  int bitNot(int b) {
    const std::string &s = IN.rev[b];
    if (s == "0") return bit1();
    if (s == "1") return bit0();
    if (s[0] == '~') return IN(s.substr(1));
    return IN("~" + s);
  }
  int bitOp(const char *op, int a, int b) {
    int z = bit0(), o = bit1();
    if (a > b) std::swap(a, b);
    switch (op[0]) {
    case 'a': if (a == z || b == z) return z; if (a == o) return b; if (b == o) return a; if (a == b) return a; break;
    case 'o': if (a == o || b == o) return o; if (a == z) return b; if (b == z) return a; if (a == b) return a; break;
    case 'x': if (a == z) return b; if (b == z) return a; if (a == o) return bitNot(b); if (b == o) return bitNot(a); if (a == b) return z; break;
    }
    return IN(std::string("{") + op + "," + std::to_string(a) + "," + std::to_string(b) + "}");
  }
  Bits opaqueBits(int vid, unsigned w) {
    Bits r;
    for (unsigned i = 0; i < w; i++) r.push_back(w == 1 ? vid : IN("b" + std::to_string(vid) + "." + std::to_string(i)));
    return r;
  }
  Bits bits(const Value *V) {
    auto it = bmemo.find(V);
    if (it != bmemo.end()) return it->second;
    Bits r = bits1(V);
    bmemo[V] = r;
    return r;
  }
  std::string strip(const std::string &s, const char *p) { return s.substr(strlen(p)); }
  Bits bits1(const Value *V) {
    unsigned w = width(V->getType());
    if (auto *CI = dyn_cast<ConstantInt>(V)) {
      Bits r;
      for (unsigned i = 0; i < w; i++) r.push_back(CI->getValue()[i] ? bit1() : bit0());
      return r;
    }
    if (auto *CF = dyn_cast<ConstantFP>(V)) {
      APInt a = CF->getValueAPF().bitcastToAPInt();
      Bits r;
      for (unsigned i = 0; i < w; i++) r.push_back(a[i] ? bit1() : bit0());
      return r;
    }
    if (isa<ConstantPointerNull>(V)) return Bits(w, bit0());
    if (!bitable(V)) return opaqueBits(id(V), w);
    auto *I = cast<Instruction>(V);
    if (env) {
      switch (I->getOpcode()) {
      case Instruction::PHI:
        return bits(incoming(cast<PHINode>(I)));
      case Instruction::Select:
        return bits(decide(I->getOperand(0)) ? I->getOperand(1) : I->getOperand(2));
      case Instruction::ICmp: case Instruction::FCmp:
        return Bits(1, decideCmp(cast<CmpInst>(I)) ? bit1() : bit0());
      case Instruction::And: case Instruction::Or:
        if (w == 1) {
          bool isAnd = I->getOpcode() == Instruction::And;
          Bits a = bits(I->getOperand(0));
          if (a[0] == (isAnd ? bit0() : bit1())) return a;
          if (a[0] == (isAnd ? bit1() : bit0())) return bits(I->getOperand(1));
        }
        break;
      case Instruction::Sub:
        return subBits(bits(I->getOperand(0)), bits(I->getOperand(1)));
      case Instruction::FNeg: {
        Bits a = bits(I->getOperand(0));
        a[w - 1] = bitNot(a[w - 1]);
        return a;
      }
      case Instruction::FMul: case Instruction::FSub: { // exact identities: x * 1, x * -1, x - 0
        if (w != 64 && w != 32) return opaqueBits(IN(expr(V)), w);
        Bits a = bits(I->getOperand(0)), b = bits(I->getOperand(1));
        APInt ca, cb;
        bool ka = isConst(a, ca), kb = isConst(b, cb);
        auto val = [&](const APInt &x) { return APFloat(w == 64 ? APFloat::IEEEdouble() : APFloat::IEEEsingle(), x); };
        if (I->getOpcode() == Instruction::FSub) {
          if (kb && cb.isZero()) return a;
        } else {
          for (int k = 0; k < 2; k++) {
            if (kb && val(cb).isExactlyValue(1.0)) return a;
            if (kb && val(cb).isExactlyValue(-1.0)) {
              a[w - 1] = bitNot(a[w - 1]);
              return a;
            }
            std::swap(a, b);
            std::swap(ca, cb);
            std::swap(ka, kb);
          }
        }
        return opaqueBits(IN(expr(V)), w);
      }
      case Instruction::ExtractValue: {
        auto *EV = cast<ExtractValueInst>(I);
        auto *W = cast<WithOverflowInst>(EV->getAggregateOperand());
        Bits sum = addBits(bits(W->getLHS()), bits(W->getRHS()));
        if (EV->getIndices()[0] == 0) return sum;
        return Bits(1, relation(CmpInst::ICMP_ULT, sum, bits(W->getLHS())) ? bit1() : bit0());
      }
      case Instruction::Call:
        if (auto *II = dyn_cast<IntrinsicInst>(I)) {
          const Value *a = II->arg_size() ? II->getArgOperand(0) : nullptr, *b = II->arg_size() > 1 ? II->getArgOperand(1) : nullptr;
          switch (II->getIntrinsicID()) {
          case Intrinsic::umin: return bits(relation(CmpInst::ICMP_ULT, bits(a), bits(b)) ? a : b);
          case Intrinsic::umax: return bits(relation(CmpInst::ICMP_UGT, bits(a), bits(b)) ? a : b);
          case Intrinsic::smin: return bits(relation(CmpInst::ICMP_SLT, bits(a), bits(b)) ? a : b);
          case Intrinsic::smax: return bits(relation(CmpInst::ICMP_SGT, bits(a), bits(b)) ? a : b);
          case Intrinsic::abs: {
            Bits x = bits(a), z(w, bit0());
            return relation(CmpInst::ICMP_SLT, x, z) ? subBits(z, x) : x;
          }
          case Intrinsic::fabs: {
            Bits x = bits(a);
            x[w - 1] = bit0();
            return x;
          }
          case Intrinsic::usub_sat:
            if (relation(CmpInst::ICMP_ULT, bits(a), bits(b))) return Bits(w, bit0());
            return subBits(bits(a), bits(b));
          default: break;
          }
        }
        break;
      default: break;
      }
    }
    switch (I->getOpcode()) {
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      Bits a = bits(I->getOperand(0)), r(w);
      uint64_t k = cast<ConstantInt>(I->getOperand(1))->getZExtValue();
      for (unsigned i = 0; i < w; i++) {
        if (I->getOpcode() == Instruction::Shl) r[i] = i >= k ? a[i - k] : bit0();
        else r[i] = i + k < w ? a[i + k] : (I->getOpcode() == Instruction::AShr ? a[w - 1] : bit0());
      }
      return r;
    }
    case Instruction::And: case Instruction::Or: case Instruction::Xor: {
      if (auto *CI = dyn_cast<ConstantInt>(I->getOperand(1)))
        if (I->getOpcode() == Instruction::And && CI->getValue().isMask() && !CI->isMinusOne()) { // the low bits of a sum
          Bits a = low(I->getOperand(0), CI->getValue().countr_one());
          a.resize(w, bit0());
          return a;
        }
      Bits a = bits(I->getOperand(0)), b = bits(I->getOperand(1)), r(w);
      const char *op = I->getOpcode() == Instruction::And ? "and" : I->getOpcode() == Instruction::Or ? "or" : "xor";
      for (unsigned i = 0; i < w; i++) r[i] = bitOp(op, a[i], b[i]);
      return r;
    }
    case Instruction::Sub: return subBits(bits(I->getOperand(0)), bits(I->getOperand(1)));
    case Instruction::Mul: return linear(bits(I->getOperand(0)), cast<ConstantInt>(I->getOperand(1))->getZExtValue(), bits(I->getOperand(0)), 0, 0);
    case Instruction::Add: return addBits(bits(I->getOperand(0)), bits(I->getOperand(1)));
    case Instruction::Trunc: return low(I->getOperand(0), w);
    case Instruction::ZExt: case Instruction::SExt: {
      Bits a = bits(I->getOperand(0));
      int f = I->getOpcode() == Instruction::ZExt ? bit0() : a.back();
      a.resize(w, f);
      return a;
    }
    case Instruction::Freeze: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: {
      const Value *o = I->getOperand(0);
      return bits(o);
    }
    case Instruction::Load: {
      auto A = addr(I->getOperand(0));
      if (env) return loaded(I, A, w);
      std::string mv = memver(I);
      Bits r;
      for (unsigned k = 0; k < w / 8; k++) {
        int b = IN("mem(" + A.first + "+" + std::to_string(A.second + (int64_t)k) + "," + mv + ")");
        Bits x = opaqueBits(b, 8);
        r.insert(r.end(), x.begin(), x.end());
      }
      return r;
    }
    case Instruction::Call: {
      auto *II = cast<IntrinsicInst>(I);
      Bits a = bits(II->getArgOperand(0)), r(w);
      switch (II->getIntrinsicID()) {
      case Intrinsic::bswap:
        for (unsigned i = 0; i < w; i++) r[i] = a[(w / 8 - 1 - i / 8) * 8 + i % 8];
        return r;
      case Intrinsic::bitreverse:
        for (unsigned i = 0; i < w; i++) r[i] = a[w - 1 - i];
        return r;
      default: {
        Bits b = bits(II->getArgOperand(1));
        uint64_t k = cast<ConstantInt>(II->getArgOperand(2))->getZExtValue() % w;
        Bits c = b;
        c.insert(c.end(), a.begin(), a.end()); // a:b, b low
        unsigned sh = II->getIntrinsicID() == Intrinsic::fshl ? (unsigned)(w - k) : (unsigned)k;
        for (unsigned i = 0; i < w; i++) r[i] = c[(sh + i) % (2 * w)];
        return r;
      }
      }
    }
    }
    return opaqueBits(IN(expr(V)), w);
  }
  // sum: known low bits are added here, the rest is one opaque sum of the upper slices
  Bits addBits(Bits a, Bits b) {
    unsigned n = a.size(), i = 0;
    int carry = 0;
    Bits r;
    auto val = [&](int x) { return x == bit0() ? 0 : x == bit1() ? 1 : -1; };
    for (; i < n; i++) {
      int x = val(a[i]), y = val(b[i]);
      if (x >= 0 && y >= 0) {
        r.push_back((x + y + carry) & 1 ? bit1() : bit0());
        carry = (x + y + carry) >> 1;
      } else if (!carry && (x == 0 || y == 0))
        r.push_back(x == 0 ? b[i] : a[i]);
      else
        break;
    }
    if (i == n) return r;
    unsigned top = n; // bits at and above `top` are known zero in both, the sum needs one more
    while (top > i && val(a[top - 1]) == 0 && val(b[top - 1]) == 0) top--;
    if (top + 1 < n) {
      a.resize(top + 1);
      b.resize(top + 1);
    }
    unsigned full = n;
    n = a.size();
    Bits ua(a.begin() + i, a.end()), ub(b.begin() + i, b.end());
    Bits u = linear(ua, 1, ub, 1, carry);
    r.insert(r.end(), u.begin(), u.end());
    r.resize(full, bit0());
    return r;
  }
  Interner::Lin linOf(const Bits &b) {
    Interner::Lin L;
    bool cst = true, neg = true;
    uint64_t k = 0;
    Bits n;
    for (unsigned i = 0; i < b.size(); i++) {
      const std::string &s = IN.rev[b[i]];
      if (s == "1" && i < 64) k |= 1ull << i;
      if (s != "0" && s != "1") cst = false;
      if (s[0] != '~') neg = false;
    }
    if (cst) { L.k = k; return L; }
    if (neg) { // ~x = -x - 1
      for (int x : b) n.push_back(IN(IN.rev[x].substr(1)));
      Interner::Lin M = linOf(n);
      for (auto &t : M.t) L.t[t.first] = 0 - t.second;
      L.k = 0 - M.k - 1;
      return L;
    }
    int p = packN(b);
    auto it = IN.lin.find(p);
    if (it != IN.lin.end()) return it->second;
    unsigned sh = 0; // a whole value moved up is a multiple of it
    while (sh < b.size() && b[sh] == bit0()) sh++;
    if (sh && b.size() - sh > 1 && b.size() <= 64) {
      const std::string &s = IN.rev[b[sh]];
      if (s[0] == 'b' && s.size() > 2 && s.compare(s.size() - 2, 2, ".0") == 0) {
        int src = std::stoi(s.substr(1));
        bool all = true;
        for (unsigned i = sh; i < b.size() && all; i++) all = IN.rev[b[i]] == "b" + std::to_string(src) + "." + std::to_string(i - sh);
        auto wd = IN.width.find(src);
        if (all && wd != IN.width.end() && wd->second == b.size()) {
          auto jt = IN.lin.find(src);
          if (jt != IN.lin.end()) L = jt->second;
          else L.t[src] = 1;
          for (auto &t : L.t) t.second <<= sh;
          L.k <<= sh;
          return L;
        }
      }
    }
    L.t[p] = 1;
    return L;
  }
  // terms of one common factor whose bits do not meet are one term
  bool mergeTerms(Interner::Lin &L, unsigned n) {
    uint64_t m = n >= 64 ? ~0ull : (1ull << n) - 1;
    for (auto x = L.t.begin(); x != L.t.end(); ++x)
      for (auto y = L.t.begin(); y != L.t.end(); ++y) {
        if (x == y) continue;
        unsigned kx = countr_zero(x->second), ky = countr_zero(y->second);
        if (!kx || ky) continue; // y carries the factor itself, x a multiple
        if (((y->second << kx) & m) != x->second) continue;
        Bits bx = unpack(x->first, n), by = unpack(y->first, n);
        bool apart = true;
        for (unsigned i = kx; i < n && apart; i++) {
          if (bx[i - kx] == bit0()) continue;
          if (by[i] != bit0()) apart = false;
          else by[i] = bx[i - kx];
        }
        if (!apart) continue;
        uint64_t c = y->second;
        L.t.erase(x);
        L.t.erase(y);
        L.t[packN(by)] += c;
        return true;
      }
    return false;
  }
  // ca*a + cb*b + k modulo 2^n, as one canonical sum of terms
  Bits linear(const Bits &a, uint64_t ca, const Bits &b, uint64_t cb, uint64_t k) {
    unsigned n = a.size();
    uint64_t m = n >= 64 ? ~0ull : (1ull << n) - 1;
    Interner::Lin L;
    if (n > 64) { // too wide for the linear domain
      int p = packN(a), q = packN(b);
      if (p > q && ca == cb) std::swap(p, q);
      int v = IN("sum" + std::to_string(n) + "," + std::to_string(p) + "*" + std::to_string(ca) + "," + std::to_string(q) + "*" + std::to_string(cb) + "," + std::to_string(k));
      IN.width[v] = n;
      return opaqueBits(v, n);
    }
    L.k = k;
    for (int j = 0; j < 2; j++) {
      Interner::Lin M = linOf(j ? b : a);
      uint64_t c = j ? cb : ca;
      for (auto &t : M.t) L.t[t.first] += c * t.second;
      L.k += c * M.k;
    }
    L.k &= m;
    for (auto it = L.t.begin(); it != L.t.end();) {
      it->second &= m;
      if (!it->second) it = L.t.erase(it);
      else ++it;
    }
    while (L.t.size() > 1 && L.t.size() < 6 && mergeTerms(L, n)) {}
    if (L.t.empty()) {
      Bits r;
      for (unsigned i = 0; i < n; i++) r.push_back((L.k >> i) & 1 ? bit1() : bit0());
      return r;
    }
    if (L.t.size() == 1 && L.k == 0 && isPowerOf2_64(L.t.begin()->second)) {
      Bits r = unpack(L.t.begin()->first, n), z(countr_zero(L.t.begin()->second), bit0());
      z.insert(z.end(), r.begin(), r.end() - z.size());
      return z;
    }
    std::string s = "lin" + std::to_string(n) + ":";
    for (auto &t : L.t) s += std::to_string(t.first) + "*" + std::to_string(t.second) + ",";
    s += std::to_string(L.k);
    int v = IN(s);
    IN.width[v] = n;
    IN.lin[v] = L;
    return opaqueBits(v, n);
  }
  // the bits a packed id was made from
  Bits unpack(int p, unsigned n) {
    const std::string &s = IN.rev[p];
    if (s.compare(0, 2, "bv") == 0) {
      size_t c = s.find(':');
      Bits r;
      size_t i = c + 1;
      while (i < s.size()) {
        size_t d = s.find('.', i);
        r.push_back(std::stoi(s.substr(i, d - i)));
        i = d + 1;
      }
      if (r.size() == n) return r;
    }
    return opaqueBits(p, n);
  }
  // low n bits of V; additions, subtractions and products narrow exactly
  Bits low(const Value *V, unsigned n) {
    if (auto *I = dyn_cast<BinaryOperator>(V))
      if (width(V->getType()) > n &&
          (I->getOpcode() == Instruction::Add || I->getOpcode() == Instruction::Sub || I->getOpcode() == Instruction::Mul)) {
        if (I->getOpcode() == Instruction::Add) return addBits(low(I->getOperand(0), n), low(I->getOperand(1), n));
        if (I->getOpcode() == Instruction::Sub) return linear(low(I->getOperand(0), n), 1, low(I->getOperand(1), n), ~0ull, 0);
        int a = packN(low(I->getOperand(0), n)), b = packN(low(I->getOperand(1), n));
        if (I->isCommutative() && a > b) std::swap(a, b);
        return opaqueBits(IN(std::string(I->getOpcodeName()) + "i" + std::to_string(n) + "," + std::to_string(a) + "," + std::to_string(b)), n);
      }
    Bits a = bits(V);
    a.resize(n);
    return a;
  }
  int packN(const Bits &b) { return packS(b, ""); }
  int pack(const Bits &b, Type *T) { return packS(b, T->isFloatTy() ? "f" : T->isDoubleTy() ? "d" : ""); }
  int packS(const Bits &b, const std::string &kind) {
    // identity of a whole value?
    const std::string &s0 = IN.rev[b[0]];
    if (b.size() == 1) return b[0];
    if (s0[0] == 'b' && s0.find('.') != std::string::npos) {
      int src = std::stoi(s0.substr(1));
      bool all = true;
      for (unsigned i = 0; i < b.size() && all; i++) all = IN.rev[b[i]] == "b" + std::to_string(src) + "." + std::to_string(i);
      if (all) {
        auto it = IN.width.find(src);
        if (it != IN.width.end() && it->second == b.size()) return src;
      }
    }
    std::string s = "bv" + kind + std::to_string(b.size()) + ":";
    bool cst = true;
    for (int x : b) {
      const std::string &t = IN.rev[x];
      if (t != "0" && t != "1") cst = false;
    }
    if (cst) {
      s = "c" + kind + std::to_string(b.size()) + ":";
      for (int x : b) s += IN.rev[x];
      return IN(s);
    }
    for (int x : b) s += std::to_string(x) + ".";
    return IN(s);
  }

  // address = (base and variable parts, constant byte offset)
  std::pair<std::string, int64_t> addr(const Value *P) {
    APInt off(64, 0);
    MapVector<Value *, APInt> var;
    const Value *base = P;
    while (auto *G2 = dyn_cast<GEPOperator>(base)) {
      MapVector<Value *, APInt> v2;
      APInt o2(64, 0);
      if (!G2->collectOffset(DL, 64, v2, o2)) break;
      off += o2;
      for (auto &kv : v2) {
        auto it = var.find(kv.first);
        if (it == var.end()) var.insert({kv.first, kv.second});
        else it->second += kv.second;
      }
      base = G2->getPointerOperand();
    }
    std::vector<std::string> parts;
    for (auto &kv : var) {
      SmallString<20> t;
      kv.second.toString(t, 10, true);
      parts.push_back(std::to_string(id(kv.first)) + "*" + t.str().str());
    }
    std::sort(parts.begin(), parts.end());
    std::string s = std::to_string(id(base));
    for (auto &p : parts) s += "," + p;
    return {s, off.getSExtValue()};
  }

  std::string constStr(const Constant *C) {
    std::string s;
    raw_string_ostream os(s);
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      os << "c" << CI->getBitWidth() << ":" << CI->getValue();
      return s;
    }
    if (auto *CF = dyn_cast<ConstantFP>(C)) {
      SmallString<40> t;
      CF->getValueAPF().bitcastToAPInt().toString(t, 16, false);
      return "cf" + ty(C->getType()) + ":" + t.str().str();
    }
    if (isa<ConstantPointerNull>(C)) return "null";
    if (isa<UndefValue>(C)) return "undef";
    if (auto *GV = dyn_cast<GlobalVariable>(C)) {
      if (GV->hasInitializer() && GV->isConstant() && GV->hasPrivateLinkage()) {
        if (auto *CD = dyn_cast<ConstantDataSequential>(GV->getInitializer()))
          return "str:" + CD->getRawDataValues().str();
        if (isa<ConstantAggregateZero>(GV->getInitializer())) return "strz";
      }
      return "@" + GV->getName().str();
    }
    if (auto *Fn = dyn_cast<Function>(C)) return "@" + Fn->getName().str();
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      if (CE->getOpcode() == Instruction::GetElementPtr) return gep(cast<GEPOperator>(CE));
      os << "ce" << CE->getOpcode();
      for (auto &O : CE->operands()) os << "," << id(O);
      return s;
    }
    C->print(os);
    return s;
  }

  std::string gep(const GEPOperator *G) {
    auto A = addr(G);
    if (A.second == 0 && A.first.find(',') == std::string::npos) return "copy" + A.first;
    return "gep(" + A.first + "," + std::to_string(A.second) + ")";
  }

  std::string memver(const Instruction *I) {
    if (env) {
      return defVer(clobber(I));
    }
    MemoryAccess *MA = MSSA.getMemoryAccess(const_cast<Instruction *>(I));
    if (!MA) return "m?";
    MemoryAccess *C = MSSA.getWalker()->getClobberingMemoryAccess(MA);
    if (MSSA.isLiveOnEntryDef(C)) return "m0";
    if (auto *P = dyn_cast<MemoryPhi>(C)) return "mphi" + std::to_string(bnum.lookup(P->getBlock()));
    auto *D = cast<MemoryDef>(C);
    auto it = effVer.find(D->getMemoryInst());
    if (it == effVer.end()) return "mB" + std::to_string(bnum.lookup(D->getBlock()));
    return "m#" + it->second;
  }

  // the identity of a value an effect shows, given what the path has decided about its bits
  int shown(const Value *V) {
    if (!env || !bitTy(V->getType()) || V->getType()->isPointerTy() || isa<Constant>(V)) return id(V);
    Bits b = bits(V);
    bool any = false;
    for (int &x : b) any |= known(x);
    return any ? pack(b, V->getType()) : id(V);
  }
  bool known(int &x) {
    std::string t = IN.rev[x];
    bool neg = t[0] == '~';
    if (neg) t = t.substr(1);
    auto it = env->b.find(neg ? IN(t) : x);
    if (it != env->b.end()) {
      x = it->second != neg ? bit1() : bit0();
      return true;
    }
    size_t d = t.find('.');
    if (t[0] != 'b' || d == std::string::npos || t.find_first_not_of("0123456789.", 1) != std::string::npos) return false;
    auto iv = env->iv.find(std::stoi(t.substr(1)));
    if (iv == env->iv.end() || iv->second.empty()) return false;
    unsigned i = std::stoi(t.substr(d + 1));
    uint64_t v = iv->second[0].first >> i;
    for (auto &r : iv->second)
      if (r.first >> i != r.second >> i || ((r.first >> i) & 1) != (v & 1)) return false;
    x = (v & 1) != neg ? bit1() : bit0();
    return true;
  }
  std::string callStr(const CallBase *CB, bool effect = false) {
    std::string s = "call(";
    const Value *callee = CB->getCalledOperand();
    if (auto *Fn = dyn_cast<Function>(callee)) s += Fn->getName().str();
    else s += "*" + std::to_string(id(callee));
    unsigned n = CB->arg_size();
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
      if (isa<MemIntrinsic>(II)) n = 3;
    }
    std::vector<int> a;
    for (unsigned i = 0; i < n; i++) a.push_back(effect ? shown(CB->getArgOperand(i)) : id(CB->getArgOperand(i)));
    if (auto *II = dyn_cast<IntrinsicInst>(CB))
      if (II->isCommutative() && a.size() >= 2 && a[0] > a[1]) std::swap(a[0], a[1]);
    for (int x : a) s += "," + std::to_string(x);
    return s + ")";
  }

  // pure value (or read of memory)
  std::string expr(const Value *V) {
    std::string s = expr1(V);
    if (bitTy(V->getType())) IN.width[IN(s)] = width(V->getType());
    return s;
  }
  std::string expr1(const Value *V) {
    if (auto *A = dyn_cast<Argument>(V)) return "arg" + std::to_string(A->getArgNo());
    if (auto *C = dyn_cast<Constant>(V)) return constStr(C);
    auto *I = dyn_cast<Instruction>(V);
    if (!I) return "?";
    if (auto *AI = dyn_cast<AllocaInst>(I)) {
      auto it = allocas.find(AI);
      int n;
      if (it == allocas.end()) {
        n = (int)allocas.size();
        allocas[AI] = n;
      } else
        n = it->second;
      std::string sz = "?";
      if (auto S = AI->getAllocationSize(DL)) sz = std::to_string(S->getFixedValue());
      else sz = ty(AI->getAllocatedType()) + "x" + std::to_string(id(AI->getArraySize()));
      return "alloca" + std::to_string(n) + ":" + sz;
    }
    if (env && (isa<PHINode>(I) || isa<SelectInst>(I))) { // aggregates and vectors
      if (auto *P = dyn_cast<PHINode>(I)) return IN.rev[id(incoming(P))];
      if (!I->getOperand(0)->getType()->isVectorTy()) return IN.rev[id(I->getOperand(decide(I->getOperand(0)) ? 1 : 2))];
    }
    if (auto *P = dyn_cast<PHINode>(I)) {
      int k = 0;
      for (auto &Q : P->getParent()->phis()) {
        if (&Q == P) break;
        k++;
      }
      return "phi@" + std::to_string(bnum.lookup(P->getParent())) + "#" + std::to_string(k);
    }
    if (auto *L = dyn_cast<LoadInst>(I)) {
      if (L->isVolatile()) return "vload" + std::to_string(nload++) ;
      return "load" + ty(L->getType()) + "(" + std::to_string(id(L->getPointerOperand())) + "," + memver(L) + ")";
    }
    if (auto *G = dyn_cast<GEPOperator>(I)) {
      std::string s = gep(G);
      if (s.compare(0, 4, "copy") == 0) {
        return IN.rev[std::stoi(s.substr(4))];
      }
      return s;
    }
    if (auto *CB = dyn_cast<CallBase>(I)) {
      if (!isEffect(I)) {
        if (CB->doesNotAccessMemory()) return callStr(CB);
        return callStr(CB) + memver(CB);
      }
      return "res#" + effVer[I];
    }
    if (auto *FR = dyn_cast<FreezeInst>(I)) return IN.rev[id(FR->getOperand(0))];
    std::string s = std::string(I->getOpcodeName()) + ty(I->getType());
    std::vector<int> a;
    for (auto &O : I->operands()) a.push_back(id(O));
    if (auto *IC = dyn_cast<CmpInst>(I)) {
      auto P = IC->getPredicate();
      if (a.size() == 2 && a[0] > a[1] ) {
        std::swap(a[0], a[1]);
        P = CmpInst::getSwappedPredicate(P);
      }
      s += CmpInst::getPredicateName(P).str();
    } else if (I->isCommutative() && a.size() == 2 && a[0] > a[1])
      std::swap(a[0], a[1]);
    if (auto *EV = dyn_cast<ExtractValueInst>(I))
      for (unsigned x : EV->indices()) s += "." + std::to_string(x);
    if (auto *IV = dyn_cast<InsertValueInst>(I))
      for (unsigned x : IV->indices()) s += "." + std::to_string(x);
    if (I->getOpcode() == Instruction::BitCast && I->getType() == I->getOperand(0)->getType())
      return IN.rev[a[0]];
    for (int x : a) s += "," + std::to_string(x);
    return s;
  }

  static bool ignorable(const Instruction &I) {
    if (isa<DbgInfoIntrinsic>(I)) return true;
    if (auto *II = dyn_cast<IntrinsicInst>(&I))
      switch (II->getIntrinsicID()) {
      case Intrinsic::lifetime_start:
      case Intrinsic::lifetime_end:
      case Intrinsic::assume:
      case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::stacksave:
      case Intrinsic::stackrestore:
        return true;
      default:
        break;
      }
    return false;
  }

  bool isEffect(const Instruction *I) {
    if (isa<StoreInst>(I)) return true;
    if (auto *CB = dyn_cast<CallBase>(I)) {
      if (ignorable(*I)) return false;
      return !CB->onlyReadsMemory() || !CB->willReturn();
    }
    return isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I) || isa<FenceInst>(I);
  }

  std::string effStr(const Instruction *I) {
    if (auto *S = dyn_cast<StoreInst>(I))
      return "store" + std::to_string(DL.getTypeStoreSize(S->getValueOperand()->getType())) + "(" +
             std::to_string(id(S->getPointerOperand())) + "<-" + std::to_string(id(S->getValueOperand())) + ")";
    if (auto *CB = dyn_cast<CallBase>(I)) return callStr(CB, true);
    return "effect?";
  }

  bool commute(const Instruction *A, const Instruction *B) {
    auto *S1 = dyn_cast<StoreInst>(A), *S2 = dyn_cast<StoreInst>(B);
    if (!S1 || !S2 || S1->isVolatile() || S2->isVolatile()) return false;
    return AA.isNoAlias(MemoryLocation::get(S1), MemoryLocation::get(S2));
  }

  void block(BasicBlock *BB) {
    out.push_back("B" + std::to_string(bnum[BB]) + ":");
    std::vector<Instruction *> effs;
    for (auto &I : *BB)
      if (isEffect(&I)) effs.push_back(&I);
    // canonical order: all stores that may be exchanged form one layer, written out byte by byte
    std::vector<bool> done(effs.size(), false);
    size_t left = effs.size();
    while (left) {
      std::vector<size_t> layer;
      for (size_t i = 0; i < effs.size(); i++) {
        if (done[i]) continue;
        bool ready = true;
        for (size_t j = 0; j < i && ready; j++)
          if (!done[j] && !commute(effs[j], effs[i])) ready = false;
        if (ready && (isa<StoreInst>(effs[i]) || layer.empty())) layer.push_back(i);
        if (!isa<StoreInst>(effs[i])) break;
      }
      int n = ngroup++;
      std::vector<std::string> items;
      for (size_t i : layer) {
        auto *S = dyn_cast<StoreInst>(effs[i]);
        if (S && !S->isVolatile() && bitTy(S->getValueOperand()->getType()) && width(S->getValueOperand()->getType()) % 8 == 0) {
          auto A = addr(S->getPointerOperand());
          Bits b = bits(S->getValueOperand());
          for (unsigned k = 0; k < b.size() / 8; k++) {
            char o[32];
            snprintf(o, sizeof o, "%020lld", (long long)(A.second + k + (1LL << 40)));
            items.push_back("st(" + A.first + "+" + o + "<-" + std::to_string(packN(Bits(b.begin() + 8 * k, b.begin() + 8 * k + 8))) + ")");
          }
        } else
          items.push_back(effStr(effs[i]));
        std::string ver = std::to_string(n);
        if (S) ver += "@" + std::to_string(id(S->getPointerOperand()));
        effVer[effs[i]] = ver;
        done[i] = true;
        left--;
      }
      std::sort(items.begin(), items.end());
      for (auto &x : items) out.push_back(x);
    }
    Instruction *T = BB->getTerminator();
    if (auto *R = dyn_cast<ReturnInst>(T)) {
      out.push_back(R->getReturnValue() ? "ret " + std::to_string(id(R->getReturnValue())) : "ret");
    } else if (auto *B = dyn_cast<BranchInst>(T)) {
      std::string s = "br";
      if (B->isConditional()) s += " " + std::to_string(condId(B).first);
      for (auto *SB : succs(BB)) s += " B" + std::to_string(bnum[SB]);
      out.push_back(s);
    } else if (auto *SW = dyn_cast<SwitchInst>(T)) {
      std::string s = "switch " + std::to_string(id(SW->getCondition())) + " d:B" +
                      std::to_string(bnum[SW->getDefaultDest()]);
      std::map<int64_t, int> cs;
      for (auto &C : SW->cases()) cs[C.getCaseValue()->getSExtValue()] = bnum[C.getCaseSuccessor()];
      for (auto &kv : cs) s += " " + std::to_string(kv.first) + ":B" + std::to_string(kv.second);
      out.push_back(s);
    } else
      out.push_back(T->getOpcodeName());
    for (auto *SB : successors(BB)) {
      int k = 0;
      for (auto &P : SB->phis()) {
        out.push_back("  phi@" + std::to_string(bnum[SB]) + "#" + std::to_string(k++) + " <-" +
                      std::to_string(id(P.getIncomingValueForBlock(BB))));
      }
    }
  }

  // canonical predicate: choose the "smaller" of P / !P and swap successors accordingly
  std::pair<int, bool> condId(BranchInst *B) {
    if (auto *IC = dyn_cast<CmpInst>(B->getCondition())) {
      int a = id(IC->getOperand(0)), b = id(IC->getOperand(1));
      auto P = IC->getPredicate();
      if (a > b) {
        std::swap(a, b);
        P = CmpInst::getSwappedPredicate(P);
      }
      auto N = CmpInst::getInversePredicate(P);
      bool sw = false;
      if (!isa<FCmpInst>(IC) && N < P) {
        P = N;
        sw = true;
      }
      return {IN("cmp" + CmpInst::getPredicateName(P).str() + "," + std::to_string(a) + "," + std::to_string(b)), sw};
    }
    return {id(B->getCondition()), false};
  }
  std::vector<BasicBlock *> succs(BasicBlock *BB) {
    std::vector<BasicBlock *> v;
    if (auto *B = dyn_cast<BranchInst>(BB->getTerminator()); B && B->isConditional()) {
      bool sw = condSwapOnly(B);
      v = {B->getSuccessor(sw ? 1 : 0), B->getSuccessor(sw ? 0 : 1)};
      return v;
    }
    for (auto *S : successors(BB)) v.push_back(S);
    return v;
  }
  DenseMap<BranchInst *, bool> swapMemo;
  bool condSwapOnly(BranchInst *B) {
    auto it = swapMemo.find(B);
    if (it != swapMemo.end()) return it->second;
    bool sw = condId(B).second;
    swapMemo[B] = sw;
    return sw;
  }

#include "nf_path.inc"

  void go() {
    // number blocks by DFS preorder; conditions are canonicalised as they are reached
    std::set<BasicBlock *> seen;
    std::function<void(BasicBlock *)> dfs = [&](BasicBlock *BB) {
      if (!seen.insert(BB).second) return;
      bnum[BB] = (int)order.size();
      order.push_back(BB);
      std::vector<BasicBlock *> v;
      if (auto *B = dyn_cast<BranchInst>(BB->getTerminator()); B && B->isConditional()) {
        // successor order by raw predicate class only (no value ids: they may depend on effects)
        bool sw = false;
        if (auto *IC = dyn_cast<ICmpInst>(B->getCondition())) {
          auto P = IC->getPredicate();
          sw = (P == CmpInst::ICMP_NE);
        }
        v = {B->getSuccessor(sw ? 1 : 0), B->getSuccessor(sw ? 0 : 1)};
      } else
        for (auto *S : successors(BB)) v.push_back(S);
      for (auto *S : v) dfs(S);
    };
    dfs(&F.getEntryBlock());
    for (auto *BB : order) block(BB);
  }
};

bool acyclic(Function &F) {
  SmallVector<std::pair<const BasicBlock *, const BasicBlock *>, 4> back;
  FindFunctionBackedges(F, back);
  return back.empty();
}

// Compare two acyclic functions over every consistent combination of their branch predicates.
struct Compare {
  Interner &IN;
  Function &H, &R;
  FunctionAnalysisManager &FAM;
  int leaves = 0;
  bool overflow = false;
  std::vector<std::string> hgot, rgot;
  std::string why;
  std::vector<std::string> run(Function &F, Env e, bool &unr) {
    auto &MS = FAM.getResult<MemorySSAAnalysis>(F).getMSSA();
    auto &AA = FAM.getResult<AAManager>(F);
    for (bool keep : {false, true}) {
      Canon cn(F, IN, MS, AA);
      cn.env = &e;
      cn.keepLocal = keep;
      try {
        return cn.outcome(unr);
      } catch (Canon::NeedLocal &) {
      }
    }
    return {"?"};
  }
  bool same(const Env &e) {
    bool hu = false, ru = false;
    std::vector<std::string> h, r;
    if (leaves > 6000) { overflow = true; return false; }
    try {
      r = run(R, e, ru);
      if (ru) { leaves++; return true; } // the reference leaves this case open
      h = run(H, e, hu);
    } catch (Env::Split &s) {
      return same(e.with(s, true)) && same(e.with(s, false));
    }
    leaves++;
    if (h == r) return true;
    hgot = h;
    rgot = r;
    return false;
  }
};

std::string dumpFn(Function &F) {
  std::string s;
  raw_string_ostream os(s);
  F.print(os);
  return s;
}
} // namespace

// A load of a local whose bytes were stored one by one (or in other widths) becomes those bytes put together.
static bool assembleLoads(Function &F, FunctionAnalysisManager &FAM) {
  auto &MS = FAM.getResult<MemorySSAAnalysis>(F).getMSSA();
  auto &AA = FAM.getResult<AAManager>(F);
  const DataLayout &DL = F.getParent()->getDataLayout();
  BatchAAResults BAA(AA);
  SmallVector<LoadInst *, 16> loads;
  for (auto &I : instructions(F))
    if (auto *L = dyn_cast<LoadInst>(&I))
      if (L->isSimple() && L->getType()->isIntegerTy() && L->getType()->getIntegerBitWidth() % 8 == 0 && L->getType()->getIntegerBitWidth() <= 64) loads.push_back(L);
  bool any = false;
  SmallVector<std::pair<LoadInst *, Value *>, 8> repl;
  for (auto *L : loads) {
    int64_t lo = 0;
    Value *base = GetPointerBaseWithConstantOffset(L->getPointerOperand(), lo, DL);
    if (!isa<AllocaInst>(base)) continue;
    unsigned n = L->getType()->getIntegerBitWidth() / 8;
    struct B { Value *v = nullptr; unsigned sh = 0; };
    SmallVector<B, 8> bytes(n);
    unsigned left = n;
    MemoryAccess *A = MS.getMemoryAccess(L)->getDefiningAccess();
    if (auto *U = dyn_cast<MemoryUseOrDef>(MS.getMemoryAccess(L))) A = U->getDefiningAccess();
    bool ok = true;
    for (int steps = 0; left && ok && steps < 400; steps++) {
      auto *D = dyn_cast<MemoryDef>(A);
      if (!D || MS.isLiveOnEntryDef(D)) { ok = false; break; }
      Instruction *I = D->getMemoryInst();
      MemoryLocation loc = MemoryLocation::get(L);
      if (auto *S = dyn_cast<StoreInst>(I)) {
        int64_t so = 0;
        Value *sb = GetPointerBaseWithConstantOffset(S->getPointerOperand(), so, DL);
        if (sb == base) {
          Type *T = S->getValueOperand()->getType();
          uint64_t sz = DL.getTypeStoreSize(T);
          bool overlaps = so < lo + (int64_t)n && lo < so + (int64_t)sz;
          if (overlaps) {
            if (!T->isIntegerTy() || T->getIntegerBitWidth() % 8) { ok = false; break; }
            for (unsigned k = 0; k < n; k++) {
              int64_t p = lo + k - so;
              if (!bytes[k].v && p >= 0 && p < (int64_t)sz) {
                bytes[k] = {S->getValueOperand(), (unsigned)p * 8};
                left--;
              }
            }
          }
          A = D->getDefiningAccess();
          continue;
        }
      } else if (auto *MI = dyn_cast<MemSetInst>(I)) {
        int64_t so = 0;
        Value *sb = GetPointerBaseWithConstantOffset(MI->getDest(), so, DL);
        if (sb == base) {
          auto *C = dyn_cast<ConstantInt>(MI->getLength());
          if (!C) { ok = false; break; }
          int64_t sz = C->getZExtValue();
          for (unsigned k = 0; k < n; k++) {
            int64_t p = lo + k - so;
            if (!bytes[k].v && p >= 0 && p < sz) {
              bytes[k] = {MI->getValue(), 0};
              left--;
            }
          }
          A = D->getDefiningAccess();
          continue;
        }
      }
      if (isModSet(BAA.getModRefInfo(I, loc))) { ok = false; break; }
      A = D->getDefiningAccess();
    }
    if (!ok || left) continue;
    bool mixed = false; // one store covering it all is left to the standard passes, unless of another width
    for (auto &b : bytes) mixed |= b.v != bytes[0].v;
    if (!mixed) continue;
    IRBuilder<> IB(L);
    Value *acc = ConstantInt::get(L->getType(), 0);
    for (unsigned k = 0; k < n; k++) {
      Value *v = bytes[k].v;
      if (bytes[k].sh) v = IB.CreateLShr(v, bytes[k].sh);
      v = IB.CreateZExtOrTrunc(IB.CreateTrunc(v, IB.getInt8Ty()), L->getType());
      if (k) v = IB.CreateShl(v, 8 * k);
      acc = IB.CreateOr(acc, v);
    }
    repl.push_back({L, acc});
    any = true;
  }
  for (auto &r : repl) {
    r.first->replaceAllUsesWith(r.second);
    for (auto &q : repl)
      if (q.second == r.first) q.second = r.second;
    r.first->eraseFromParent();
  }
  return any;
}

// Facts the standard passes leave alone here: a local has an address, and a byte repeated is one value however it is put together.
// points into a local, whichever one
static bool intoLocal(Value *V, const DataLayout &DL, int depth = 6) {
  int64_t off = 0;
  Value *B = GetPointerBaseWithConstantOffset(V, off, DL);
  if (auto *A = dyn_cast<AllocaInst>(B)) return A->isStaticAlloca() && off >= 0 && (uint64_t)off <= DL.getTypeAllocSize(A->getAllocatedType());
  if (off || !depth) return false; // an offset behind a choice would have to fit every choice
  if (auto *S = dyn_cast<SelectInst>(B)) return intoLocal(S->getTrueValue(), DL, depth - 1) && intoLocal(S->getFalseValue(), DL, depth - 1);
  if (auto *P = dyn_cast<PHINode>(B)) return P->getNumIncomingValues() <= 8 && all_of(P->incoming_values(), [&](Use &U) { return intoLocal(U.get(), DL, depth - 1); });
  return false;
}

// A pointer that is one of several locals (or nothing), by a condition met earlier, and is used to reach memory: what
// follows is taken apart into one copy per choice.  Returns whether it did so once.
static bool splitChoice(Function &F) {
  if (F.getInstructionCount() > 12000) return false;
  const DataLayout &DL = F.getParent()->getDataLayout();
  auto simple = [&](Value *V) { return isa<ConstantPointerNull>(V) || intoLocal(V, DL) || isa<AllocaInst>(V->stripInBoundsOffsets()); };
  auto reaches = [](Value *V) { // used as an address
    SmallPtrSet<Value *, 16> seen;
    SmallVector<Value *, 16> work{V};
    while (!work.empty()) {
      Value *X = work.pop_back_val();
      if (!seen.insert(X).second || seen.size() > 200) continue;
      for (auto *U : X->users()) {
        if (isa<LoadInst>(U) || isa<MemIntrinsic>(U)) return true;
        if (auto *SI = dyn_cast<StoreInst>(U)) {
          if (SI->getPointerOperand() == X) return true;
        } else if (isa<GetElementPtrInst>(U) || isa<SelectInst>(U) || isa<PHINode>(U))
          work.push_back(U);
      }
    }
    return false;
  };
  ReversePostOrderTraversal<Function *> RPO(&F);
  for (auto *BB : RPO)
    for (auto &I : *BB) {
      auto *S = dyn_cast<SelectInst>(&I);
      auto *P = dyn_cast<PHINode>(&I);
      if ((!S && !P) || !I.getType()->isPointerTy()) continue;
      if (S ? !(simple(S->getTrueValue()) && simple(S->getFalseValue()) && S->getCondition()->getType()->isIntegerTy(1)) : !all_of(P->incoming_values(), [&](Use &U) { return simple(U.get()); })) continue;
      if (!reaches(&I)) continue;
      // what can follow
      SmallVector<BasicBlock *, 64> region;
      SmallPtrSet<BasicBlock *, 32> in;
      BasicBlock *Start = BB;
      auto collect = [&]() {
        region.clear();
        in.clear();
        SmallVector<BasicBlock *, 64> work{Start};
        while (!work.empty()) {
          auto *B = work.pop_back_val();
          if (!in.insert(B).second) continue;
          region.push_back(B);
          append_range(work, successors(B));
        }
      };
      BasicBlock *From;
      if (S) {
        bool loop = false;
        for (auto *X : successors(BB)) {
          Start = X;
          collect();
          loop |= in.count(BB);
        }
        if (loop) continue;
        auto *Tail = BB->splitBasicBlock(S->getIterator());
        auto *Other = BasicBlock::Create(F.getContext(), "", &F, Tail);
        BranchInst::Create(Tail, Other);
        BB->getTerminator()->eraseFromParent();
        BranchInst::Create(Other, Tail, S->getCondition(), BB);
        auto *N = PHINode::Create(S->getType(), 2, "", &Tail->front());
        N->addIncoming(S->getTrueValue(), Other);
        N->addIncoming(S->getFalseValue(), BB);
        S->replaceAllUsesWith(N);
        S->eraseFromParent();
        Start = Tail;
        From = Other;
        collect();
      } else {
        collect();
        From = nullptr;
        bool loop = false;
        for (auto *Q : predecessors(BB)) {
          loop |= in.count(Q);
          From = Q;
        }
        SmallPtrSet<BasicBlock *, 8> qs(pred_begin(BB), pred_end(BB));
        if (loop || qs.size() < 2) continue;
      }
      ValueToValueMapTy VM;
      SmallVector<BasicBlock *, 64> copies;
      for (auto *B : region) {
        auto *N = CloneBasicBlock(B, VM, ".case", &F);
        VM[B] = N;
        copies.push_back(N);
      }
      remapInstructionsInBlocks(copies, VM);
      for (size_t i = 0; i < region.size(); i++)
        for (auto &PN : make_early_inc_range(copies[i]->phis()))
          for (int k = PN.getNumIncomingValues() - 1; k >= 0; k--) {
            auto *Q = PN.getIncomingBlock(k);
            bool keep = region[i] == Start ? Q == From : is_contained(copies, Q);
            if (region[i] == Start && is_contained(copies, Q)) keep = true;
            if (!keep) PN.removeIncomingValue(k, false);
          }
      for (auto &PN : Start->phis())
        while (PN.getBasicBlockIndex(From) >= 0) PN.removeIncomingValue(PN.getBasicBlockIndex(From), false);
      From->getTerminator()->replaceSuccessorWith(Start, cast<BasicBlock>(VM[Start]));
      return true;
    }
  return false;
}

/* a copy back to where the bytes came from, nothing having changed at either place */
static bool copiesBack(MemCpyInst *M, const DataLayout &DL) {
  auto span = [&](Value *P, Value *L, std::tuple<Value *, int64_t, int64_t> &out) {
    auto *N = dyn_cast<ConstantInt>(L);
    int64_t o = 0;
    Value *B = GetPointerBaseWithConstantOffset(P, o, DL);
    if (!N || !(isa<AllocaInst>(B) || isa<GlobalVariable>(B))) return false;
    out = {B, o, o + (int64_t)N->getZExtValue()};
    return true;
  };
  std::tuple<Value *, int64_t, int64_t> D, S, x, y;
  if (M->isVolatile() || !span(M->getDest(), M->getLength(), D) || !span(M->getSource(), M->getLength(), S)) return false;
  auto apart = [&](auto &a, auto &b) { return std::get<0>(a) != std::get<0>(b) || std::get<2>(a) <= std::get<1>(b) || std::get<2>(b) <= std::get<1>(a); };
  int k = 0;
  for (Instruction *J = M->getPrevNode(); J && k < 400; J = J->getPrevNode(), k++) {
    if (!J->mayWriteToMemory()) continue;
    if (auto *C = dyn_cast<MemCpyInst>(J))
      if (span(C->getDest(), C->getLength(), x) && span(C->getSource(), C->getLength(), y) && x == S && y == D && apart(x, y)) return true;
    if (auto *MI = dyn_cast<MemIntrinsic>(J)) {
      if (!span(MI->getDest(), MI->getLength(), x)) return false;
    } else if (auto *St = dyn_cast<StoreInst>(J)) {
      if (!span(St->getPointerOperand(), ConstantInt::get(Type::getInt64Ty(M->getContext()), DL.getTypeStoreSize(St->getValueOperand()->getType())), x)) return false;
    } else
      return false;
    if (!apart(x, D) || !apart(x, S)) return false;
  }
  return false;
}

/* a local that holds no pointers */
static bool plainLocal(Value *B, const DataLayout &DL) {
  if (!isa<AllocaInst>(B)) return false;
  SmallVector<Value *, 16> work{B};
  for (size_t i = 0; i < work.size() && i < 200; i++)
    for (auto *U : work[i]->users()) {
      if (isa<GetElementPtrInst>(U)) work.push_back(U);
      auto small = [&](Type *T) { return T->isIntegerTy() && DL.getTypeStoreSize(T) <= 8; };
      if (auto *L = dyn_cast<LoadInst>(U)) {
        if (!small(L->getType())) return false;
      } else if (auto *St = dyn_cast<StoreInst>(U))
        if (St->getPointerOperand() == work[i] && !small(St->getValueOperand()->getType())) return false;
    }
  return true;
}

static bool tidy(Function &F, bool words = false) {
  using namespace PatternMatch;
  bool any = false;
  const DataLayout &DL = F.getParent()->getDataLayout();
  for (auto &I : make_early_inc_range(instructions(F))) {
    if (auto *MC = dyn_cast<MemCpyInst>(&I)) {
      auto *N = dyn_cast<ConstantInt>(MC->getLength());
      if (copiesBack(MC, DL)) {
        MC->eraseFromParent();
        any = true;
        continue;
      }
      int64_t so = 0, to = 0;
      if (!words || !N || N->getZExtValue() > 256 || N->getZExtValue() % 4) continue;
      if (!plainLocal(GetPointerBaseWithConstantOffset(MC->getDest(), to, DL), DL) || !plainLocal(GetPointerBaseWithConstantOffset(MC->getSource(), so, DL), DL) || so % 4 || to % 4) continue;
      IRBuilder<> IB(MC);
      for (uint64_t k = 0; k < N->getZExtValue(); k += 4)
        IB.CreateAlignedStore(IB.CreateAlignedLoad(IB.getInt32Ty(), IB.CreateConstInBoundsGEP1_64(IB.getInt8Ty(), MC->getSource(), k), Align(1)), IB.CreateConstInBoundsGEP1_64(IB.getInt8Ty(), MC->getDest(), k), Align(1));
      MC->eraseFromParent();
      any = true;
      continue;
    }
    if (auto *C = dyn_cast<ICmpInst>(&I)) {
      if (!C->isEquality() || !isa<ConstantPointerNull>(C->getOperand(1))) continue;
      if (!intoLocal(C->getOperand(0), DL)) continue;
      C->replaceAllUsesWith(ConstantInt::getBool(C->getType(), C->getPredicate() == ICmpInst::ICMP_NE));
      C->eraseFromParent();
      any = true;
      continue;
    }
    if (auto *MM = dyn_cast<MemMoveInst>(&I)) { // within one local: read it all, then write it all
      auto *N = dyn_cast<ConstantInt>(MM->getLength());
      if (!N || N->getZExtValue() > 512) continue;
      uint64_t n = N->getZExtValue();
      int64_t so = 0, to = 0;
      Value *D = GetPointerBaseWithConstantOffset(MM->getDest(), to, DL), *S = GetPointerBaseWithConstantOffset(MM->getSource(), so, DL);
      if (D != S || !isa<AllocaInst>(D)) continue;
      unsigned w = n % 8 == 0 && so % 8 == 0 && to % 8 == 0 ? 8 : n % 4 == 0 && so % 4 == 0 && to % 4 == 0 ? 4 : 1;
      IRBuilder<> IB(MM);
      SmallVector<Value *, 64> vs;
      for (uint64_t k = 0; k < n; k += w) vs.push_back(IB.CreateAlignedLoad(IB.getIntNTy(8 * w), IB.CreateConstInBoundsGEP1_64(IB.getInt8Ty(), MM->getSource(), k), Align(1)));
      for (uint64_t k = 0; k < n; k += w) IB.CreateAlignedStore(vs[k / w], IB.CreateConstInBoundsGEP1_64(IB.getInt8Ty(), MM->getDest(), k), Align(1));
      MM->eraseFromParent();
      any = true;
      continue;
    }
    if (auto *CI = dyn_cast<CallInst>(&I)) { // a C library function with an operation of its own, however it was reached
      static const std::map<std::string, Intrinsic::ID> ops = {{"sin", Intrinsic::sin}, {"cos", Intrinsic::cos}, {"exp", Intrinsic::exp}, {"exp2", Intrinsic::exp2}, {"log", Intrinsic::log},
        {"log2", Intrinsic::log2}, {"log10", Intrinsic::log10}, {"sqrt", Intrinsic::sqrt}, {"fabs", Intrinsic::fabs}, {"floor", Intrinsic::floor}, {"ceil", Intrinsic::ceil},
        {"trunc", Intrinsic::trunc}, {"rint", Intrinsic::rint}, {"nearbyint", Intrinsic::nearbyint}, {"round", Intrinsic::round}, {"pow", Intrinsic::pow}, {"fmin", Intrinsic::minnum},
        {"fmax", Intrinsic::maxnum}, {"fma", Intrinsic::fma}, {"copysign", Intrinsic::copysign}};
      auto *G = CI->getCalledFunction();
      if (!G || G->isIntrinsic() || !G->isDeclaration() || !CI->getType()->isDoubleTy()) continue;
      if (G->getName() == "fmod") {
        CI->replaceAllUsesWith(BinaryOperator::Create(Instruction::FRem, CI->getArgOperand(0), CI->getArgOperand(1), "", CI));
        CI->eraseFromParent();
        any = true;
        continue;
      }
      auto it = ops.find(G->getName().str());
      if (it == ops.end()) continue;
      SmallVector<Value *, 3> as(CI->args());
      auto *N = CallInst::Create(Intrinsic::getDeclaration(F.getParent(), it->second, {CI->getType()}), as, "", CI);
      CI->replaceAllUsesWith(N);
      CI->eraseFromParent();
      any = true;
      continue;
    }
    {
      Value *X;
      const APInt *a, *b;
      if (match(&I, m_AShr(m_Shl(m_ZExtOrSExt(m_Value(X)), m_APInt(a)), m_APInt(b))) && *a == *b) { // sign extension of the low bits of something narrower
        unsigned w = I.getType()->getScalarSizeInBits() - a->getZExtValue();
        if ((w == 8 || w == 16 || w == 32) && X->getType()->getScalarSizeInBits() > w && !I.getType()->isVectorTy()) {
          IRBuilder<> IB(&I);
          I.replaceAllUsesWith(IB.CreateSExt(IB.CreateTrunc(X, IB.getIntNTy(w)), I.getType()));
          any = true;
          continue;
        }
      }
    }
    if (!I.getType()->isIntegerTy(32) && !I.getType()->isIntegerTy(64)) continue;
    Value *V = &I, *B = nullptr;
    unsigned w = I.getType()->getIntegerBitWidth() / 2;
    for (; w >= 8; w /= 2) {
      if (!match(V, m_c_Or(m_Value(B), m_Shl(m_Deferred(B), m_SpecificInt(w))))) {
        auto *O = dyn_cast<BinaryOperator>(V);
        if (!O || O->getOpcode() != Instruction::Or) break;
        Value *X = O->getOperand(0), *Y = O->getOperand(1);
        if (match(X, m_Shl(m_Specific(Y), m_SpecificInt(w)))) B = Y;
        else break;
      }
      V = B;
    }
    if (w >= 8 || !match(V, m_ZExt(m_Value(B))) || !B->getType()->isIntegerTy(8)) continue;
    auto *Mul = BinaryOperator::CreateNUW(Instruction::Mul, V, ConstantInt::get(I.getType(), 0x0101010101010101ull), "", &I);
    I.replaceAllUsesWith(Mul);
    any = true;
  }
  return any;
}

int cmd_nf(int argc, char **argv) {
  if (argc < 4) return 3;
  LLVMContext C;
  auto M = loadModule(argv[0], C);
  std::vector<std::pair<std::string, std::string>> pairs;
  std::set<std::string> keep;
  {
    std::ifstream f(argv[1]);
    std::string a, b;
    while (f >> a >> b) {
      pairs.push_back({a, b});
      keep.insert(a);
      keep.insert(b);
    }
  }
  std::vector<std::pair<Function *, Function *>> laters;
  bool split = false, lazy = false;
  // opaque functions: body removed, given effect attributes ("r": reads memory only; "w": anything)
  {
    std::ifstream f(argv[2]);
    std::string n, k;
    while (f >> n >> k) {
      if (n == "option") { // "split": take choices between locals apart
        if (k == "split") split = true;
        if (k == "lazy") lazy = true; // recursive functions are entered one call at a time, in the order they are reached
        continue;
      }
      bool model = k.compare(0, 6, "model:") == 0, after = k.compare(0, 6, "after:") == 0;
      if (model || after) { // calls go to a model the spec supplies ("after" the calls by name are resolved)
        Function *Fn = M->getFunction(n), *Md = M->getFunction(k.substr(6));
        if (!Fn && n.compare(0, 4, "osc_")) continue; // a C library function nobody uses
        if (!Fn || !Md || Md->isDeclaration()) {
          errs() << "nf: model anchor vanished: " << n << "\n";
          return 3;
        }
        if (after) laters.push_back({Fn, Md});
        else Fn->replaceAllUsesWith(Md);
        continue;
      }
      SmallVector<Function *, 4> fs;
      if (n.back() == '*') { // a whole family
        for (auto &F : *M)
          if (!F.isDeclaration() && F.getName().starts_with(StringRef(n).drop_back())) fs.push_back(&F);
      } else if (Function *Fn = M->getFunction(n))
        fs.push_back(Fn);
      if (fs.empty()) {
        errs() << "nf: opaque anchor vanished: " << n << "\n";
        return 3;
      }
      for (auto *Fn : fs) {
        Fn->deleteBody();
        Fn->setComdat(nullptr);
        Fn->setLinkage(GlobalValue::ExternalLinkage);
        Fn->addFnAttr(Attribute::NoUnwind);
        Fn->addFnAttr(Attribute::WillReturn);
        if (k == "r") Fn->setMemoryEffects(MemoryEffects::readOnly());
        if (k == "n") Fn->setMemoryEffects(MemoryEffects::none());
        if (k == "i") Fn->setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); // shows a value; reads and writes nothing of the program's
      }
    }
  }
  for (auto &F : *M) // C library functions of numbers alone (errno aside)
    if (F.isDeclaration() && !F.isIntrinsic() && F.getReturnType()->isFloatingPointTy() && !F.getName().starts_with("M_") && !F.getName().starts_with("osc_") && !F.arg_empty() &&
        all_of(F.args(), [](Argument &A) { return A.getType()->isFloatingPointTy() || A.getType()->isIntegerTy(); })) {
      F.setMemoryEffects(MemoryEffects::none());
      F.addFnAttr(Attribute::NoUnwind);
      F.addFnAttr(Attribute::WillReturn);
    }
  if (Function *Fn = M->getFunction("M_raw")) { // the specification's heap: allocation succeeds
    Fn->addRetAttr(Attribute::NonNull);
    Fn->addRetAttr(Attribute::NoAlias);
    Fn->addFnAttr(Attribute::NoUnwind);
    Fn->addFnAttr(Attribute::WillReturn);
    Fn->setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
  }
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    if (keep.count(F.getName().str())) {
      F.setLinkage(GlobalValue::ExternalLinkage);
      F.addFnAttr(Attribute::NoInline);
    } else {
      F.setLinkage(GlobalValue::InternalLinkage);
      F.removeFnAttr(Attribute::NoInline);
    }
  }
  // a NULL dereference must stay visible instead of being assumed away
  for (auto &F : *M)
    if (!F.isDeclaration()) F.addFnAttr(Attribute::NullPointerIsValid);
  StripDebugInfo(*M);
  // a local variable nothing else can see is no device
  for (auto &F : *M)
    for (auto &I : instructions(F)) {
      auto *A = dyn_cast<AllocaInst>(&I);
      if (!A || !all_of(A->users(), [&](User *U) {
            if (auto *SI = dyn_cast<StoreInst>(U)) return SI->getValueOperand() != A;
            if (auto *II = dyn_cast<IntrinsicInst>(U)) return II->isLifetimeStartOrEnd();
            return isa<LoadInst>(U);
          }))
        continue;
      for (auto *U : A->users())
        if (auto *LI = dyn_cast<LoadInst>(U)) LI->setVolatile(false);
        else if (auto *SI = dyn_cast<StoreInst>(U)) SI->setVolatile(false);
    }
  runPasses(*M, "function(sroa)");
  for (auto &GV : M->globals())
    if (GV.hasInitializer() && !GV.hasPrivateLinkage() && GV.getName() != "llvm.used")
      GV.setLinkage(GlobalValue::InternalLinkage);
  // tables: an array of records nothing in the program stores into keeps its initial contents
  std::vector<GlobalVariable *> tables;
  for (auto &GV : M->globals()) {
    if (GV.isConstant() || !GV.hasInitializer() || !GV.hasInternalLinkage()) continue;
    auto *AT = dyn_cast<ArrayType>(GV.getValueType());
    if (!AT || !AT->getElementType()->isStructTy()) continue;
    bool written = false;
    SmallPtrSet<User *, 32> seen;
    SmallVector<User *, 32> work(GV.users());
    while (!work.empty() && !written) {
      User *U = work.pop_back_val();
      if (!seen.insert(U).second) continue;
      if (auto *SI = dyn_cast<StoreInst>(U)) {
        if (SI->getValueOperand() == &GV || !seen.count(dyn_cast<User>(SI->getPointerOperand()))) { // the table's own address kept somewhere
          if (SI->getPointerOperand() != &GV) continue;
        }
        written = true;
      } else if (auto *MI = dyn_cast<MemIntrinsic>(U)) {
        Value *D = MI->getRawDest();
        if (D == &GV || (isa<User>(D) && seen.count(cast<User>(D)))) written = true;
      } else if (isa<GetElementPtrInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U) || isa<CastInst>(U) || isa<ConstantExpr>(U))
        append_range(work, U->users());
    }
    if (!written) {
      GV.setConstant(true);
      tables.push_back(&GV);
    }
  }
  // heap blocks of known size allocated once become locals; their size is then known at every use
  Function *MA = M->getFunction("M_raw"), *MS = M->getFunction("M_size");
  auto heap = [&](Function &F) {
    bool any = false;
    DominatorTree DT(F);
    LoopInfo LI(DT);
    SmallVector<CallInst *, 16> as, ss;
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallInst>(&I)) {
        if (MS && CB->getCalledFunction() == MS) ss.push_back(CB);
        if (MA && CB->getCalledFunction() == MA && isa<ConstantInt>(CB->getArgOperand(0)) && !LI.getLoopFor(CB->getParent())) as.push_back(CB);
      }
    for (auto *CB : as) {
      uint64_t n = cast<ConstantInt>(CB->getArgOperand(0))->getZExtValue();
      if (n > (4 << 20)) continue;
      auto *A = new AllocaInst(ArrayType::get(Type::getInt8Ty(M->getContext()), n), 0, nullptr, Align(16), "heap", &*F.getEntryBlock().getFirstInsertionPt());
      CB->replaceAllUsesWith(A);
      CB->eraseFromParent();
      any = true;
    }
    if (any) // a 'tail' call is one that cannot see the caller's locals
      for (auto &I : instructions(F))
        if (auto *CI = dyn_cast<CallInst>(&I))
          if (!CI->isMustTailCall()) CI->setTailCallKind(CallInst::TCK_None);
    for (auto *CB : ss) {
      Value *P = CB->getArgOperand(0)->stripPointerCasts();
      if (auto *A = dyn_cast<AllocaInst>(P)) {
        if (A->getName().starts_with("heap")) {
          CB->replaceAllUsesWith(ConstantInt::get(CB->getType(), M->getDataLayout().getTypeAllocSize(A->getAllocatedType())));
          CB->eraseFromParent();
          any = true;
        }
      }
    }
    return any;
  };
  std::set<Function *> recursive;
  // a local array whose size has become known is a local like any other; what marks its scope has no effect
  auto arrays = [&](Function &F) {
    bool any = false;
    SmallVector<Instruction *, 8> dead;
    for (auto &I : instructions(F))
      if (auto *II = dyn_cast<IntrinsicInst>(&I))
        if (II->getIntrinsicID() == Intrinsic::stacksave || II->getIntrinsicID() == Intrinsic::stackrestore) dead.push_back(&I);
    for (auto *I : dead) {
      if (!I->getType()->isVoidTy()) I->replaceAllUsesWith(PoisonValue::get(I->getType()));
      I->eraseFromParent();
      any = true;
    }
    DominatorTree DT(F);
    LoopInfo LI(DT);
    SmallVector<AllocaInst *, 8> as;
    for (auto &B : F)
      if (&B != &F.getEntryBlock() && !LI.getLoopFor(&B))
        for (auto &I : B)
          if (auto *A = dyn_cast<AllocaInst>(&I))
            if (isa<ConstantInt>(A->getArraySize())) as.push_back(A);
    for (auto *A : as) {
      A->moveBefore(&*F.getEntryBlock().getFirstInsertionPt());
      any = true;
    }
    return any;
  };
  auto pendingCall = [&](BasicBlock &B) -> CallBase * {
    if (recursive.empty()) return nullptr;
    for (auto &I : B)
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (Function *G = CB->getCalledFunction())
          if (recursive.count(G)) return CB;
    return nullptr;
  };
  // loops over structures of known shape: peel iterations until the exit test becomes constant.  Loops no other
  // loop leads to go first: what a later loop walks over is only known once they are gone.  A call through a pointer
  // that has become known is inlined then.
  auto peel = [&](int waves, std::set<Function *> *only = nullptr) {
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    FunctionPassManager FPM;
    if (auto E = PB.parsePassPipeline(FPM, "sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,gvn,dse,sccp,aggressive-instcombine,instcombine<no-verify-fixpoint>,loop-simplify,lcssa,"
                                           "loop(loop-rotate,loop-deletion),simplifycfg,instcombine<no-verify-fixpoint>,gvn,simplifycfg")) {
      errs() << "nf: " << toString(std::move(E)) << "\n";
      exit(3);
    }
    const char *T = getenv("NF_TRACE");
    for (auto &F : *M) {
      if (F.isDeclaration() || !(only ? only->count(&F) : keep.count(F.getName().str()))) continue;
      size_t best = ~size_t(0);
      int stuck = 0, quiet = 0, wave = waves, splits = 0, same = 0;
      size_t last = 0, prev = 0;
      for (int k = 0; k < (lazy ? 600 : 160) && (only || stuck < (last < 9000 ? 40 : 14)); k++) {
        if (T && F.getName() == T) errs() << "--- " << k << "\n" << F;
        if (getenv("NF_ROUNDS")) errs() << F.getName() << " round " << k << " insts " << F.getInstructionCount() << " at " << std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count() % 1000000 << "\n";
        bool any = heap(F);
        if (lazy && arrays(F)) any = true;
        if (wave) {
          SmallVector<CallBase *, 8> cs;
          for (auto &I : instructions(F))
            if (auto *CB = dyn_cast<CallBase>(&I))
              if (Function *G = CB->getCalledFunction())
                if (!G->isDeclaration() && !keep.count(G->getName().str()) && !recursive.count(G)) cs.push_back(CB);
          if (!recursive.empty()) { // of the recursive calls, the first one on each way from the entry
            DominatorTree DT(F);
            LoopInfo LI(DT);
            SmallPtrSet<BasicBlock *, 32> seen;
            SmallVector<BasicBlock *, 32> work{&F.getEntryBlock()};
            SmallVector<CallBase *, 8> first;
            bool busy = false; // what happens before them is still being simplified
            while (!work.empty()) {
              BasicBlock *B = work.pop_back_val();
              if (!seen.insert(B).second) continue;
              if (CallBase *CB = pendingCall(*B)) {
                if (!LI.getLoopFor(B) || stuck >= 9) first.push_back(CB);
              } else
                append_range(work, successors(B));
            }
            seen.clear();
            for (auto *CB : first) append_range(work, predecessors(CB->getParent()));
            while (!work.empty()) {
              BasicBlock *B = work.pop_back_val();
              if (!seen.insert(B).second) continue;
              if (LI.getLoopFor(B)) busy = true;
              append_range(work, predecessors(B));
            }
            if (!(busy || last < prev) || stuck > 2 || quiet) append_range(cs, first);
          }
          bool did = false;
          for (auto *CB : cs) {
            InlineFunctionInfo IFI;
            if (getenv("NF_ROUNDS")) errs() << "  inline " << CB->getCalledFunction()->getName() << " " << CB->getCalledFunction()->getInstructionCount() << "\n";
            if (F.getInstructionCount() < 20000 && InlineFunction(*CB, IFI).isSuccess()) did = true;
          }
          if (did) {
            if (recursive.empty()) wave--;
            if (lazy) {
              arrays(F);
              stuck = -1;
            }
            any = true;
          }
        }
        if (split && k >= 2 && splits < 40 && splitChoice(F)) {
          splits++;
          any = true;
          FAM.invalidate(F, PreservedAnalyses::none());
          FPM.run(F, FAM);
        }
        size_t size = F.getInstructionCount();
        if (size <= 40000) {
          DominatorTree DT(F);
          LoopInfo LI(DT);
          if (!LI.empty()) {
            AssumptionCache AC(F);
            TargetLibraryInfoImpl TLII(Triple(M->getTargetTriple()));
            TargetLibraryInfo TLI(TLII);
            ScalarEvolution SE(F, TLI, AC, DT, LI);
            SmallVector<Loop *, 4> tops(LI.begin(), LI.end()), lead;
            if (tops.size() < best) {
              best = tops.size();
              stuck = 0;
            } else
              stuck++;
            for (auto *L : tops) {
              bool first = true;
              if (stuck < 9) {
                // backwards from the header: no other loop on the way to the entry
                SmallPtrSet<BasicBlock *, 32> seen;
                SmallVector<BasicBlock *, 32> work(predecessors(L->getHeader()));
                while (!work.empty() && first) {
                  BasicBlock *B = work.pop_back_val();
                  if (L->contains(B) || !seen.insert(B).second) continue;
                  if (LI.getLoopFor(B) || pendingCall(*B)) first = false;
                  append_range(work, predecessors(B));
                }
              }
              if (first) lead.push_back(L);
            }
            for (auto *L : lead) {
              size_t ls = 0;
              for (auto *BB : L->blocks()) ls += BB->size();
              if (size > (lazy ? 24000 : 6000) && ls > 100) continue;
              simplifyLoop(L, &DT, &LI, &SE, &AC, nullptr, false);
              formLCSSARecursively(*L, DT, &LI, &SE);
              if (!canPeel(L)) continue;
              ValueToValueMapTy VM;
              unsigned few = L->isInnermost() && ls < 24 ? 8 : 2, tc = L->isInnermost() && ls < 24 ? SE.getSmallConstantMaxTripCount(L) : 0;
              if (any_of(L->blocks(), [&](BasicBlock *B) { return pendingCall(*B) != nullptr; })) few = 1;
              if (tc > few && tc <= 256) few = tc; // a search through a table
              if (lazy && !L->isInnermost() && ls < 60 && few > 1) { // or one that compares names
                unsigned n = SE.getSmallConstantMaxTripCount(L);
                if (n > 32 && n <= 256) few = 24, stuck = std::min(stuck, 4);
              }
              if (!lazy && !L->isInnermost() && ls < 160 && few > 1) { // or a walk over one
                unsigned n = SE.getSmallConstantMaxTripCount(L);
                if (n > 12 && n <= 64) few = 8;
              }
              if (peelLoop(L, few, &LI, &SE, DT, &AC, true, VM)) any = true;
            }
          }
        }
        FAM.invalidate(F, PreservedAnalyses::none());
        if (assembleLoads(F, FAM)) any = true;
        if (tidy(F, lazy)) any = true;
        if (!any && quiet++) break; // nothing left to do, and nothing came of simplifying what there is
        if (any) quiet = 0;
        FAM.invalidate(F, PreservedAnalyses::none());
        FPM.run(F, FAM);
        if (F.getInstructionCount() != size) quiet = 0;
        same = F.getInstructionCount() == last ? same + 1 : 0;
        prev = last;
        last = F.getInstructionCount();
        if (lazy && last < prev) stuck = 0;
        if (same > (last < 400 ? 40 : 8) && !only) break;
      }
      for (int k = 0; k < 12 && (heap(F) | tidy(F)); k++) {
        FAM.invalidate(F, PreservedAnalyses::none());
        FPM.run(F, FAM);
      }
    }
  };
  auto stage = [&](const char *what) {
    if (!getenv("NF_ROUNDS")) return;
    size_t n = 0, fs = 0;
    for (auto &F : *M)
      if (!F.isDeclaration()) n += F.getInstructionCount(), fs++;
    errs() << "stage " << what << " functions " << fs << " insts " << n << " at " << std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count() % 1000000 << "\n";
  };
  auto round = [&]() {
    stage("round");
    runPasses(*M, "globaldce,default<O2>,function(loop-simplify,lcssa,loop(loop-rotate,loop-unroll-full),sroa,instcombine<no-verify-fixpoint>,reassociate,gvn,"
                  "simplifycfg<hoist-common-insts;sink-common-insts>,instcombine<no-verify-fixpoint>,early-cse<memssa>),globaldce");
  };
  // calls by name: whatever searches such a table for a name known here is resolved before anything else, so that the
  // rest of the table drops out of the program
  {
    std::set<Function *> reads;
    for (auto *GV : tables)
      for (auto *U : GV->users()) {
        SmallVector<User *, 8> work;
        work.push_back(U);
        for (size_t i = 0; i < work.size() && i < 64; i++)
          if (auto *I = dyn_cast<Instruction>(work[i])) reads.insert(I->getFunction());
          else append_range(work, work[i]->users());
      }
    std::function<bool(Function *, int)> reaches = [&](Function *G, int depth) {
      if (reads.count(G)) return true;
      if (!depth || G->getInstructionCount() > 400) return false;
      for (auto &J : instructions(*G))
        if (auto *CB = dyn_cast<CallBase>(&J))
          if (Function *K = CB->getCalledFunction())
            if (!K->isDeclaration() && reaches(K, depth - 1)) return true;
      return false;
    };
    std::map<std::vector<Value *>, Constant *> known;
    std::vector<std::pair<CallBase *, std::vector<Value *>>> sites;
    std::vector<std::pair<Function *, std::vector<Value *>>> looks;
    for (auto &F : *M) {
      if (F.isDeclaration() || reads.count(&F)) continue;
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          Function *G = CB->getCalledFunction();
          if (!G || G->isDeclaration() || keep.count(G->getName().str()) || CB->arg_empty() || !CB->getType()->isPointerTy() ||
              !all_of(CB->args(), [](Use &U) { return isa<Constant>(U.get()); }) || !reaches(G, 3))
            continue;
          std::vector<Value *> key{G};
          for (auto &U : CB->args()) key.push_back(U.get());
          sites.push_back({CB, key});
        }
    }
    for (auto &s : sites) {
      if (!known.insert({s.second, nullptr}).second) continue;
      Function *G = cast<Function>(s.second[0]);
      Function *K = Function::Create(FunctionType::get(G->getReturnType(), false), GlobalValue::InternalLinkage, "lookup", *M);
      auto *B = BasicBlock::Create(C, "", K);
      std::vector<Value *> as(s.second.begin() + 1, s.second.end());
      auto *R = CallInst::Create(G, as, "", B);
      ReturnInst::Create(C, R, B);
      looks.push_back({K, s.second});
      for (int k = 0; k < 6; k++) {
        SmallVector<CallBase *, 8> cs;
        for (auto &I : instructions(*K))
          if (auto *CB = dyn_cast<CallBase>(&I))
            if (Function *H = CB->getCalledFunction())
              if (!H->isDeclaration() && H != K) cs.push_back(CB);
        for (auto *CB : cs) {
          InlineFunctionInfo IFI;
          if (K->getInstructionCount() < 4000) InlineFunction(*CB, IFI);
        }
      }
    }
    if (!looks.empty()) {
      std::set<Function *> only;
      for (auto &l : looks) only.insert(l.first);
      peel(0, &only);
      std::map<Constant *, Constant *> entry; // each record found becomes a constant of its own
      for (auto &l : looks) {
        Constant *V = nullptr;
        int rets = 0;
        for (auto &B : *l.first)
          if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) rets++, V = dyn_cast<Constant>(R->getReturnValue());
        if (rets != 1 || !V || l.first->getInstructionCount() != 1) continue;
        APInt off(64, 0);
        auto *GV = dyn_cast<GlobalVariable>(V->stripAndAccumulateConstantOffsets(M->getDataLayout(), off, true));
        if (GV && is_contained(tables, GV)) {
          auto *AT = cast<ArrayType>(GV->getValueType());
          uint64_t es = M->getDataLayout().getTypeAllocSize(AT->getElementType());
          if (off.getZExtValue() % es == 0 && off.getZExtValue() / es < AT->getNumElements()) {
            auto &E = entry[V];
            if (!E) E = new GlobalVariable(*M, AT->getElementType(), true, GlobalValue::InternalLinkage, GV->getInitializer()->getAggregateElement(off.getZExtValue() / es), "entry");
            V = E;
          }
        }
        known[l.second] = V;
      }
      for (auto &s : sites)
        if (Constant *V = known[s.second]) {
          s.first->replaceAllUsesWith(V);
          s.first->eraseFromParent();
        }
      for (auto &l : looks) l.first->eraseFromParent();
    }
  }
  for (auto &l : laters) l.first->replaceAllUsesWith(l.second);
  if (lazy) {
    CallGraph CG(*M);
    for (auto I = scc_begin(&CG); !I.isAtEnd(); ++I)
      if (I.hasCycle())
        for (auto *N : *I)
          if (Function *F = N->getFunction())
            if (!F->isDeclaration() && !keep.count(F->getName().str())) F->addFnAttr(Attribute::NoInline);
  }
  round();
  if (lazy)
    for (auto &F : *M)
      if (!F.isDeclaration() && !keep.count(F.getName().str()) && F.hasFnAttribute(Attribute::NoInline)) recursive.insert(&F);
  // calls the inliner declined (variable-length arrays, cost) are inlined on demand, a few levels deep
  for (int k = 0; k < 6 && !lazy; k++) {
    bool any = false;
    for (auto &F : *M) {
      if (F.isDeclaration() || !keep.count(F.getName().str())) continue;
      SmallVector<CallBase *, 8> cs;
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (Function *G = CB->getCalledFunction())
            if (!G->isDeclaration() && !keep.count(G->getName().str())) cs.push_back(CB);
      for (auto *CB : cs) {
        InlineFunctionInfo IFI;
        if (getenv("NF_ROUNDS")) errs() << "demand " << F.getName() << " <- " << CB->getCalledFunction()->getName() << " " << CB->getCalledFunction()->getInstructionCount() << "\n";
        if (InlineFunction(*CB, IFI).isSuccess()) any = true;
      }
    }
    if (!any) break;
    round();
  }
  peel(8);
  runPasses(*M, "default<O2>");

  Interner IN;
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  json::Array res;
  // x | y is 0 exactly if x and y are
  auto apart = [](Function &F) {
    SmallVector<ICmpInst *, 8> cs;
    for (auto &I : instructions(F))
      if (auto *C = dyn_cast<ICmpInst>(&I)) {
        auto *O = dyn_cast<BinaryOperator>(C->getOperand(0));
        auto *Z = dyn_cast<ConstantInt>(C->getOperand(1));
        if (C->isEquality() && O && O->getOpcode() == Instruction::Or && Z && Z->isZero() && O->hasOneUse()) cs.push_back(C);
      }
    for (auto *C : cs) {
      auto *O = cast<BinaryOperator>(C->getOperand(0));
      IRBuilder<> B(C);
      auto *a = B.CreateICmp(C->getPredicate(), O->getOperand(0), C->getOperand(1)), *b = B.CreateICmp(C->getPredicate(), O->getOperand(1), C->getOperand(1));
      C->replaceAllUsesWith(C->getPredicate() == ICmpInst::ICMP_EQ ? B.CreateAnd(a, b) : B.CreateOr(a, b));
      C->eraseFromParent();
      if (O->use_empty()) O->eraseFromParent();
    }
  };
  for (auto &p : pairs)
    for (auto &n : {p.first, p.second})
      if (Function *F = M->getFunction(n)) apart(*F);
  for (auto &p : pairs) {
    Function *H = M->getFunction(p.first), *R = M->getFunction(p.second);
    json::Object o;
    o["h"] = p.first;
    o["r"] = p.second;
    if (!H || !R || H->isDeclaration() || R->isDeclaration()) {
      o["status"] = "missing";
      res.push_back(std::move(o));
      continue;
    }
    auto canon = [&](Function &F) {
      auto &MS = FAM.getResult<MemorySSAAnalysis>(F).getMSSA();
      auto &AA = FAM.getResult<AAManager>(F);
      MS.ensureOptimizedUses();
      Canon cn(F, IN, MS, AA);
      cn.go();
      return cn.out;
    };
    auto t0 = std::chrono::steady_clock::now();
    std::vector<std::string> a, b;
    bool eq;
    int leaves = 1;
    if (acyclic(*H) && acyclic(*R)) {
      FAM.getResult<MemorySSAAnalysis>(*H).getMSSA().ensureOptimizedUses();
      FAM.getResult<MemorySSAAnalysis>(*R).getMSSA().ensureOptimizedUses();
      Compare cmp{IN, *H, *R, FAM};
      eq = cmp.same(Env());
      a = cmp.hgot;
      b = cmp.rgot;
      leaves = cmp.leaves;
      if (cmp.overflow) o["note"] = "too many cases";
    } else {
      a = canon(*H);
      b = canon(*R);
      eq = a == b;
    }
    o["leaves"] = leaves;
    o["ms"] = (int64_t)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
    o["status"] = eq ? "equal" : "differ";
    o["insts"] = (int64_t)H->getInstructionCount();
    if (!eq) {
      o["got"] = dumpFn(*H);
      o["want"] = dumpFn(*R);
      json::Array ca, cb;
      for (auto &s : a) ca.push_back(s);
      for (auto &s : b) cb.push_back(s);
      o["cgot"] = std::move(ca);
      o["cwant"] = std::move(cb);
    }
    res.push_back(std::move(o));
  }
  std::error_code EC;
  raw_fd_ostream os(argv[3], EC);
  os << json::Value(std::move(res));
  return 0;
}
