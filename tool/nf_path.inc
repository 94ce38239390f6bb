  // ---- trace partitioning: everything below is evaluated on the single path the environment selects ----
  const Value *incoming(const PHINode *P) {
    auto it = from.find(P->getParent());
    if (it == from.end()) return P->getIncomingValue(0);
    return P->getIncomingValueForBlock(it->second);
  }
  Bits subBits(const Bits &a, const Bits &b) {
    unsigned w = a.size();
    bool bz = true, cb = true;
    for (int x : b) {
      if (x != bit0()) bz = false;
      if (x != bit0() && x != bit1()) cb = false;
    }
    if (bz) return a;
    if (cb) { // a - c = a + (-c)
      Bits n(w);
      int carry = 1;
      for (unsigned i = 0; i < w; i++) {
        int v = (b[i] == bit1() ? 0 : 1) + carry;
        n[i] = v & 1 ? bit1() : bit0();
        carry = v >> 1;
      }
      return addBits(a, n);
    }
    return linear(a, 1, b, ~0ull, 0);
  }
  bool isConst(const Bits &b, APInt &v) {
    v = APInt(b.size(), 0);
    for (unsigned i = 0; i < b.size(); i++) {
      if (b[i] == bit1()) v.setBit(i);
      else if (b[i] != bit0()) return false;
    }
    return true;
  }
  bool decide(const Value *V) {
    Bits b = bits(V);
    if (b[0] == bit0()) return false;
    if (b[0] == bit1()) return true;
    return env->boolean(IN.rev[b[0]][0] == '~' ? IN(IN.rev[b[0]].substr(1)) : b[0]) != (IN.rev[b[0]][0] == '~');
  }
  bool bitVal(int b) {
    if (b == bit0()) return false;
    if (b == bit1()) return true;
    bool neg = IN.rev[b][0] == '~';
    return env->boolean(neg ? IN(IN.rev[b].substr(1)) : b) != neg;
  }
  bool decideCmp(const CmpInst *C) {
    if (C->getOperand(0)->getType()->isVectorTy()) return env->boolean(IN("vcmp" + CmpInst::getPredicateName(C->getPredicate()).str() + std::to_string(id(C->getOperand(0))) + "," + std::to_string(id(C->getOperand(1)))));
    if (isa<FCmpInst>(C)) {
      auto P = C->getPredicate();
      int a = id(C->getOperand(0)), b = id(C->getOperand(1));
      if (a > b) { std::swap(a, b); P = CmpInst::getSwappedPredicate(P); }
      return env->relation("F:" + std::to_string(a) + ":" + std::to_string(b), (unsigned)P & 15, 15);
    }
    return relation(C->getPredicate(), bits(C->getOperand(0)), bits(C->getOperand(1)));
  }
  bool relation(CmpInst::Predicate P, Bits a, Bits b) {
    APInt ca, cb;
    bool ka = isConst(a, ca), kb = isConst(b, cb);
    if (ka && kb) return ICmpInst::compare(ca, cb, P);
    if (a == b) return CmpInst::isTrueWhenEqual(P);
    if (ka) {
      std::swap(a, b);
      std::swap(ca, cb);
      std::swap(ka, kb);
      P = CmpInst::getSwappedPredicate(P);
    }
    unsigned w = a.size();
    // equality of concatenations is decided piece by piece, one piece per pair of sources
    if (ICmpInst::isEquality(P)) {
      auto src = [&](int x) -> std::string {
        const std::string &t = IN.rev[x];
        if (t == "0" || t == "1") return "c";
        size_t d = t.find('.');
        return t[0] == 'b' && d != std::string::npos ? t.substr(0, d) : t;
      };
      std::map<std::string, std::pair<Bits, Bits>> g;
      for (unsigned i = 0; i < w; i++) {
        std::string k = src(a[i]), l = src(b[i]);
        if (k == "c" && l == "c") {
          if (a[i] != b[i]) return P == CmpInst::ICMP_NE;
          continue;
        }
        if (a[i] == b[i]) continue;
        auto &p = g[k + "|" + l];
        p.first.push_back(a[i]);
        p.second.push_back(b[i]);
      }
      bool eq = true;
      for (auto &kv : g) {
        Bits x = kv.second.first, y = kv.second.second;
        APInt cx, cy;
        if (isConst(x, cx)) { std::swap(x, y); std::swap(cx, cy); }
        bool e;
        if (isConst(y, cy)) {
          auto L = IN.lin.find(packN(x));
          uint64_t m = x.size() >= 64 ? ~0ull : (1ull << x.size()) - 1;
          if (L != IN.lin.end() && L->second.t.size() == 2 && ((L->second.t.begin()->second + L->second.t.rbegin()->second) & m) == 0 &&
              (L->second.t.begin()->second == 1 || L->second.t.begin()->second == m) && ((cy.getZExtValue() - L->second.k) & m) == 0)
            e = rank2(CmpInst::ICMP_EQ, unpack(L->second.t.begin()->first, x.size()), unpack(L->second.t.rbegin()->first, x.size()));
          else if (x.size() == 1) e = bitVal(x[0]) == cy[0];
          else if (x.size() <= 64) e = env->interval(packN(x), x.size(), CmpInst::ICMP_EQ, cy);
          else e = env->boolean(IN("eq" + std::to_string(packN(x)) + "," + std::to_string(packN(y))));
        } else
          e = rank2(CmpInst::ICMP_EQ, x, y);
        if (!e) { eq = false; break; }
      }
      return eq == (P == CmpInst::ICMP_EQ);
    }
    if (kb) {
      // sign tests and single-bit values
      if (P == CmpInst::ICMP_SLT && cb.isZero()) return bitVal(a[w - 1]);
      if (P == CmpInst::ICMP_SGE && cb.isZero()) return !bitVal(a[w - 1]);
      if (P == CmpInst::ICMP_SGT && cb.isAllOnes()) return !bitVal(a[w - 1]);
      if (P == CmpInst::ICMP_SLE && cb.isAllOnes()) return bitVal(a[w - 1]);
      if (CmpInst::isSigned(P) && a[w - 1] == bit0() && !cb.isNegative()) P = ICmpInst::getUnsignedPredicate(P);
      // drop high bits known to be zero
      if (!CmpInst::isSigned(P)) {
        unsigned n = w;
        while (n > 1 && a[n - 1] == bit0()) n--;
        if (n < w) {
          APInt lim = APInt::getLowBitsSet(w, n);
          if (cb.ugt(lim)) {
            switch (P) {
            case CmpInst::ICMP_EQ: case CmpInst::ICMP_UGT: case CmpInst::ICMP_UGE: return false;
            default: return true;
            }
          }
          a.resize(n);
          cb = cb.trunc(n);
          w = n;
        }
      }
      // drop a known non-negative offset only through the solver-free interval domain
      if (w <= 64) {
        int v = packN(a);
        bool zero = (P == CmpInst::ICMP_ULT && cb.isOne()) || (P == CmpInst::ICMP_ULE && cb.isZero());
        bool nz = (P == CmpInst::ICMP_UGE && cb.isOne()) || (P == CmpInst::ICMP_UGT && cb.isZero());
        if (zero || nz) return relation(zero ? CmpInst::ICMP_EQ : CmpInst::ICMP_NE, a, Bits(w, bit0()));
        return env->interval(v, w, P, cb);
      }
    }
    // carry idiom: (x + y) <u x
    if (P == CmpInst::ICMP_ULT || P == CmpInst::ICMP_UGT || P == CmpInst::ICMP_UGE || P == CmpInst::ICMP_ULE) {
      Bits x = a, y = b;
      auto Q = P;
      for (int k = 0; k < 2; k++) {
        int sx = packN(x), sy = packN(y);
        auto L = IN.lin.find(sx);
        if (L != IN.lin.end() && L->second.t.size() == 2 && L->second.k == 0 && L->second.t.count(sy) && (Q == CmpInst::ICMP_ULT || Q == CmpInst::ICMP_UGE) &&
            L->second.t.begin()->second == 1 && L->second.t.rbegin()->second == 1)
          return env->boolean(IN("carry" + std::to_string(sx))) == (Q == CmpInst::ICMP_ULT);
        // ~x <u y says the same of x + y
        bool inv = w <= 64;
        Bits nx;
        for (int bt : x) {
          inv = inv && IN.rev[bt][0] == '~';
          if (inv) nx.push_back(bitNot(bt));
        }
        if (inv && (Q == CmpInst::ICMP_ULT || Q == CmpInst::ICMP_UGE)) {
          int s = packN(addBits(nx, y));
          auto M = IN.lin.find(s);
          if (M != IN.lin.end() && M->second.t.size() == 2 && M->second.k == 0 && M->second.t.count(packN(nx)) && M->second.t.count(sy) &&
              M->second.t.begin()->second == 1 && M->second.t.rbegin()->second == 1)
            return env->boolean(IN("carry" + std::to_string(s))) == (Q == CmpInst::ICMP_ULT);
        }
        std::swap(x, y);
        Q = CmpInst::getSwappedPredicate(Q);
      }
    }
    return rank2(P, a, b);
  }
  bool rank2(CmpInst::Predicate P, const Bits &a, const Bits &b) {
    int p = packN(a), q = packN(b);
    if (p > q) {
      std::swap(p, q);
      P = CmpInst::getSwappedPredicate(P);
    }
    unsigned m = 0; // 1 less, 2 equal, 4 greater
    switch (P) {
    case CmpInst::ICMP_EQ: m = 2; break;
    case CmpInst::ICMP_NE: m = 5; break;
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: m = 1; break;
    case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: m = 3; break;
    case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: m = 4; break;
    default: m = 6; break;
    }
    std::string k = std::to_string(p) + ":" + std::to_string(q);
    std::string U = "U:" + k, S = "S:" + k;
    // equality is shared between the signed and the unsigned order
    if (env->mask(S, 7) == 2 || env->mask(U, 7) == 2) { env->rel[U] = 2; env->rel[S] = 2; }
    if (!(env->mask(S, 7) & 2)) env->rel[U] = env->mask(U, 7) & 5;
    if (!(env->mask(U, 7) & 2)) env->rel[S] = env->mask(S, 7) & 5;
    return env->relation(CmpInst::isSigned(P) ? S : U, m, 7);
  }
  // writes to a local whose address goes nowhere are not effects, as long as every read of it is resolved
  struct NeedLocal {};
  bool keepLocal = false;
  DenseMap<const Value *, bool> privMemo;
  bool privateUses(const Value *P) {
    for (auto *U : P->users()) {
      if (isa<LoadInst>(U)) continue;
      if (auto *S = dyn_cast<StoreInst>(U)) {
        if (S->getValueOperand() == P) return false;
        continue;
      }
      if (isa<GetElementPtrInst>(U) || isa<BitCastInst>(U)) {
        if (!privateUses(cast<Value>(U))) return false;
        continue;
      }
      if (auto *II = dyn_cast<IntrinsicInst>(U)) {
        if (ignorable(*II)) continue;
        if (isa<MemSetInst>(II)) continue;
      }
      return false;
    }
    return true;
  }
  bool isPrivate(const Instruction *I) {
    const Value *P = nullptr;
    if (auto *S = dyn_cast<StoreInst>(I)) P = S->isVolatile() ? nullptr : S->getPointerOperand();
    else if (auto *MS = dyn_cast<MemSetInst>(I)) P = MS->isVolatile() ? nullptr : MS->getDest();
    if (!P) return false;
    auto *A = dyn_cast<AllocaInst>(getUnderlyingObject(P));
    if (!A) return false;
    auto it = privMemo.find(A);
    if (it != privMemo.end()) return it->second;
    return privMemo[A] = privateUses(A);
  }
  // skip to the memory definition that decides a read on this path (null: the initial memory)
  const MemoryDef *settle(MemoryAccess *C, const MemoryLocation *L) {
    auto *W = MSSA.getWalker();
    auto again = [&] {
      if (L && !MSSA.isLiveOnEntryDef(C) && !isa<MemoryPhi>(C)) C = W->getClobberingMemoryAccess(C, *L);
    };
    for (;;) {
      if (MSSA.isLiveOnEntryDef(C)) return nullptr;
      if (auto *P = dyn_cast<MemoryPhi>(C)) {
        auto it = from.find(P->getBlock());
        if (it == from.end()) return nullptr;
        C = P->getIncomingValueForBlock(it->second);
        again();
        continue;
      }
      auto *D = cast<MemoryDef>(C);
      if (D->getMemoryInst() && ignorable(*D->getMemoryInst())) {
        C = D->getDefiningAccess();
        again();
        continue;
      }
      return D;
    }
  }
  const MemoryDef *clobber(const Instruction *I) {
    MemoryAccess *MA = MSSA.getMemoryAccess(const_cast<Instruction *>(I));
    if (!MA) return nullptr;
    if (auto *LI = dyn_cast<LoadInst>(I)) {
      MemoryLocation L = MemoryLocation::get(LI);
      return settle(MSSA.getWalker()->getClobberingMemoryAccess(MA), &L);
    }
    return settle(MSSA.getWalker()->getClobberingMemoryAccess(MA), nullptr);
  }
  std::string defVer(const MemoryDef *D) {
    if (!D) return "m0";
    auto it = effVer.find(D->getMemoryInst());
    return it == effVer.end() ? "m?" : "m#" + it->second;
  }
  // the value a load sees, byte by byte, from the stores that precede it on this path
  Bits loaded(const Instruction *I, const std::pair<std::string, int64_t> &A, unsigned w) {
    unsigned n = w / 8, left = n;
    std::vector<bool> have(n, false);
    Bits r(w, bit0());
    auto *LI = cast<LoadInst>(I);
    MemoryLocation L = MemoryLocation::get(LI);
    auto *W = MSSA.getWalker();
    const MemoryDef *D = clobber(I);
    while (left && D) {
      auto *S = dyn_cast_or_null<StoreInst>(D->getMemoryInst());
      auto *MS = dyn_cast_or_null<MemSetInst>(D->getMemoryInst());
      int64_t lo, len;
      Bits b;
      if (S && !S->isVolatile() && bitTy(S->getValueOperand()->getType()) && width(S->getValueOperand()->getType()) % 8 == 0) {
        auto B = addr(S->getPointerOperand());
        if (B.first != A.first) break;
        lo = B.second;
        len = width(S->getValueOperand()->getType()) / 8;
        b = bits(S->getValueOperand());
      } else if (MS && isa<ConstantInt>(MS->getLength()) && !MS->isVolatile()) {
        auto B = addr(MS->getDest());
        if (B.first != A.first) break;
        lo = B.second;
        len = cast<ConstantInt>(MS->getLength())->getZExtValue();
        b = bits(MS->getValue());
      } else
        break;
      for (unsigned k = 0; k < n; k++) {
        int64_t o = A.second + k - lo;
        if (have[k] || o < 0 || o >= len) continue;
        for (unsigned i = 0; i < 8; i++) r[8 * k + i] = b[(MS ? 0 : 8 * o) + i];
        have[k] = true;
        left--;
      }
      MemoryAccess *C = D->getDefiningAccess();
      if (left && !MSSA.isLiveOnEntryDef(C) && !isa<MemoryPhi>(C)) C = W->getClobberingMemoryAccess(C, L);
      D = settle(C, &L);
    }
    if (left) {
      if (D && !keepLocal && dyn_cast_or_null<AllocaInst>(getUnderlyingObject(LI->getPointerOperand())) ) throw NeedLocal();
      std::string mv = defVer(D);
      for (unsigned k = 0; k < n; k++) {
        if (have[k]) continue;
        Bits x = opaqueBits(IN("mem(" + A.first + "+" + std::to_string(A.second + (int64_t)k) + "," + mv + ")"), 8);
        for (unsigned i = 0; i < 8; i++) r[8 * k + i] = x[i];
      }
    }
    return r;
  }

  // the canonical outcome on the environment's path; throws Env::Split when a predicate is undecided
  std::vector<std::string> outcome(bool &unreachable) {
    unreachable = false;
    struct Eff { const Instruction *I; int layer; };
    std::vector<Eff> effs;
    BasicBlock *BB = &F.getEntryBlock();
    const BasicBlock *prev = nullptr;
    std::string tail;
    for (;;) {
      if (prev) from[BB] = prev;
      for (auto &I : *BB) {
        if (!isEffect(&I)) continue;
        if (!keepLocal && isPrivate(&I)) continue;
        int layer = 0;
        for (auto &e : effs)
          if (!commute(e.I, &I)) layer = std::max(layer, e.layer + 1);
        if (!isa<StoreInst>(I))
          for (auto &e : effs) layer = std::max(layer, e.layer + 1);
        effs.push_back({&I, layer});
        std::string ver = std::to_string(layer);
        if (auto *S = dyn_cast<StoreInst>(&I)) ver += "@" + std::to_string(id(S->getPointerOperand()));
        effVer[&I] = ver;
      }
      Instruction *T = BB->getTerminator();
      BasicBlock *next = nullptr;
      if (auto *R = dyn_cast<ReturnInst>(T)) {
        tail = R->getReturnValue() ? "ret " + std::to_string(shown(R->getReturnValue())) : "ret";
        break;
      } else if (auto *B = dyn_cast<BranchInst>(T)) {
        next = B->isConditional() ? B->getSuccessor(decide(B->getCondition()) ? 0 : 1) : B->getSuccessor(0);
      } else if (auto *SW = dyn_cast<SwitchInst>(T)) {
        next = SW->getDefaultDest();
        Bits c = bits(SW->getCondition());
        std::vector<std::pair<uint64_t, BasicBlock *>> cs;
        for (auto &k : SW->cases()) cs.push_back({k.getCaseValue()->getZExtValue(), k.getCaseSuccessor()});
        std::sort(cs.begin(), cs.end(), [](auto &x, auto &y) { return x.first < y.first; });
        for (auto &k : cs) {
          Bits kb;
          for (unsigned i = 0; i < c.size(); i++) kb.push_back((k.first >> i) & 1 ? bit1() : bit0());
          if (relation(CmpInst::ICMP_EQ, c, kb)) { next = k.second; break; }
        }
      } else {
        unreachable = isa<UnreachableInst>(T);
        tail = T->getOpcodeName();
        break;
      }
      prev = BB;
      BB = next;
    }
    std::map<int, std::vector<std::string>> layers;
    for (auto &e : effs) {
      auto *S = dyn_cast<StoreInst>(e.I);
      if (S && !S->isVolatile() && bitTy(S->getValueOperand()->getType()) && width(S->getValueOperand()->getType()) % 8 == 0) {
        auto A = addr(S->getPointerOperand());
        Bits b = bits(S->getValueOperand());
        for (int &x : b) known(x);
        for (unsigned k = 0; k < b.size() / 8; k++) {
          char o[32];
          snprintf(o, sizeof o, "%020lld", (long long)(A.second + k + (1LL << 40)));
          layers[e.layer].push_back("st(" + A.first + "+" + o + "<-" + std::to_string(packN(Bits(b.begin() + 8 * k, b.begin() + 8 * k + 8))) + ")");
        }
      } else
        layers[e.layer].push_back(effStr(e.I));
    }
    std::vector<std::string> r;
    for (auto &l : layers) {
      std::sort(l.second.begin(), l.second.end());
      for (auto &x : l.second) r.push_back(x);
      r.push_back("--");
    }
    r.push_back(tail);
    return r;
  }
