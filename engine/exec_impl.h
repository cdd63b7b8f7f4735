// included by exec.cc
static const char* RET0[] = {"printf","fprintf","vfprintf","vprintf","puts","fputs","fputc","putchar","putc","fflush","fwrite","snprintf","sprintf","vsnprintf","vsprintf","fclose","setvbuf","perror",
  "__cxa_atexit","atexit","__cxa_thread_atexit","sched_yield","usleep","sleep","pthread_mutex_lock","pthread_mutex_unlock","__gthread_active_p","pthread_once","signal","gethostname","getpid",
  "_ZNSt6localeD1Ev","_ZNSt6localeD2Ev","_ZSt18uncaught_exceptionv","_ZSt19uncaught_exceptionsv","_ZNSt8ios_base20_M_dispose_callbacksEv","_ZNSt8ios_base17_M_call_callbacksENS_5eventE","_ZNSt8ios_base4InitC1Ev","_ZNSt8ios_base4InitD1Ev","_ZSt16__throw_bad_castv_",
  "_ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale","getenv","_ZNSt9exceptionD2Ev","_ZNSt9exceptionD1Ev","omp_get_thread_num",nullptr};
static const char* OSTREAM_FULL[] = { // formatted output on streams: no effect, returns the stream
  "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l","_ZNSo3putEc","_ZNSo5flushEv","_ZNSolsEi","_ZNSolsEj","_ZNSolsEl","_ZNSolsEm","_ZNSolsEd","_ZNSolsEf","_ZNSolsEs","_ZNSolsEt","_ZNSolsEb","_ZNSolsEx","_ZNSolsEy","_ZNSolsEe","_ZNSolsEPKv","_ZNSolsEPFRSoS_E",
  "_ZNSo9_M_insertIdEERSoT_","_ZNSo9_M_insertIlEERSoT_","_ZNSo9_M_insertImEERSoT_","_ZNSo9_M_insertIbEERSoT_","_ZNSo9_M_insertIPKvEERSoT_","_ZNSo9_M_insertIxEERSoT_","_ZNSo9_M_insertIyEERSoT_","_ZNSo9_M_insertIeEERSoT_",
  "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc","_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c","_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_","_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_",
  "_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE",nullptr};
void Engine::initBuiltins() {
  auto& b = bi;
  b["malloc"] = B_MALLOC; b["calloc"] = B_CALLOC; b["realloc"] = B_REALLOC; b["free"] = B_FREE; b["posix_memalign"] = B_POSIX_MEMALIGN; b["memalign"] = b["aligned_alloc"] = B_MEMALIGN;
  b["_Znwm"] = b["_ZnwmRKSt9nothrow_t"] = B_NEW; b["_Znam"] = b["_ZnamRKSt9nothrow_t"] = B_NEWA; b["_ZnwmSt11align_val_t"] = b["_ZnamSt11align_val_t"] = B_MEMALIGN;
  b["_ZdlPv"] = b["_ZdlPvm"] = B_DELETE; b["_ZdaPv"] = b["_ZdaPvm"] = B_DELETEA;
  b["memcpy"] = b["__memcpy_chk"] = B_MEMCPY; b["memmove"] = B_MEMMOVE; b["memset"] = B_MEMSET;
  b["abort"] = b["_ZSt9terminatev"] = b["__cxa_pure_virtual"] = b["__clang_call_terminate"] = B_ABORT; b["exit"] = b["_exit"] = b["_Exit"] = b["quick_exit"] = B_EXIT; b["__assert_fail"] = B_ASSERTFAIL;
  b["__cxa_throw"] = B_THROW; b["__cxa_rethrow"] = B_RETHROW; b["__cxa_begin_catch"] = B_BEGIN_CATCH; b["__cxa_end_catch"] = B_END_CATCH; b["__cxa_allocate_exception"] = B_ALLOC_EXC; b["__cxa_free_exception"] = B_FREE_EXC;
  b["sym_int"] = B_SYM_INT; b["sym_f32"] = B_SYM_F32; b["sym_f64"] = B_SYM_F64; b["sym_assume"] = B_SYM_ASSUME; b["sym_assert"] = B_SYM_ASSERT; b["sym_feq32"] = B_SYM_FEQ32; b["sym_feq64"] = B_SYM_FEQ64;
  b["sym_concrete"] = B_SYM_CONCRETE; b["sym_cover"] = B_SYM_COVER; b["sym_param"] = B_SYM_PARAM; b["sym_observe"] = B_SYM_OBSERVE; b["sym_observef"] = B_SYM_OBSERVEF; b["sym_allow_abort"] = B_SYM_ALLOW_ABORT; b["sym_fail"] = B_SYM_FAIL; b["sym_is_symbolic"] = B_SYM_ISSYM; b["sym_end"] = B_SYM_END; b["sym_alloc_at"] = B_SYM_ALLOC_AT; b["sym_trace"] = B_SYM_TRACE;
  for (int i = 0; RET0[i]; i++) b[RET0[i]] = B_RET0;
  for (const char* m : {"__kmpc_fork_call", "__kmpc_barrier", "__kmpc_critical", "__kmpc_end_critical", "__kmpc_global_thread_num", "__kmpc_for_static_init_4", "__kmpc_for_static_init_4u", "__kmpc_for_static_init_8", "__kmpc_for_static_init_8u", "__kmpc_for_static_fini", "__kmpc_master", "__kmpc_end_master", "__kmpc_single", "__kmpc_end_single", "omp_get_thread_num", "omp_get_num_threads", "omp_get_max_threads", "omp_in_parallel",
    "__kmpc_reduce", "__kmpc_reduce_nowait", "__kmpc_end_reduce", "__kmpc_end_reduce_nowait", "__kmpc_push_num_threads"}) b[m] = B_OMP;
  for (int i = 0; OSTREAM_FULL[i]; i++) b[OSTREAM_FULL[i]] = B_OSTREAM;
  for (const char* m : {"sqrt", "sin", "cos", "tan", "exp", "log", "log10", "asin", "acos", "atan", "sinh", "cosh", "tanh", "fabs", "floor", "ceil", "trunc", "rint", "nearbyint", "round"}) { b[m] = B_MATH1; b[std::string(m) + "f"] = B_MATH1; }
  for (const char* m : {"pow", "atan2", "fmod", "fmax", "fmin"}) { b[m] = B_MATH2; b[std::string(m) + "f"] = B_MATH2; }
}
int Engine::builtinFor(const std::string& n, bool hasBody) {
  auto it = bi.find(n);
  if (hasBody && (n == "_Znam" || n == "_ZnamRKSt9nothrow_t" || n == "_ZdaPv" || n == "_ZdaPvm")) return B_NONE; // replaced by the program
  if (it != bi.end()) return it->second;
  if (hasBody) return B_NONE;
  if (n.rfind("llvm.", 0) == 0) return B_NONE;
  if (n.find("__throw_") != std::string::npos) return B_STDTHROW;
  return B_UNSUPPORTED;
}
FnCode* Engine::compile(FnInfo* fi) {
  if (fi->code) return fi->code;
  const Function* F = fi->F; FnCode* fc = new FnCode; fc->info = fi;
  std::unordered_map<const Value*, uint32_t> slot; std::unordered_map<const BasicBlock*, uint32_t> bidx;
  for (auto& A : F->args()) { uint32_t n = nleaves(A.getType()); slot[&A] = fc->nslots; fc->args.push_back({fc->nslots, n}); fc->nslots += n; }
  uint32_t k = 0;
  for (auto& BB : *F) { bidx[&BB] = k++; for (auto& I : BB) { uint32_t n = nleaves(I.getType()); if (n) { slot[&I] = fc->nslots; fc->nslots += n; } } }
  std::unordered_map<const Value*, uint32_t> cidx;
  auto opn = [&](const Value* v) -> Opnd {
    if (auto* C = dyn_cast<Constant>(v)) { auto it = cidx.find(v); if (it != cidx.end()) return {true, it->second}; uint32_t i = fc->consts.size(); std::vector<Val> o; constVals(C, o); fc->consts.insert(fc->consts.end(), o.begin(), o.end()); cidx[v] = i; return {true, i}; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return {true, 0xffffffff};
    return {false, slot.at(v)}; };
  auto edge = [&](const BasicBlock* from, const BasicBlock* to) { Edge e; e.block = bidx[to];
    for (auto& P : to->phis()) e.copies.push_back({slot[&P], opn(P.getIncomingValueForBlock(from)), nleaves(P.getType())}); return e; };
  fc->blocks.resize(k);
  for (auto& BB : *F) for (auto& I : BB) {
    if (isa<PHINode>(I)) continue;
    if (auto* II = dyn_cast<IntrinsicInst>(&I)) { switch (II->getIntrinsicID()) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: continue; default: break; } }
    CInst c; c.I = &I; c.op = I.getOpcode(); auto si = slot.find(&I); if (si != slot.end()) c.dst = si->second; c.n = nleaves(I.getType());
    Type* ST = I.getType()->isVectorTy() ? cast<VectorType>(I.getType())->getElementType() : I.getType(); if (!ST->isVoidTy()) c.w = scalarW(ST);
    if (auto* CB = dyn_cast<CallBase>(&I)) {
      for (auto& A : CB->args()) { if (A->getType()->isMetadataTy()) { c.ops.push_back({true, 0xffffffff}); c.argn.push_back(0); } else { c.ops.push_back(opn(A)); c.argn.push_back(nleaves(A->getType())); } }
      const Value* cv = CB->getCalledOperand()->stripPointerCasts();
      if (auto* GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliasee()->stripPointerCasts();
      if (auto* CF = dyn_cast<Function>(cv)) { c.callee = info(CF); c.iid = CF->getIntrinsicID(); }
      else c.aux.push_back(0), c.edges.reserve(2), c.ops.push_back(opn(CB->getCalledOperand()));
      if (auto* IV = dyn_cast<InvokeInst>(&I)) { c.edges.push_back(edge(&BB, IV->getNormalDest())); c.edges.push_back(edge(&BB, IV->getUnwindDest())); }
    } else switch (I.getOpcode()) {
      case Instruction::Br: { auto* B = cast<BranchInst>(&I); if (B->isConditional()) c.ops.push_back(opn(B->getCondition())); for (unsigned i = 0; i < B->getNumSuccessors(); i++) c.edges.push_back(edge(&BB, B->getSuccessor(i))); break; }
      case Instruction::Switch: { auto* W = cast<SwitchInst>(&I); c.ops.push_back(opn(W->getCondition())); c.w = scalarW(W->getCondition()->getType()); c.edges.push_back(edge(&BB, W->getDefaultDest())); for (auto& cs : W->cases()) { c.aux64.push_back(cs.getCaseValue()->getZExtValue()); c.edges.push_back(edge(&BB, cs.getCaseSuccessor())); } break; }
      case Instruction::GetElementPtr: { auto* G = cast<GetElementPtrInst>(&I); if (c.n != 1) throw Stop{"vector gep"}; c.ops.push_back(opn(G->getPointerOperand())); uint64_t off = 0;
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) { if (auto* STy = gi.getStructTypeOrNull()) { off += DL->getStructLayout(STy)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); }
          else { uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* CI = dyn_cast<ConstantInt>(gi.getOperand())) off += CI->getSExtValue() * sz; else { c.ops.push_back(opn(gi.getOperand())); c.aux64.push_back(sz); c.aux.push_back(scalarW(gi.getOperand()->getType())); } } }
        c.aux64.push_back(off); break; }
      case Instruction::ExtractValue: case Instruction::InsertValue: {
        ArrayRef<unsigned> idx = isa<ExtractValueInst>(I) ? cast<ExtractValueInst>(I).getIndices() : cast<InsertValueInst>(I).getIndices(); Type* T = I.getOperand(0)->getType(); uint32_t o = 0;
        for (unsigned x : idx) { if (auto* S2 = dyn_cast<StructType>(T)) { for (unsigned q = 0; q < x; q++) o += nleaves(S2->getElementType(q)); T = S2->getElementType(x); } else { T = cast<ArrayType>(T)->getElementType(); o += x * nleaves(T); } }
        c.aux.push_back(o); c.aux.push_back(nleaves(T)); for (auto& O : I.operands()) c.ops.push_back(opn(O)); break; }
      case Instruction::ShuffleVector: { auto* SV = cast<ShuffleVectorInst>(&I); c.ops.push_back(opn(SV->getOperand(0))); c.ops.push_back(opn(SV->getOperand(1))); c.aux.push_back(nleaves(SV->getOperand(0)->getType())); for (int m : SV->getShuffleMask()) c.aux.push_back((uint32_t)m); break; }
      case Instruction::LandingPad: break;
      default: for (auto& O : I.operands()) c.ops.push_back(opn(O)); break;
    }
    fc->blocks[bidx[&BB]].push_back(std::move(c));
  }
  fi->code = fc; return fc;
}
Val Engine::binop(State* s, unsigned opc, unsigned w, Val a, Val b) {
  Op op;
  switch (opc) { case Instruction::Add: op = E_ADD; break; case Instruction::Sub: op = E_SUB; break; case Instruction::Mul: op = E_MUL; break; case Instruction::UDiv: op = E_UDIV; break; case Instruction::SDiv: op = E_SDIV; break;
    case Instruction::URem: op = E_UREM; break; case Instruction::SRem: op = E_SREM; break; case Instruction::And: op = E_AND; break; case Instruction::Or: op = E_OR; break; case Instruction::Xor: op = E_XOR; break;
    case Instruction::Shl: op = E_SHL; break; case Instruction::LShr: op = E_LSHR; break; case Instruction::AShr: op = E_ASHR; break; default: throw Stop{"binop"}; }
  if (op == E_UDIV || op == E_SDIV || op == E_UREM || op == E_SREM) {
    if (!b.e) { if (!b.c) violate("div0", "integer division by zero"); }
    else { ER z = mkEq(b.e, mkConst(0, w)); Model m; Res r = S->check(s->pc, z, &m);
      if (r == R_SAT) { State* sv = cur; State* t = clone(s); t->pc.push_back(z); merge(t, m); cur = t; report("div0", "integer division by zero"); cur = sv; delete t; constrain(s, mkNot(z)); } }
  }
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c, M = maskw(w);
    switch (op) { case E_ADD: return CV((x + y) & M); case E_SUB: return CV((x - y) & M); case E_MUL: return CV((x * y) & M); case E_AND: return CV(x & y); case E_OR: return CV(x | y); case E_XOR: return CV(x ^ y);
      case E_SHL: return CV(y >= w ? 0 : (x << y) & M); case E_LSHR: return CV(y >= w ? 0 : x >> y); default: { bool ok = true; return CV(evalOp(op, w, 0, w, x, w, y, 0, ok)); } }
  }
  return fromE(mkBin(op, toE(a, w), toE(b, w)));
}
Val Engine::fpop(Op op, unsigned w, unsigned wa, Val a, Val b, uint64_t imm, bool two) {
  if (wa == 80 || w == 80) throw Stop{"x87 arithmetic"};
  if (!a.e && (!two || !b.e)) { bool ok = true; uint64_t r = evalOp(op, w, imm, wa, a.c, wa, b.c, 0, ok); if (ok) return CV(r); }
  return fromE(mk(op, w, toE(a, wa), two ? toE(b, wa) : nullptr, nullptr, imm));
}
Val Engine::cast_(unsigned opc, Val a, unsigned ws, unsigned wd) {
  switch (opc) {
    case Instruction::Trunc: if (!a.e) return CV(a.c & maskw(wd)); return fromE(mkExtract(a.e, 0, wd));
    case Instruction::ZExt: if (!a.e && wd <= 64) return a; return fromE(mkZext(toE(a, ws), wd));
    case Instruction::SExt: if (!a.e && wd <= 64) return CV((uint64_t)sextw(a.c, ws) & maskw(wd)); return fromE(mkSext(toE(a, ws), wd));
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: if (wd < ws) return cast_(Instruction::Trunc, a, ws, wd); if (wd > ws) return cast_(Instruction::ZExt, a, ws, wd); return a;
    case Instruction::FPExt: return fpop(E_FEXT, wd, ws, a, a, 0, false); case Instruction::FPTrunc: return fpop(E_FTRUNC, wd, ws, a, a, 0, false);
    case Instruction::SIToFP: return fpop(E_SITOFP, wd, ws, a, a, 0, false); case Instruction::UIToFP: return fpop(E_UITOFP, wd, ws, a, a, 0, false);
    case Instruction::FPToSI: return fpop(E_FPTOSI, wd, ws, a, a, 0, false); case Instruction::FPToUI: return fpop(E_FPTOUI, wd, ws, a, a, 0, false);
    default: throw Stop{"cast"};
  }
}
static Val cmpInt(unsigned pred, unsigned w, Val a, Val b) {
  if (!a.e && !b.e) { uint64_t x = a.c, y = b.c; int64_t p = sextw(x, w), q = sextw(y, w);
    switch (pred) { case CmpInst::ICMP_EQ: return CV(x == y); case CmpInst::ICMP_NE: return CV(x != y); case CmpInst::ICMP_ULT: return CV(x < y); case CmpInst::ICMP_ULE: return CV(x <= y); case CmpInst::ICMP_UGT: return CV(x > y); case CmpInst::ICMP_UGE: return CV(x >= y);
      case CmpInst::ICMP_SLT: return CV(p < q); case CmpInst::ICMP_SLE: return CV(p <= q); case CmpInst::ICMP_SGT: return CV(p > q); default: return CV(p >= q); } }
  ER x = Engine::toE(a, w), y = Engine::toE(b, w), r;
  switch (pred) { case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break; case CmpInst::ICMP_ULT: r = mk(E_ULT, 1, x, y); break; case CmpInst::ICMP_ULE: r = mk(E_ULE, 1, x, y); break;
    case CmpInst::ICMP_UGT: r = mk(E_ULT, 1, y, x); break; case CmpInst::ICMP_UGE: r = mk(E_ULE, 1, y, x); break; case CmpInst::ICMP_SLT: r = mk(E_SLT, 1, x, y); break; case CmpInst::ICMP_SLE: r = mk(E_SLE, 1, x, y); break;
    case CmpInst::ICMP_SGT: r = mk(E_SLT, 1, y, x); break; default: r = mk(E_SLE, 1, y, x); break; }
  return Engine::fromE(r);
}
static Val cmpFP(unsigned pred, unsigned w, Val a, Val b) {
  ER x = Engine::toE(a, w), y = Engine::toE(b, w), r;
  auto eq = [&] { return mk(E_FOEQ, 1, x, y); }; auto uno = [&] { return mk(E_FUNO, 1, x, y); };
  switch (pred) {
    case CmpInst::FCMP_FALSE: r = mkConst(0, 1); break; case CmpInst::FCMP_TRUE: r = mkConst(1, 1); break;
    case CmpInst::FCMP_OEQ: r = eq(); break; case CmpInst::FCMP_UNE: r = mkNot(eq()); break;
    case CmpInst::FCMP_OLT: r = mk(E_FOLT, 1, x, y); break; case CmpInst::FCMP_OLE: r = mk(E_FOLE, 1, x, y); break; case CmpInst::FCMP_OGT: r = mk(E_FOLT, 1, y, x); break; case CmpInst::FCMP_OGE: r = mk(E_FOLE, 1, y, x); break;
    case CmpInst::FCMP_UGE: r = mkNot(mk(E_FOLT, 1, x, y)); break; case CmpInst::FCMP_UGT: r = mkNot(mk(E_FOLE, 1, x, y)); break; case CmpInst::FCMP_ULE: r = mkNot(mk(E_FOLT, 1, y, x)); break; case CmpInst::FCMP_ULT: r = mkNot(mk(E_FOLE, 1, y, x)); break;
    case CmpInst::FCMP_UNO: r = uno(); break; case CmpInst::FCMP_ORD: r = mkNot(uno()); break;
    case CmpInst::FCMP_ONE: r = mkAnd1(mkNot(eq()), mkNot(uno())); break; case CmpInst::FCMP_UEQ: r = mkOr1(eq(), uno()); break;
    default: throw Stop{"fcmp"}; }
  return Engine::fromE(r);
}
void Engine::takeEdge(State* s, Frame& f, const Edge& e) {
  if (!e.copies.empty()) {
    Val tmp[64]; std::vector<Val> big; Val* t = tmp; uint32_t tot = 0; for (auto& c : e.copies) tot += c.n; if (tot > 64) { big.resize(tot); t = big.data(); }
    uint32_t k = 0; for (auto& c : e.copies) { const Val* src = c.src.k ? &f.fn->consts[c.src.i] : &s->regs[f.base + c.src.i]; for (uint32_t i = 0; i < c.n; i++) t[k++] = src[i]; }
    k = 0; for (auto& c : e.copies) for (uint32_t i = 0; i < c.n; i++) s->regs[f.base + c.dst + i] = t[k++];
  }
  f.block = e.block; f.ip = 0;
}
void Engine::pushCall(State* s, FnInfo* f, const std::vector<Val>& args, const std::vector<Val>& va) {
  FnCode* c = compile(f); f->calls++;
  if (s->frames.size() > 4000) violate("recursion", "call depth exceeds 4000");
  Frame fr; fr.fn = c; fr.base = s->regs.size(); fr.block = 0; fr.ip = 0; fr.stackMark = s->stack.size(); fr.stackTop = s->stackTop; fr.va = va;
  s->regs.resize(fr.base + c->nslots, CV(0));
  uint32_t k = 0; for (auto& a : c->args) for (uint32_t i = 0; i < a.second; i++) { s->regs[fr.base + a.first + i] = k < args.size() ? args[k] : CV(0); k++; }
  s->frames.push_back(std::move(fr));
}
void Engine::doReturn(State* s, std::vector<Val>& rv) {
  Frame& f = s->frames.back(); s->stack.resize(f.stackMark); s->stackTop = f.stackTop; s->regs.resize(f.base); s->frames.pop_back();
  if (s->frames.empty()) { if (s->par.active) { s->par.th[s->par.cur].status = 2; ompSchedule(s); return; } throw PathEnd(); }
  Frame& c = s->frames.back(); CInst& ci = c.fn->blocks[c.block][c.ip];
  for (uint32_t i = 0; i < ci.n && i < rv.size(); i++) s->regs[c.base + ci.dst + i] = rv[i];
  if (ci.op == Instruction::Invoke) takeEdge(s, c, ci.edges[0]); else c.ip++;
}
void Engine::doThrow(State* s) {
  // unwind from the current instruction of the top frame
  bool first = true;
  while (!s->frames.empty()) {
    Frame& f = s->frames.back(); CInst& ci = f.fn->blocks[f.block][f.ip];
    if (ci.op == Instruction::Invoke && (!first || true)) {
      // does the landing pad accept?
      const auto* LP = cast<InvokeInst>(ci.I)->getUnwindDest()->getLandingPadInst(); bool take = LP->isCleanup(); 
      for (unsigned i = 0; i < LP->getNumClauses() && !take; i++) if (LP->isCatch(i)) { auto* C = LP->getClause(i); if (isa<ConstantPointerNull>(C)) take = true; else { std::vector<Val> v; constVals(C, v); if (v[0].c == s->excType) take = true; } }
      if (take) { takeEdge(s, f, ci.edges[1]); return; }
    }
    first = false;
    s->stack.resize(f.stackMark); s->stackTop = f.stackTop; s->regs.resize(f.base); s->frames.pop_back();
  }
  aborted++; if (!s->allowAbort) { State* sv = cur; cur = s; report("abort", "uncaught exception"); cur = sv; }
  throw PathEnd();
}
// run thread `to`: the state's frames, registers and stack are the running thread's
void Engine::ompSwitch(State* s, int to) {
  auto swp = [&](ThreadCtx& t) { std::swap(s->frames, t.frames); std::swap(s->regs, t.regs); std::swap(s->stack, t.stack); std::swap(s->stackTop, t.stackTop); std::swap(s->excPtr, t.excPtr); std::swap(s->excType, t.excType); std::swap(s->caught, t.caught); };
  swp(s->par.cur < 0 ? s->par.outer : s->par.th[s->par.cur]); s->par.cur = to; swp(to < 0 ? s->par.outer : s->par.th[to]);
}
// the next thread in the schedule that can run; at a barrier all threads meet; when all have finished the region ends
bool Engine::ompSchedule(State* s) {
  Par& P = s->par;
  for (;;) {
    for (int t : P.order) if (P.th[t].status == 0) { ompSwitch(s, t); return true; }
    bool done = true, waiting = true; for (auto& t : P.th) { if (t.status != 2) done = false; else waiting = false; }
    if (done) { ompSwitch(s, -1); P = Par(); Frame& g = s->frames.back(); CInst& ci = g.fn->blocks[g.block][g.ip]; if (ci.op == Instruction::Invoke) takeEdge(s, g, ci.edges[0]); else g.ip++; return false; }
    if (!waiting) violate("loop", "a thread waits at a barrier that another thread never reaches");
    for (auto& t : P.th) t.status = 0; P.log.clear();
  }
}
bool Engine::ompCall(State* s, CInst& ci, FnInfo* f, std::vector<Val>& a, Val* ret) {
  auto cc = [&](int i, unsigned w = 64) { return concrete(s, a[i], w); }; const std::string& n = f->name; Par& P = s->par;
  auto par = [&](const char* k, int d) { auto it = params.find(k); return it == params.end() ? d : (int)it->second; };
  if (n == "omp_get_max_threads") { ret[0] = CV(par("threads", 3)); return true; }
  if (n == "omp_get_num_threads") { ret[0] = CV(P.active ? P.T : 1); return true; }
  if (n == "omp_get_thread_num" || n == "__kmpc_global_thread_num") { ret[0] = CV(P.active ? P.cur : 0); return true; }
  if (n == "omp_in_parallel") { ret[0] = CV(P.active); return true; }
  if (n == "__kmpc_fork_call") {
    if (P.active) throw Stop{"nested parallel region"};
    uint64_t fa = cc(2); auto it = fnByAddr.find(fa); if (it == fnByAddr.end()) violate("memory", "call through an invalid function pointer");
    int T = par("threads", 3), sched = par("sched", 0); P.T = T; std::vector<int> o(T); for (int i = 0; i < T; i++) o[i] = i; while (sched-- > 0) std::next_permutation(o.begin(), o.end()); P.order = o; ompRegions++;
    P.cur = -1; P.active = true; P.th.resize(T);
    // the outer program is set aside; each thread starts in the outlined body with its own stack
    for (int t = 0; t < T; t++) { s->par.th[t].stackTop = STACK_BASE + (t + 1) * THR_STACK; ompSwitch(s, t);
      uint64_t at = s->stackTop + 16; MemObj* m = new MemObj(at, 8, OK_STACK, false); memset(m->data, 0, 8); m->data[0] = t; s->stack.push_back(ObjRef(m)); s->stackTop = at + 64;
      std::vector<Val> args = {CV(at), CV(at + 4)}; args.insert(args.end(), a.begin() + 3, a.end()); memset(m->data + 4, 0, 4);
      pushCall(s, it->second, args, {}); }
    ompSchedule(s); return false; }
  if (n == "__kmpc_barrier") { if (!P.active) return true; Frame& g = s->frames.back(); if (ci.op == Instruction::Invoke) takeEdge(s, g, ci.edges[0]); else g.ip++; P.th[P.cur].status = 1; ompSchedule(s); return false; }
  if (n == "__kmpc_critical") { if (P.lock) violate("loop", "a critical section is entered inside another one"); P.lock = cc(2); return true; }
  if (n == "__kmpc_end_critical") { P.lock = 0; return true; }
  if (n == "__kmpc_for_static_fini" || n == "__kmpc_end_master" || n == "__kmpc_end_single") return true;
  if (n == "__kmpc_master") { ret[0] = CV(!P.active || P.cur == 0); return true; }
  if (n == "__kmpc_reduce" || n == "__kmpc_reduce_nowait") { P.lock = 2; ret[0] = CV(1); return true; }
  if (n == "__kmpc_end_reduce_nowait") { P.lock = 0; return true; }
  if (n == "__kmpc_end_reduce") { P.lock = 0; if (!P.active) return true; Frame& g = s->frames.back(); g.ip++; P.th[P.cur].status = 1; ompSchedule(s); return false; }
  if (n.compare(0, 23, "__kmpc_for_static_init_") == 0) { // (loc, gtid, schedule, *last, *lower, *upper, *stride, incr, chunk)
    bool big = n[23] == '8'; bool uns = n.size() > 24; unsigned w = big ? 64 : 32, by = w / 8; uint64_t sch = cc(2, 32); if (sch != 34) throw Stop{"OpenMP schedule " + std::to_string(sch)};
    auto get = [&](int i) { int64_t v = (int64_t)concrete(s, load(s, CV(cc(i)), w, by), w); return uns ? v : (int64_t)sextw((uint64_t)v, w); };
    int64_t lo = get(4), hi = get(5), inc = (int64_t)sextw(cc(7, w), w); int64_t T = P.active ? P.T : 1, id = P.active ? P.cur : 0;
    int64_t trip = inc > 0 ? (hi < lo ? 0 : (hi - lo) / inc + 1) : (lo < hi ? 0 : (lo - hi) / -inc + 1);
    int64_t small = trip / T, extra = trip % T, my = small + (id < extra), first = id * small + std::min(id, extra);
    int64_t nlo = lo + first * inc, nhi = nlo + (my - 1) * inc;   // an empty share has its upper end before its lower one
    store(s, CV(cc(4)), w, by, CV((uint64_t)nlo & maskw(w))); store(s, CV(cc(5)), w, by, CV((uint64_t)nhi & maskw(w))); store(s, CV(cc(6)), w, by, CV((uint64_t)(trip * inc) & maskw(w)));
    if (cc(3)) store(s, CV(cc(3)), 32, 4, CV(my > 0 && first + my == trip)); return true; }
  throw Stop{"call of external function " + n};
}
bool Engine::callBuiltin(State* s, CInst& ci, FnInfo* f, std::vector<Val>& a, Val* ret, uint32_t nret) {
  auto cc = [&](int i, unsigned w = 64) { return concrete(s, a[i], w); };
  switch (f->builtin) {
    case B_RET0: case B_VOID: if (nret) ret[0] = CV(0); return true;
    case B_RETARG0: case B_OSTREAM: if (nret) ret[0] = a[0]; return true;
    case B_MALLOC: ret[0] = CV(allocHeap(s, cc(0), 1, 16, false)); return true;
    case B_NEW: ret[0] = CV(allocHeap(s, cc(0), 2, 16, false)); return true;
    case B_NEWA: { uint64_t n = cc(0); if (n > (1ull << 34)) violate("alloc", "array allocation of an absurd size (negative or overflowed length)"); ret[0] = CV(allocHeap(s, n, 3, 16, false)); return true; }
    case B_MEMALIGN: { bool alignFirst = f->name == "memalign" || f->name == "aligned_alloc"; uint64_t n = cc(alignFirst ? 1 : 0), al = cc(alignFirst ? 0 : 1); ret[0] = CV(allocHeap(s, n, alignFirst ? 1 : 2, al, false)); return true; }
    case B_POSIX_MEMALIGN: { uint64_t p = cc(0), al = cc(1), n = cc(2); store(s, CV(p), 64, 8, CV(allocHeap(s, n, 1, al, false))); ret[0] = CV(0); return true; }
    case B_CALLOC: ret[0] = CV(allocHeap(s, cc(0) * cc(1), 1, 16, true)); return true;
    case B_REALLOC: { uint64_t p = cc(0), n = cc(1); uint64_t q = allocHeap(s, n, 1, 16, false); if (p) { ObjRef* r = find(s, p); copyMem(s, q, p, std::min(n, r->p->size)); freeHeap(s, p, 1); } ret[0] = CV(q); return true; }
    case B_FREE: freeHeap(s, cc(0), 1); return true;
    case B_DELETE: freeHeap(s, cc(0), 2); return true;
    case B_DELETEA: freeHeap(s, cc(0), 3); return true;
    case B_MEMCPY: case B_MEMMOVE: copyMem(s, cc(0), cc(1), cc(2)); ret[0] = a[0]; return true;
    case B_MEMSET: { uint64_t d = cc(0), n = cc(2); Val v = a[1]; if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.c &= 255; if (n) { MemObj* o = access(s, d, n, true); if (!v.e) { memset(o->data + (d - o->addr), v.c, n); if (o->st) memset(o->st + (d - o->addr), 0, n); } else for (uint64_t i = 0; i < n; i++) writeObj(o, d - o->addr + i, 8, 1, v); } if (nret) ret[0] = a[0]; return true; }
    case B_ABORT: case B_STDTHROW: case B_ASSERTFAIL: aborted++; if (!s->allowAbort) report("abort", f->builtin == B_ABORT ? "abnormal termination" : "library error: " + f->name); throw PathEnd();
    case B_EXIT: aborted++; if (!s->allowAbort) report("abort", "program exit"); throw PathEnd();
    case B_ALLOC_EXC: ret[0] = CV(allocHeap(s, cc(0), 9, 16, true)); return true;
    case B_FREE_EXC: return true;
    case B_THROW: s->excPtr = cc(0); s->excType = cc(1); doThrow(s); return false;
    case B_RETHROW: if (s->caught.empty()) violate("abort", "rethrow without exception"); s->excPtr = s->caught.back().first; s->excType = s->caught.back().second; doThrow(s); return false;
    case B_BEGIN_CATCH: s->caught.push_back({s->excPtr, s->excType}); ret[0] = CV(s->excPtr); return true;
    case B_END_CATCH: if (!s->caught.empty()) s->caught.pop_back(); return true;
    case B_OMP: return ompCall(s, ci, f, a, ret);
    // ---- harness interface ----
    case B_SYM_INT: { std::string n = cstr(s, cc(0)); unsigned w = cc(1); ER e = mkSym(n, w, 0); s->symOrder.push_back(e->imm); ret[0] = fromE(mkZext(e, 64)); return true; }
    case B_SYM_F32: { std::string n = cstr(s, cc(0)); ER e = mkSym(n, 32, 1); s->symOrder.push_back(e->imm); ret[0] = Val{e, 0}; return true; }
    case B_SYM_F64: { std::string n = cstr(s, cc(0)); ER e = mkSym(n, 64, 2); s->symOrder.push_back(e->imm); ret[0] = Val{e, 0}; return true; }
    case B_SYM_ASSUME: { ER c = mkNot(mkEq(toE(a[0], 32), mkConst(0, 32))); if (c->isConst()) { if (!c->imm) { infeasible++; s->maybeInfeasible = true; throw PathEnd(); } return true; }
      if (s->modelOk) { Evaluator ev(s->model); if ((ev.eval(c) & 1) && ev.ok) { s->pc.push_back(c); return true; } }
      Model m; Res r = S->check(s->pc, c, &m); if (r == R_UNSAT) { infeasible++; s->maybeInfeasible = true; throw PathEnd(); } s->pc.push_back(c); if (r == R_SAT) merge(s, m); else { s->maybeInfeasible = true; s->modelOk = false; } return true; }
    case B_SYM_ASSERT: { ER c = mkNot(mkEq(toE(a[0], 32), mkConst(0, 32))); doAssert(s, c, cstr(s, cc(1))); return true; }
    case B_SYM_FEQ32: case B_SYM_FEQ64: { unsigned w = f->builtin == B_SYM_FEQ32 ? 32 : 64; ER x = toE(a[0], w), y = toE(a[1], w);
      if (x == y) { std::string m = cstr(s, cc(2)); assertSites[m]++; assertsFolded++; return true; }
      ER c = mode == M_REAL ? mk(E_FOEQ, 1, x, y) : mkOr1(mkEq(x, y), mkAnd1(mk(E_FUNO, 1, x, x), mk(E_FUNO, 1, y, y)));
      if (x->isConst() && y->isConst() && !(c->isConst() && c->imm)) { double p = w == 32 ? b2f(x->imm) : b2d(x->imm), q = w == 32 ? b2f(y->imm) : b2d(y->imm); if (fabs(p - q) <= 1e-6 * (1 + fabs(p))) c = mkConst(1, 1); }
      doAssert(s, c, cstr(s, cc(2))); return true; }
    case B_SYM_CONCRETE: ret[0] = CV(concrete(s, a[0], 64)); return true;
    case B_SYM_COVER: { std::string n = cstr(s, cc(0)); s->covers.insert(n); return true; }
    case B_SYM_PARAM: { std::string n = cstr(s, cc(0)); auto it = params.find(n); ret[0] = it == params.end() ? a[1] : CV((uint64_t)it->second); return true; }
    case B_SYM_OBSERVE: s->observed.push_back({cstr(s, cc(0)), a[1]}); s->observedKind.push_back(0); return true;
    case B_SYM_OBSERVEF: s->observed.push_back({cstr(s, cc(0)), a[1]}); s->observedKind.push_back(1); return true;
    case B_SYM_ALLOW_ABORT: s->allowAbort = cc(0, 32); return true;
    case B_SYM_FAIL: violate("assert", cstr(s, cc(0)));
    case B_SYM_ISSYM: ret[0] = CV(1); return true;
    case B_SYM_END: throw PathEnd();
    case B_SYM_TRACE: fprintf(stderr, "trace %s: %s\n", cstr(s, cc(0)).c_str(), a[1].e ? exprStr(a[1].e, 6).c_str() : std::to_string(a[1].c).c_str()); return true;
    case B_SYM_ALLOC_AT: { uint64_t n = cc(0), mod = cc(1), rem = cc(2); uint64_t at = (s->heapTop + mod - 1) / mod * mod + rem; MemObj* o = new MemObj(at, n, OK_HEAP, true); o->allocKind = 3; s->heap.push_back(ObjRef(o)); s->heapTop = (at + n + 64 + 15) / 16 * 16; ret[0] = CV(at); return true; }
    case B_MATH1: case B_MATH2: {
      unsigned w = ci.w; std::string n = f->name; if (w == 32) n.pop_back();
      if (n == "sqrt") ret[0] = fpop(E_FSQRT, w, w, a[0], a[0], 0, false); else if (n == "fabs") ret[0] = fpop(E_FABS, w, w, a[0], a[0], 0, false);
      else if (n == "floor" || n == "ceil" || n == "trunc" || n == "rint" || n == "nearbyint" || n == "round") ret[0] = fpop(E_FROUND, w, w, a[0], a[0], n == "floor" ? 0 : n == "ceil" ? 1 : n == "trunc" ? 2 : n == "round" ? 4 : 3, false);
      else if (n == "fmod") ret[0] = fpop(E_FREM, w, w, a[0], a[1]);
      else if (n == "fmax" || n == "fmin") { Val c = cmpFP(n == "fmax" ? CmpInst::FCMP_OLT : CmpInst::FCMP_OLT, w, n == "fmax" ? a[0] : a[1], n == "fmax" ? a[1] : a[0]); ret[0] = fromE(mkIte(toE(c, 1), toE(a[1], w), toE(a[0], w))); }
      else { uint64_t id = std::find(g_ufs.begin(), g_ufs.end(), n) - g_ufs.begin(); if (id == g_ufs.size()) g_ufs.push_back(n); ret[0] = fpop(E_FUF, w, w, a[0], f->builtin == B_MATH2 ? a[1] : a[0], id, f->builtin == B_MATH2); }
      return true; }
    default: break;
  }
  throw Stop{"call of external function " + llvm::demangle(f->name)};
}
bool Engine::intrinsic(State* s, CInst& ci, std::vector<Val>& a) {
  Frame& f = s->frames.back(); Val* R = &s->regs[f.base + ci.dst]; unsigned w = ci.w, n = ci.n;
  auto cc = [&](int i, unsigned ww = 64) { return concrete(s, a[i], ww); };
  auto ite = [&](Val c, Val x, Val y, unsigned ww) { if (!c.e) return c.c ? x : y; return fromE(mkIte(c.e, toE(x, ww), toE(y, ww))); };
  switch (ci.iid) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(s, cc(0), cc(1), cc(2)); return true;
    case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t d = cc(0), len = cc(2); Val v = a[1]; if (len) { MemObj* o = access(s, d, len, true); if (!v.e) { memset(o->data + (d - o->addr), v.c, len); if (o->st) memset(o->st + (d - o->addr), 0, len); } else for (uint64_t i = 0; i < len; i++) writeObj(o, d - o->addr + i, 8, 1, v); } return true; }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin:
      for (unsigned i = 0; i < n; i++) { Val c = cmpInt(ci.iid == Intrinsic::smax ? CmpInst::ICMP_SGT : ci.iid == Intrinsic::smin ? CmpInst::ICMP_SLT : ci.iid == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT, w, a[i], a[n + i]); R[i] = ite(c, a[i], a[n + i], w); } return true;
    case Intrinsic::abs: for (unsigned i = 0; i < n; i++) { Val c = cmpInt(CmpInst::ICMP_SLT, w, a[i], CV(0)); R[i] = ite(c, binop(s, Instruction::Sub, w, CV(0), a[i]), a[i], w); } return true;
    case Intrinsic::bswap: for (unsigned i = 0; i < n; i++) { if (!a[i].e) { uint64_t x = __builtin_bswap64(a[i].c) >> (64 - w); R[i] = CV(x); } else { ER r = nullptr; for (unsigned k = 0; k < w / 8; k++) { ER b = mkExtract(a[i].e, 8 * k, 8); r = r ? mkConcat(r, b) : b; } R[i] = fromE(r); } } return true;
    case Intrinsic::bitreverse: for (unsigned i = 0; i < n; i++) { ER e = toE(a[i], w), r = nullptr; for (unsigned k = 0; k < w; k++) { ER b = mkExtract(e, k, 1); r = r ? mkConcat(r, b) : b; } R[i] = fromE(r); } return true;
    case Intrinsic::ctpop: for (unsigned i = 0; i < n; i++) { if (!a[i].e) { R[i] = CV(__builtin_popcountll(a[i].c)); continue; } ER r = mkConst(0, w); for (unsigned k = 0; k < w; k++) r = mkBin(E_ADD, r, mkZext(mkExtract(a[i].e, k, 1), w)); R[i] = fromE(r); } return true;
    case Intrinsic::ctlz: case Intrinsic::cttz: for (unsigned i = 0; i < n; i++) { ER e = toE(a[i], w), r = mkConst(w, w); for (unsigned k = 0; k < w; k++) { unsigned bit = ci.iid == Intrinsic::ctlz ? k : w - 1 - k; r = mkIte(mkExtract(e, bit, 1), mkConst(ci.iid == Intrinsic::ctlz ? w - 1 - k : w - 1 - k, w), r); } 
        if (ci.iid == Intrinsic::ctlz) { r = mkConst(w, w); for (unsigned k = 0; k < w; k++) r = mkIte(mkExtract(e, k, 1), mkConst(w - 1 - k, w), r); } else { r = mkConst(w, w); for (int k = w - 1; k >= 0; k--) r = mkIte(mkExtract(e, k, 1), mkConst(k, w), r); }
        R[i] = fromE(r); } return true;
    case Intrinsic::fshl: case Intrinsic::fshr: for (unsigned i = 0; i < n; i++) { ER c = toE(a[i], w), d = toE(a[n + i], w); uint64_t sh = cc(2 * n + i, w) % w; bool left = ci.iid == Intrinsic::fshl; ER cat = mkConcat(c, d); if (left) R[i] = fromE(sh ? mkExtract(cat, w - sh, w) : c); else R[i] = fromE(mkExtract(cat, sh, w)); } return true;
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned ww = leaves(ci.I->getOperand(0)->getType())[0].w; bool sg = ci.iid == Intrinsic::sadd_with_overflow || ci.iid == Intrinsic::ssub_with_overflow || ci.iid == Intrinsic::smul_with_overflow;
      Op op = (ci.iid == Intrinsic::uadd_with_overflow || ci.iid == Intrinsic::sadd_with_overflow) ? E_ADD : (ci.iid == Intrinsic::usub_with_overflow || ci.iid == Intrinsic::ssub_with_overflow) ? E_SUB : E_MUL;
      unsigned W = op == E_MUL ? 2 * ww : ww + 2; ER x = sg ? mkSext(toE(a[0], ww), W) : mkZext(toE(a[0], ww), W), y = sg ? mkSext(toE(a[1], ww), W) : mkZext(toE(a[1], ww), W);
      ER full = mkBin(op, x, y), tr = mkExtract(full, 0, ww); ER back = sg ? mkSext(tr, W) : mkZext(tr, W); R[0] = fromE(mkBin(op, toE(a[0], ww), toE(a[1], ww))); R[1] = fromE(mkNot(mkEq(full, back))); return true; }
    case Intrinsic::usub_sat: for (unsigned i = 0; i < n; i++) { Val c = cmpInt(CmpInst::ICMP_ULT, w, a[i], a[n + i]); R[i] = ite(c, CV(0), binop(s, Instruction::Sub, w, a[i], a[n + i]), w); } return true;
    case Intrinsic::uadd_sat: for (unsigned i = 0; i < n; i++) { Val t = binop(s, Instruction::Add, w, a[i], a[n + i]); Val c = cmpInt(CmpInst::ICMP_ULT, w, t, a[i]); R[i] = ite(c, CV(maskw(w)), t, w); } return true;
    case Intrinsic::fabs: for (unsigned i = 0; i < n; i++) R[i] = fpop(E_FABS, w, w, a[i], a[i], 0, false); return true;
    case Intrinsic::sqrt: for (unsigned i = 0; i < n; i++) R[i] = fpop(E_FSQRT, w, w, a[i], a[i], 0, false); return true;
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::roundeven:
      for (unsigned i = 0; i < n; i++) R[i] = fpop(E_FROUND, w, w, a[i], a[i], ci.iid == Intrinsic::floor ? 0 : ci.iid == Intrinsic::ceil ? 1 : ci.iid == Intrinsic::trunc ? 2 : ci.iid == Intrinsic::round ? 4 : 3, false); return true;
    case Intrinsic::fma: case Intrinsic::fmuladd: for (unsigned i = 0; i < n; i++) R[i] = fpop(E_FADD, w, w, fpop(E_FMUL, w, w, a[i], a[n + i]), a[2 * n + i]); return true;
    case Intrinsic::copysign: for (unsigned i = 0; i < n; i++) { Val ab = fpop(E_FABS, w, w, a[i], a[i], 0, false); Val c = mode == M_REAL && a[n + i].e && isFPop(a[n + i].e) ? cmpFP(CmpInst::FCMP_OLT, w, a[n + i], CV(0)) : fromE(mkExtract(toE(a[n + i], w), w - 1, 1)); R[i] = ite(c, fpop(E_FNEG, w, w, ab, ab, 0, false), ab, w); } return true;
    case Intrinsic::minnum: case Intrinsic::maxnum: for (unsigned i = 0; i < n; i++) { bool mx = ci.iid == Intrinsic::maxnum; Val c = cmpFP(CmpInst::FCMP_OLT, w, mx ? a[i] : a[n + i], mx ? a[n + i] : a[i]); Val nan = cmpFP(CmpInst::FCMP_UNO, w, a[i], a[i]); R[i] = ite(nan, a[n + i], ite(c, a[n + i], a[i], w), w); } return true;
    case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log10: case Intrinsic::pow: {
      std::string nm = ci.iid == Intrinsic::sin ? "sin" : ci.iid == Intrinsic::cos ? "cos" : ci.iid == Intrinsic::exp ? "exp" : ci.iid == Intrinsic::log ? "log" : ci.iid == Intrinsic::log10 ? "log10" : "pow";
      uint64_t id = std::find(g_ufs.begin(), g_ufs.end(), nm) - g_ufs.begin(); if (id == g_ufs.size()) g_ufs.push_back(nm); for (unsigned i = 0; i < n; i++) R[i] = fpop(E_FUF, w, w, a[i], nm == "pow" ? a[n + i] : a[i], id, nm == "pow"); return true; }
    case Intrinsic::is_fpclass: { unsigned ww = leaves(ci.I->getOperand(0)->getType())[0].w; unsigned mask = cc(1, 32); ER x = toE(a[0], ww); unsigned mb = ww == 32 ? 23 : 52, eb = ww - 1 - mb;
      ER ex = mkExtract(x, mb, eb), ma = mkExtract(x, 0, mb), sg = mkExtract(x, ww - 1, 1), e1 = mkEq(ex, mkConst(maskw(eb), eb)), e0 = mkEq(ex, mkConst(0, eb)), m0 = mkEq(ma, mkConst(0, mb)), q = mkExtract(ma, mb - 1, 1);
      ER r = mkConst(0, 1); auto add = [&](unsigned bit, ER c) { if (mask & bit) r = mkOr1(r, c); };
      ER nan = mkAnd1(e1, mkNot(m0)), inf = mkAnd1(e1, m0), zero = mkAnd1(e0, m0), sub = mkAnd1(e0, mkNot(m0)), nor = mkAnd1(mkNot(e0), mkNot(e1)), neg = sg, pos = mkNot(sg);
      add(1, mkAnd1(nan, mkNot(q))); add(2, mkAnd1(nan, q)); add(4, mkAnd1(inf, neg)); add(8, mkAnd1(nor, neg)); add(16, mkAnd1(sub, neg)); add(32, mkAnd1(zero, neg)); add(64, mkAnd1(zero, pos)); add(128, mkAnd1(sub, pos)); add(256, mkAnd1(nor, pos)); add(512, mkAnd1(inf, pos)); R[0] = fromE(r); return true; }
    case Intrinsic::expect: R[0] = a[0]; return true;
    case Intrinsic::objectsize: R[0] = CV(maskw(w)); return true;
    case Intrinsic::is_constant: R[0] = CV(0); return true;
    case Intrinsic::stacksave: R[0] = CV(s->stackTop); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::ptrmask: R[0] = binop(s, Instruction::And, 64, a[0], a[1]); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violate("trap", ci.iid == Intrinsic::ubsantrap ? "undefined behaviour trap (" + std::to_string(a[0].c) + ")" : "trap");
    case Intrinsic::eh_typeid_for: R[0] = CV(a[0].c & 0x7fffffff); return true;
    case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: return true;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: R[0] = a[0]; return true;
    case Intrinsic::vector_reduce_fadd: { Val r = a[0]; for (size_t i = 1; i < a.size(); i++) r = fpop(E_FADD, w, w, r, a[i]); R[0] = r; return true; }
    case Intrinsic::vector_reduce_add: { Val r = a[0]; for (size_t i = 1; i < a.size(); i++) r = binop(s, Instruction::Add, w, r, a[i]); R[0] = r; return true; }
    case Intrinsic::vector_reduce_or: { Val r = a[0]; for (size_t i = 1; i < a.size(); i++) r = binop(s, Instruction::Or, w, r, a[i]); R[0] = r; return true; }
    case Intrinsic::vector_reduce_and: { Val r = a[0]; for (size_t i = 1; i < a.size(); i++) r = binop(s, Instruction::And, w, r, a[i]); R[0] = r; return true; }
    case Intrinsic::x86_sse3_addsub_pd: case Intrinsic::x86_sse3_addsub_ps: for (unsigned i = 0; i < n; i++) R[i] = fpop(i & 1 ? E_FADD : E_FSUB, w, w, a[i], a[n + i]); return true;
    case Intrinsic::x86_sse3_hadd_pd: case Intrinsic::x86_sse3_hadd_ps: for (unsigned i = 0; i < n; i++) { unsigned h = n / 2; Val* src = i < h ? &a[0] : &a[n]; unsigned k = (i % h) * 2; R[i] = fpop(E_FADD, w, w, src[k], src[k + 1]); } return true;
    case Intrinsic::x86_sse3_hsub_pd: case Intrinsic::x86_sse3_hsub_ps: for (unsigned i = 0; i < n; i++) { unsigned h = n / 2; Val* src = i < h ? &a[0] : &a[n]; unsigned k = (i % h) * 2; R[i] = fpop(E_FSUB, w, w, src[k], src[k + 1]); } return true;
    default: break;
  }
  throw Stop{"intrinsic " + std::string(Intrinsic::getBaseName(ci.iid))};
}
void Engine::step(State* s) {
  Frame& f = s->frames.back(); CInst& ci = f.fn->blocks[f.block][f.ip]; s->steps++; totalSteps++; f.fn->info->instrs++;
  Val* reg = s->regs.data() + f.base;
  auto P = [&](const Opnd& o) -> const Val* { return o.k ? &f.fn->consts[o.i] : reg + o.i; };
  Val* D = reg + ci.dst;
  switch (ci.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      const Val* a = P(ci.ops[0]); const Val* b = P(ci.ops[1]); for (uint32_t i = 0; i < ci.n; i++) D[i] = binop(s, ci.op, ci.w, a[i], b[i]); f.ip++; return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      const Val* a = P(ci.ops[0]); const Val* b = P(ci.ops[1]); Op op = ci.op == Instruction::FAdd ? E_FADD : ci.op == Instruction::FSub ? E_FSUB : ci.op == Instruction::FMul ? E_FMUL : ci.op == Instruction::FDiv ? E_FDIV : E_FREM;
      for (uint32_t i = 0; i < ci.n; i++) D[i] = fpop(op, ci.w, ci.w, a[i], b[i]); f.ip++; return; }
    case Instruction::FNeg: { const Val* a = P(ci.ops[0]); for (uint32_t i = 0; i < ci.n; i++) D[i] = fpop(E_FNEG, ci.w, ci.w, a[i], a[i], 0, false); f.ip++; return; }
    case Instruction::ICmp: case Instruction::FCmp: { auto* C = cast<CmpInst>(ci.I); Type* T = C->getOperand(0)->getType(); unsigned w = leaves(T)[0].w; const Val* a = P(ci.ops[0]); const Val* b = P(ci.ops[1]); unsigned pr = C->getPredicate();
      for (uint32_t i = 0; i < ci.n; i++) D[i] = ci.op == Instruction::ICmp ? cmpInt(pr, w, a[i], b[i]) : cmpFP(pr, w, a[i], b[i]); f.ip++; return; }
    case Instruction::Select: { const Val* c = P(ci.ops[0]); const Val* a = P(ci.ops[1]); const Val* b = P(ci.ops[2]); bool vc = ci.I->getOperand(0)->getType()->isVectorTy(); auto& ls = leaves(ci.I->getType());
      for (uint32_t i = 0; i < ci.n; i++) { Val k = c[vc ? i : 0]; if (!k.e) D[i] = k.c ? a[i] : b[i]; else D[i] = fromE(mkIte(k.e, toE(a[i], ls[i].w), toE(b[i], ls[i].w))); } f.ip++; return; }
    case Instruction::Freeze: { const Val* a = P(ci.ops[0]); for (uint32_t i = 0; i < ci.n; i++) D[i] = a[i]; f.ip++; return; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::AddrSpaceCast: {
      unsigned ws = leaves(ci.I->getOperand(0)->getType())[0].w; const Val* a = P(ci.ops[0]); for (uint32_t i = 0; i < ci.n; i++) D[i] = cast_(ci.op, a[i], ws, ci.w); f.ip++; return; }
    case Instruction::BitCast: { const Val* a = P(ci.ops[0]); auto& ls = leaves(ci.I->getOperand(0)->getType()); auto& ld = leaves(ci.I->getType());
      if (ls.size() == ld.size()) { for (uint32_t i = 0; i < ci.n; i++) D[i] = a[i]; }
      else { unsigned ws = ls[0].w, wd = ld[0].w; std::vector<Val> src(a, a + ls.size());
        for (uint32_t i = 0; i < ld.size(); i++) { if (wd > ws) { ER r = nullptr; for (unsigned k = 0; k < wd / ws; k++) { ER p = toE(src[i * (wd / ws) + k], ws); r = r ? mkConcat(p, r) : p; } D[i] = fromE(r); } else { unsigned per = ws / wd; D[i] = fromE(mkExtract(toE(src[i / per], ws), (i % per) * wd, wd)); } } }
      f.ip++; return; }
    case Instruction::Alloca: { auto* A = cast<AllocaInst>(ci.I); uint64_t cnt = concrete(s, *P(ci.ops[0]), 64); uint64_t n = DL->getTypeAllocSize(A->getAllocatedType()) * cnt; uint64_t al = std::max<uint64_t>(16, A->getAlign().value()); uint64_t a = (s->stackTop + al - 1) / al * al; MemObj* o = new MemObj(a, n, OK_STACK, true); s->stack.push_back(ObjRef(o)); s->stackTop = a + n + 32; D[0] = CV(a); f.ip++; return; }
    case Instruction::Load: { Val p = *P(ci.ops[0]); auto& ls = leaves(ci.I->getType()); if (s->par.active) s->par.atomic = cast<LoadInst>(ci.I)->isAtomic();
      if (ci.n == 1) { Val v = load(s, p, ls[0].w, ls[0].bytes); s->regs[s->frames.back().base + ci.dst] = v; }
      else { std::vector<Val> o(ci.n); for (uint32_t i = 0; i < ci.n; i++) { Val q = p.e ? fromE(mkBin(E_ADD, p.e, mkConst(ls[i].off, 64))) : CV(p.c + ls[i].off); o[i] = load(s, q, ls[i].w, ls[i].bytes); } for (uint32_t i = 0; i < ci.n; i++) D[i] = o[i]; }
      if (s->par.active) s->par.atomic = 0; f.ip++; return; }
    case Instruction::Store: { if (s->par.active) s->par.atomic = cast<StoreInst>(ci.I)->isAtomic(); Val p = *P(ci.ops[1]); const Val* v = P(ci.ops[0]); auto& ls = leaves(ci.I->getOperand(0)->getType());
      for (uint32_t i = 0; i < ls.size(); i++) { Val q = p.e ? fromE(mkBin(E_ADD, p.e, mkConst(ls[i].off, 64))) : CV(p.c + ls[i].off); store(s, q, ls[i].w, ls[i].bytes, v[i]); } if (s->par.active) s->par.atomic = 0; f.ip++; return; }
    case Instruction::GetElementPtr: { Val b = *P(ci.ops[0]); uint64_t off = ci.aux64.back(); bool sym = b.e; for (size_t i = 1; i < ci.ops.size(); i++) if (P(ci.ops[i])->e) sym = true;
      if (!sym) { uint64_t a = b.c + off; for (size_t i = 1; i < ci.ops.size(); i++) a += (uint64_t)sextw(P(ci.ops[i])->c, ci.aux[i - 1]) * ci.aux64[i - 1]; D[0] = CV(a); }
      else { ER e = mkBin(E_ADD, toE(b, 64), mkConst(off, 64)); for (size_t i = 1; i < ci.ops.size(); i++) { ER x = mkSext(toE(*P(ci.ops[i]), ci.aux[i - 1]), 64); e = mkBin(E_ADD, e, mkBin(E_MUL, x, mkConst(ci.aux64[i - 1], 64))); } D[0] = fromE(e); }
      f.ip++; return; }
    case Instruction::Br: { if (ci.ops.empty()) { takeEdge(s, f, ci.edges[0]); return; } Val c = *P(ci.ops[0]); 
      if (!c.e) { takeEdge(s, f, ci.edges[c.c ? 0 : 1]); return; }
      bool v = branch(s, c.e, [&](State* t, bool tv) { takeEdge(t, t->frames.back(), ci.edges[tv ? 0 : 1]); });
      takeEdge(s, s->frames.back(), ci.edges[v ? 0 : 1]); return; }
    case Instruction::Switch: { Val c = *P(ci.ops[0]); uint64_t x = concrete(s, c, ci.w); Frame& g = s->frames.back(); for (size_t i = 0; i < ci.aux64.size(); i++) if (ci.aux64[i] == x) { takeEdge(s, g, ci.edges[i + 1]); return; } takeEdge(s, g, ci.edges[0]); return; }
    case Instruction::Ret: { std::vector<Val> rv; if (!ci.ops.empty()) { const Val* a = P(ci.ops[0]); uint32_t n = nleaves(ci.I->getOperand(0)->getType()); rv.assign(a, a + n); } doReturn(s, rv); return; }
    case Instruction::Unreachable: violate("unreachable", "reached an unreachable point (undefined behaviour)");
    case Instruction::ExtractValue: { const Val* a = P(ci.ops[0]); for (uint32_t i = 0; i < ci.aux[1]; i++) D[i] = a[ci.aux[0] + i]; f.ip++; return; }
    case Instruction::InsertValue: { const Val* a = P(ci.ops[0]); const Val* b = P(ci.ops[1]); for (uint32_t i = 0; i < ci.n; i++) D[i] = a[i]; for (uint32_t i = 0; i < ci.aux[1]; i++) D[ci.aux[0] + i] = b[i]; f.ip++; return; }
    case Instruction::ExtractElement: { const Val* a = P(ci.ops[0]); uint64_t i = concrete(s, *P(ci.ops[1]), 64); D[0] = a[i]; f.ip++; return; }
    case Instruction::InsertElement: { const Val* a = P(ci.ops[0]); Val b = *P(ci.ops[1]); uint64_t k = concrete(s, *P(ci.ops[2]), 64); for (uint32_t i = 0; i < ci.n; i++) D[i] = a[i]; D[k] = b; f.ip++; return; }
    case Instruction::ShuffleVector: { const Val* a = P(ci.ops[0]); const Val* b = P(ci.ops[1]); uint32_t na = ci.aux[0]; std::vector<Val> o(ci.n); for (uint32_t i = 0; i < ci.n; i++) { int m = (int)ci.aux[i + 1]; o[i] = m < 0 ? CV(0) : (uint32_t)m < na ? a[m] : b[m - na]; } for (uint32_t i = 0; i < ci.n; i++) D[i] = o[i]; f.ip++; return; }
    case Instruction::LandingPad: { auto* LP = cast<LandingPadInst>(ci.I); D[0] = CV(s->excPtr); uint64_t sel = 0; for (unsigned i = 0; i < LP->getNumClauses(); i++) if (LP->isCatch(i)) { auto* C = LP->getClause(i); std::vector<Val> v; constVals(C, v); if (isa<ConstantPointerNull>(C)) { sel = 0x7fffffff; break; } if (v[0].c == s->excType) { sel = v[0].c & 0x7fffffff; break; } } D[1] = CV(sel); f.ip++; return; }
    case Instruction::Resume: { // continue unwinding in the caller
      s->stack.resize(f.stackMark); s->stackTop = f.stackTop; s->regs.resize(f.base); s->frames.pop_back(); if (s->frames.empty()) { aborted++; if (!s->allowAbort) report("abort", "uncaught exception"); throw PathEnd(); } doThrow(s); return; }
    case Instruction::Fence: f.ip++; return;
    case Instruction::AtomicRMW: { auto* A = cast<AtomicRMWInst>(ci.I); Val p = *P(ci.ops[0]); Val v = *P(ci.ops[1]); auto& l = leaves(A->getType())[0]; s->par.atomic = 1; Val old = load(s, p, l.w, l.bytes); Val nv;
      switch (A->getOperation()) { case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, l.w, old, v); break; case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, l.w, old, v); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::And: nv = binop(s, Instruction::And, l.w, old, v); break; case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, l.w, old, v); break; default: throw Stop{"atomicrmw"}; }
      store(s, p, l.w, l.bytes, nv); s->par.atomic = 0; s->regs[s->frames.back().base + ci.dst] = old; s->frames.back().ip++; return; }
    case Instruction::AtomicCmpXchg: { auto* A = cast<AtomicCmpXchgInst>(ci.I); Val p = *P(ci.ops[0]), e = *P(ci.ops[1]), nw = *P(ci.ops[2]); auto& l = leaves(A->getCompareOperand()->getType())[0]; s->par.atomic = 1; Val old = load(s, p, l.w, l.bytes); Val eq = cmpInt(CmpInst::ICMP_EQ, l.w, old, e); if (eq.e) throw Stop{"cmpxchg"}; if (eq.c) store(s, p, l.w, l.bytes, nw); s->par.atomic = 0; D[0] = old; D[1] = eq; f.ip++; return; }
    case Instruction::Call: case Instruction::Invoke: {
      std::vector<Val> args; size_t na = ci.argn.size(); 
      for (size_t i = 0; i < na; i++) { if (!ci.argn[i]) continue; const Val* a = P(ci.ops[i]); for (uint32_t k = 0; k < ci.argn[i]; k++) args.push_back(a[k]); }
      FnInfo* fi = ci.callee;
      if (!fi) { if (cast<CallBase>(ci.I)->isInlineAsm()) { auto* IA = cast<InlineAsm>(cast<CallBase>(ci.I)->getCalledOperand()); if (ci.n == 0 && IA->getAsmString().empty()) { f.ip++; return; } if (ci.n == 0 && IA->getAsmString().find("prefetch") != std::string::npos) { f.ip++; return; } throw Stop{"inline asm: " + IA->getAsmString()}; }
        uint64_t a = concrete(s, *P(ci.ops[na]), 64); auto it = fnByAddr.find(a); if (it == fnByAddr.end()) violate("memory", "call through an invalid function pointer"); fi = it->second; }
      if (fi->F->isIntrinsic()) { if (intrinsic(s, ci, args)) { Frame& g = s->frames.back(); if (ci.op == Instruction::Invoke) takeEdge(s, g, ci.edges[0]); else g.ip++; } return; }
      if (fi->builtin) { fi->calls++; Val ret[4] = {CV(0), CV(0), CV(0), CV(0)}; if (callBuiltin(s, ci, fi, args, ret, ci.n)) { Frame& g = s->frames.back(); for (uint32_t i = 0; i < ci.n && i < 4; i++) s->regs[g.base + ci.dst + i] = ret[i]; if (ci.op == Instruction::Invoke) takeEdge(s, g, ci.edges[0]); else g.ip++; } return; }
      if (fi->F->isDeclaration()) throw Stop{"undefined function " + llvm::demangle(fi->name)};
      pushCall(s, fi, args, {}); return; }
    default: throw Stop{std::string("instruction ") + ci.I->getOpcodeName()};
  }
}
void Engine::finishPath(State* s) {
  paths++; 
  if (!s->maybeInfeasible) for (auto& c : s->covers) covers[c]++;
  if ((int)traces.size() < maxTraces && !traceDir.empty() && !s->maybeInfeasible && viols.empty()) {
    // pick concrete inputs for this path and predict the observed values
    Model m = s->model; uint64_t r = 0x9E3779B97F4A7C15ull + paths; auto rnd = [&] { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return r; };
    bool good = s->modelOk;
    if (good) { Model m2 = m; for (uint64_t id : s->symOrder) if (!m2.v.count(id) || g_syms[id].kind) { if (m2.v.count(id) && g_syms[id].kind) { bool used = false; (void)used; }
        if (g_syms[id].kind == 1) m2.v[id] = f2b((float)((int)(rnd() % 7) - 3)); else if (g_syms[id].kind == 2) m2.v[id] = d2b((double)((int)(rnd() % 7) - 3)); else if (!m2.v.count(id)) m2.v[id] = rnd() & maskw(std::min(64u, g_syms[id].width)); }
      Evaluator ev(m2); bool ok = true; for (ER c : s->pc) if (!(ev.eval(c) & 1)) { ok = false; break; } if (ok && ev.ok) m = m2; }
    else { Model mm; cur = s; if (solvePC(&mm) == R_SAT) { m = mm; good = true; } }
    if (good) { std::string fn = traceDir + "/trace" + std::to_string(traces.size()) + ".txt"; std::ofstream o(fn);
      for (auto& p : params) o << "P " << p.first << " " << p.second << "\n";
      for (uint64_t id : s->symOrder) { char b[32]; snprintf(b, 32, "%lx", (unsigned long)(m.v.count(id) ? m.v[id] : 0)); o << "S " << g_syms[id].name << " " << g_syms[id].width << " " << b << "\n"; }
      Evaluator ev(m); for (size_t i = 0; i < s->observed.size(); i++) { auto& p = s->observed[i]; uint64_t v = p.second.e ? ev.eval(p.second.e) : p.second.c; char b[32]; snprintf(b, 32, "%lx", (unsigned long)v); o << (s->observedKind[i] ? "F " : "O ") << p.first << " " << b << "\n"; }
      traces.push_back(fn); }
  }
}
void Engine::run(State* init) {
  work.push_back(init);
  while (!work.empty()) {
    State* s = work.back(); work.pop_back(); cur = s; 
    bool done = false;
    try {
      uint64_t k = 0;
      while (true) {
        if ((++k & 0xfff) == 0) { if (now() > deadline) throw Stop{"time budget exhausted"}; if (s->steps > maxSteps) throw Stop{"step budget exhausted"}; }
        step(s);
      }
    } catch (PathEnd&) { finishPath(s); done = true; }
    catch (Stop& e) { cur = s; std::string w = where(); std::string sm = e.why + " @ " + w; if (stops.size() < 20 && std::find(stops.begin(), stops.end(), sm) == stops.end()) { stops.push_back(sm); fprintf(stderr, "STOP %s\n", sm.c_str()); } stopped++; paths++; if (e.why.find("time budget") != std::string::npos) { for (State* t : work) delete t; work.clear(); } }
    delete s;
    if ((int)viols.size() >= maxViol) { for (State* t : work) delete t; work.clear(); }
    if (paths > maxPaths) { stops.push_back("path budget exhausted"); break; }
  }
}
