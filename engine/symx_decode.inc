// Decoding of functions and constants ----------------------------------------------------------------------------------

static void flatten(Type* t, u32 off, std::vector<MemLeaf>& out) {
    if (auto* s = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++)
            flatten(s->getElementType(i), off + (u32) sl->getElementOffset(i), out);
    } else if (auto* a = dyn_cast<ArrayType>(t)) {
        u32 es = (u32) DL->getTypeAllocSize(a->getElementType());
        for (u64 i = 0; i < a->getNumElements(); i++) flatten(a->getElementType(), off + es * (u32) i, out);
    } else if (auto* v = dyn_cast<FixedVectorType>(t)) {
        u32 es = (u32) DL->getTypeStoreSize(v->getElementType());
        for (u64 i = 0; i < v->getNumElements(); i++) flatten(v->getElementType(), off + es * (u32) i, out);
    } else if (t->isPointerTy()) out.push_back({off, 0, 1, 64});
    else if (t->isIntegerTy()) out.push_back({off, 0, 0, (uint16_t) t->getIntegerBitWidth()});
    else if (t->isFloatTy()) out.push_back({off, 1, 0, 32});
    else if (t->isDoubleTy()) out.push_back({off, 1, 0, 64});
    else if (t->isX86_FP80Ty()) out.push_back({off, 1, 0, 80});
    else out.push_back({off, 0, 0, 64});
}

static int slotsOf(Type* t) {
    if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return 0;
    std::vector<MemLeaf> l;
    flatten(t, 0, l);
    return (int) l.size();
}

static void constVals(const Constant* c, std::vector<Val>& out);
static u64 globalAddr(const GlobalValue* g);

static Val constScalar(const Constant* c) {
    std::vector<Val> v;
    constVals(c, v);
    return v[0];
}

static void constVals(const Constant* c, std::vector<Val>& out) {
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) {
        std::vector<MemLeaf> l;
        flatten(t, 0, l);
        bool undef = isa<UndefValue>(c);
        for (auto& x : l) {
            if (undef) out.push_back(Val::U(x.w));
            else if (x.isFp) out.push_back(Val::F(0, x.w));
            else out.push_back(Val::I(0, x.w));
        }
        return;
    }
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() > 64) {
            APInt a = ci->getValue();
            SmallString<64> s;
            a.toString(s, 10, false);
            out.push_back(Val::SI(Z3_mk_numeral(C, s.c_str(), Z3_mk_bv_sort(C, ci->getBitWidth())), ci->getBitWidth()));
        } else out.push_back(Val::I(ci->getZExtValue(), ci->getBitWidth()));
        return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        if (t->isFloatTy()) out.push_back(Val::F(cf->getValueAPF().convertToFloat(), 32));
        else if (t->isDoubleTy()) out.push_back(Val::F(cf->getValueAPF().convertToDouble(), 64));
        else out.push_back(Val::U(80));
        return;
    }
    if (auto* g = dyn_cast<GlobalValue>(c)) {
        out.push_back(Val::I(globalAddr(g), 64));
        return;
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        for (unsigned i = 0; i < ca->getNumOperands(); i++) constVals(ca->getOperand(i), out);
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out);
        return;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) unsupported("constant gep");
                Val b = constScalar(ce->getOperand(0));
                out.push_back(Val::I(b.u + off.getSExtValue(), 64));
                return;
            }
            case Instruction::BitCast:
            case Instruction::PtrToInt:
            case Instruction::IntToPtr:
            case Instruction::AddrSpaceCast:
            case Instruction::Trunc: {
                Val v = constScalar(ce->getOperand(0));
                std::vector<MemLeaf> l;
                flatten(t, 0, l);
                if (v.k == V_INT && l.size() == 1 && !l[0].isFp) {
                    out.push_back(Val::I(v.u, l[0].w));
                    return;
                }
                unsupported("constant cast");
            }
            case Instruction::Add:
            case Instruction::Sub:
            case Instruction::And:
            case Instruction::Or:
            case Instruction::Xor:
            case Instruction::Shl:
            case Instruction::Mul: {
                Val a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1));
                if (a.k != V_INT || b.k != V_INT) unsupported("constant expression");
                State dummy;
                out.push_back(Val::I(concBin(dummy, ce->getOpcode(), a.u, b.u, a.w), a.w));
                return;
            }
            case Instruction::ICmp: {
                Val a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1));
                out.push_back(Val::I(concCmp(ce->getPredicate(), a.u, b.u, a.w), 1));
                return;
            }
        }
        unsupported("constant expression");
    }
    unsupported("constant");
}

static int constOp(const Constant* c) {
    auto it = constIdx.find(c);
    if (it != constIdx.end()) return it->second;
    std::vector<Val> v;
    constVals(c, v);
    int idx = ~(int) constPool.size();
    for (auto& x : v) constPool.push_back(x);
    if (v.empty()) constPool.push_back(Val());
    constIdx[c] = idx;
    return idx;
}

static FnInfo* fnInfo(const Function* F) {
    auto it = fnMap.find(F);
    if (it != fnMap.end()) return it->second;
    FnInfo* f = new FnInfo;
    f->F = const_cast<Function*>(F);
    f->name = F->getName().str();
    f->isDecl = F->isDeclaration();
    f->addr = FN_BASE + ((u64) fnByIdx.size() << 4);
    fnByIdx.push_back(f);
    fnMap[F] = f;
    return f;
}

static State* initState;   // receives the (non-constant) globals

static void writeConst(State& st, Obj* o, u32 off, const Constant* c) {
    Type* t = c->getType();
    if (isa<UndefValue>(c)) return;
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) {
        u64 n = DL->getTypeAllocSize(t);
        for (u64 i = 0; i < n; i++) {
            o->data[off + i] = 0;
            o->st[off + i] = 1;
        }
        return;
    }
    if (auto* s = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++)
            writeConst(st, o, off + (u32) sl->getElementOffset(i), c->getAggregateElement(i));
        return;
    }
    if (auto* a = dyn_cast<ArrayType>(t)) {
        u32 es = (u32) DL->getTypeAllocSize(a->getElementType());
        for (u64 i = 0; i < a->getNumElements(); i++) writeConst(st, o, off + es * (u32) i, c->getAggregateElement((unsigned) i));
        return;
    }
    Val v = constScalar(c);
    writeVal(st, o, off, v, (u32) DL->getTypeStoreSize(t));
}

static std::vector<const GlobalVariable*> gvPending;

static u64 globalAddr(const GlobalValue* g) {
    auto it = gvAddr.find(g);
    if (it != gvAddr.end()) return it->second;
    if (auto* F = dyn_cast<Function>(g)) {
        u64 a = fnInfo(F)->addr;
        gvAddr[g] = a;
        return a;
    }
    if (auto* A = dyn_cast<GlobalAlias>(g)) {
        const Constant* al = A->getAliasee();
        u64 a = constScalar(al).u;
        gvAddr[g] = a;
        return a;
    }
    auto* V = cast<GlobalVariable>(g);
    u32 size = V->getValueType()->isSized() ? (u32) DL->getTypeAllocSize(V->getValueType()) : 64;
    if (V->isDeclaration() && size < 256) size = 256;
    Obj* o = newObj(size, V->isConstant() ? O_CONST : O_GLOBAL);
    u64 a;
    if (V->isDeclaration()) {
        std::fill(o->st.begin(), o->st.end(), 1);
        if (V->getName() == "__libc_single_threaded") o->data[0] = 1;
    }
    if (V->isConstant() || V->isDeclaration()) {
        a = RO_BASE + ((u64) roObjs.size() << OBJ_SHIFT);
        roObjs.push_back(o);
    } else {
        a = HEAP_BASE + ((u64) initState->heap.add(o) << OBJ_SHIFT);
    }
    gvAddr[g] = a;
    if (V->hasInitializer()) writeConst(*initState, o, 0, V->getInitializer());
    return a;
}

static void decode(FnInfo* fi) {
    if (fi->decoded) return;
    fi->decoded = true;
    Function& F = *fi->F;
    std::unordered_map<const Value*, int> slot;
    int ns = 0;
    for (auto& a : F.args()) {
        int n = slotsOf(a.getType());
        slot[&a] = ns;
        fi->args.push_back({ns, n});
        ns += n;
    }
    for (auto& BB : F)
        for (auto& I : BB) {
            int n = slotsOf(I.getType());
            if (n) {
                slot[&I] = ns;
                ns += n;
            }
        }
    std::unordered_map<const BasicBlock*, int> start;
    int pc = 0;
    for (auto& BB : F) {
        start[&BB] = pc;
        for (auto& I : BB) {
            if (isa<PHINode>(I)) continue;
            if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
                auto id = ii->getIntrinsicID();
                if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::dbg_declare
                    || id == Intrinsic::dbg_value || id == Intrinsic::experimental_noalias_scope_decl
                    || id == Intrinsic::assume || id == Intrinsic::stacksave || id == Intrinsic::stackrestore
                    || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::prefetch)
                    continue;
            }
            pc++;
        }
    }
    auto opnd = [&](const Value* v) -> int {
        if (auto* c = dyn_cast<Constant>(v)) return constOp(c);
        auto it = slot.find(v);
        if (it == slot.end()) return ~0;
        return it->second;
    };
    if (constPool.empty()) constPool.push_back(Val::I(0, 64));
    auto edge = [&](const BasicBlock* from, const BasicBlock* to) {
        Edge e;
        e.target = start[to];
        for (auto& phi : to->phis()) {
            const Value* v = phi.getIncomingValueForBlock(from);
            e.copies.push_back({slot[&phi], opnd(v), slotsOf(phi.getType())});
        }
        return e;
    };
    fi->code.reserve(pc);
    for (auto& BB : F)
        for (auto& I : BB) {
            if (isa<PHINode>(I)) continue;
            if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
                auto id = ii->getIntrinsicID();
                if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::dbg_declare
                    || id == Intrinsic::dbg_value || id == Intrinsic::experimental_noalias_scope_decl
                    || id == Intrinsic::assume || id == Intrinsic::stacksave || id == Intrinsic::stackrestore
                    || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::prefetch)
                    continue;
            }
            fi->code.emplace_back();
            Inst& in = fi->code.back();
            in.op = I.getOpcode();
            in.I = &I;
            in.n = slotsOf(I.getType());
            if (in.n) in.dst = slot[&I];
            auto width = [&](Type* t) -> unsigned {
                if (t->isPointerTy()) return 64;
                return (unsigned) t->getPrimitiveSizeInBits();
            };
            switch (I.getOpcode()) {
                case Instruction::Call:
                case Instruction::Invoke: {
                    auto& cb = cast<CallBase>(I);
                    for (auto& a : cb.args()) in.ops.push_back(a->getType()->isMetadataTy() ? ~0 : opnd(a));
                    const Value* cv = cb.getCalledOperand()->stripPointerCasts();
                    if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
                    if (auto* cf = dyn_cast<Function>(cv)) in.callee = fnInfo(cf);
                    else if (isa<InlineAsm>(cv)) in.imm = -2;
                    else in.imm = opnd(cb.getCalledOperand());
                    in.w = in.n == 1 ? width(I.getType()) : 0;
                    if (auto* inv = dyn_cast<InvokeInst>(&I)) {
                        in.edges.push_back(edge(&BB, inv->getNormalDest()));
                        in.edges.push_back(edge(&BB, inv->getUnwindDest()));
                    }
                    break;
                }
                case Instruction::Br: {
                    auto& b = cast<BranchInst>(I);
                    if (b.isConditional()) {
                        in.ops.push_back(opnd(b.getCondition()));
                        in.edges.push_back(edge(&BB, b.getSuccessor(0)));
                        in.edges.push_back(edge(&BB, b.getSuccessor(1)));
                    } else in.edges.push_back(edge(&BB, b.getSuccessor(0)));
                    break;
                }
                case Instruction::Switch: {
                    auto& s = cast<SwitchInst>(I);
                    in.ops.push_back(opnd(s.getCondition()));
                    in.w = width(s.getCondition()->getType());
                    in.edges.push_back(edge(&BB, s.getDefaultDest()));
                    for (auto& c : s.cases()) {
                        in.cases.push_back(c.getCaseValue()->getZExtValue());
                        in.edges.push_back(edge(&BB, c.getCaseSuccessor()));
                    }
                    break;
                }
                case Instruction::Load:
                    in.ops.push_back(opnd(I.getOperand(0)));
                    flatten(I.getType(), 0, in.leaves);
                    break;
                case Instruction::Store:
                    in.ops.push_back(opnd(I.getOperand(0)));
                    in.ops.push_back(opnd(I.getOperand(1)));
                    flatten(I.getOperand(0)->getType(), 0, in.leaves);
                    break;
                case Instruction::GetElementPtr: {
                    in.ops.push_back(opnd(I.getOperand(0)));
                    auto gti = gep_type_begin(&I);
                    for (unsigned i = 1; i < I.getNumOperands(); i++, ++gti) {
                        const Value* idx = I.getOperand(i);
                        if (StructType* s = gti.getStructTypeOrNull()) {
                            in.imm += (i64) DL->getStructLayout(s)->getElementOffset((unsigned) cast<ConstantInt>(idx)->getZExtValue());
                        } else {
                            i64 sc = (i64) DL->getTypeAllocSize(gti.getIndexedType());
                            if (auto* ci = dyn_cast<ConstantInt>(idx)) in.imm += sc * ci->getSExtValue();
                            else in.geps.push_back({opnd(idx), sc, (int) width(idx->getType())});
                        }
                    }
                    break;
                }
                case Instruction::Alloca: {
                    auto& a = cast<AllocaInst>(I);
                    in.imm = (i64) DL->getTypeAllocSize(a.getAllocatedType());
                    in.ops.push_back(opnd(a.getArraySize()));
                    break;
                }
                case Instruction::ICmp:
                case Instruction::FCmp: {
                    auto& c = cast<CmpInst>(I);
                    in.pred = c.getPredicate();
                    in.w = width(I.getOperand(0)->getType());
                    in.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1))};
                    break;
                }
                case Instruction::Select:
                    in.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1)), opnd(I.getOperand(2))};
                    in.flag = I.getType()->isPointerTy();
                    break;
                case Instruction::ExtractValue: {
                    auto& e = cast<ExtractValueInst>(I);
                    Type* t = e.getAggregateOperand()->getType();
                    int off = 0;
                    for (unsigned ix : e.indices()) {
                        if (auto* s = dyn_cast<StructType>(t)) {
                            for (unsigned j = 0; j < ix; j++) off += slotsOf(s->getElementType(j));
                            t = s->getElementType(ix);
                        } else {
                            auto* a = cast<ArrayType>(t);
                            off += (int) ix * slotsOf(a->getElementType());
                            t = a->getElementType();
                        }
                    }
                    in.ops.push_back(opnd(e.getAggregateOperand()));
                    in.imm = off;
                    break;
                }
                case Instruction::InsertValue: {
                    auto& e = cast<InsertValueInst>(I);
                    Type* t = e.getAggregateOperand()->getType();
                    int off = 0;
                    for (unsigned ix : e.indices()) {
                        if (auto* s = dyn_cast<StructType>(t)) {
                            for (unsigned j = 0; j < ix; j++) off += slotsOf(s->getElementType(j));
                            t = s->getElementType(ix);
                        } else {
                            auto* a = cast<ArrayType>(t);
                            off += (int) ix * slotsOf(a->getElementType());
                            t = a->getElementType();
                        }
                    }
                    in.ops = {opnd(e.getAggregateOperand()), opnd(e.getInsertedValueOperand())};
                    in.imm = off;
                    in.w2 = (unsigned) slotsOf(e.getInsertedValueOperand()->getType());
                    break;
                }
                case Instruction::Ret:
                    if (I.getNumOperands()) {
                        in.ops.push_back(opnd(I.getOperand(0)));
                        in.w2 = (unsigned) slotsOf(I.getOperand(0)->getType());
                    }
                    break;
                case Instruction::AtomicRMW: {
                    auto& a = cast<AtomicRMWInst>(I);
                    in.pred = a.getOperation();
                    in.ops = {opnd(a.getPointerOperand()), opnd(a.getValOperand())};
                    in.w = width(a.getType());
                    flatten(a.getType(), 0, in.leaves);
                    break;
                }
                case Instruction::AtomicCmpXchg: {
                    auto& a = cast<AtomicCmpXchgInst>(I);
                    in.ops = {opnd(a.getPointerOperand()), opnd(a.getCompareOperand()), opnd(a.getNewValOperand())};
                    in.w = width(a.getCompareOperand()->getType());
                    flatten(a.getCompareOperand()->getType(), 0, in.leaves);
                    break;
                }
                case Instruction::LandingPad: break;
                default:
                    for (auto& o : I.operands())
                        if (!isa<BasicBlock>(o)) in.ops.push_back(opnd(o));
                    in.w = I.getType()->isSized() ? width(I.getType()) : 0;
                    if (I.getNumOperands() && I.getOperand(0)->getType()->isSized()) in.w2 = width(I.getOperand(0)->getType());
                    in.flag = I.getType()->isFloatingPointTy();
                    if (I.getType()->isVectorTy()) in.op = 9999;
            }
        }
    fi->nslots = ns;
}
