// Interpreter loop and main --------------------------------------------------------------------------------------------

static inline Val& R(State& st, const Frame& f, int op) {
    return op >= 0 ? st.regs[f.base + op] : constPool[~op];
}

// Reads an operand; an undefined register becomes a fresh symbolic value
static inline Val RI(State& st, const Frame& f, int op, unsigned w) {
    Val& v = R(st, f, op);
    if (v.k == V_UNDEF) {
        if (op < 0) return Val::I(0, w);
        v = freshUndef(st, w, false);
    }
    return v;
}

static inline Val RF(State& st, const Frame& f, int op, unsigned w) {
    Val& v = R(st, f, op);
    if (v.k == V_UNDEF) {
        if (op < 0) return Val::F(0, w);
        v = freshUndef(st, w, true);
    }
    return v;
}

static u64 addrOf(State& st, const Frame& f, int op) {
    Val& v = R(st, f, op);
    if (v.k == V_INT) return v.u;
    if (v.k == V_UNDEF) memError(st, "use of an uninitialised pointer");
    return concretize(st, v);
}

static void prepareFn(FnInfo* fi) {
    if (fi->bid) return;
    auto it = builtinTab.find(fi->name);
    if (it != builtinTab.end()) {
        fi->bid = it->second.first;
        return;
    }
    if (fi->isDecl) fi->bid = -1;
}

static void enterFn(State& st, FnInfo* fi, Inst* call, const std::vector<std::pair<int, Val*>>&) = delete;

static bool pathDone;

static void doReturn(State& st, Inst& in) {
    Frame& f = st.frames.back();
    static std::vector<Val> ret;
    ret.clear();
    for (unsigned i = 0; i < in.w2; i++) {
        int op = in.ops[0];
        ret.push_back(op >= 0 ? st.regs[f.base + op + i] : constPool[~op + i]);
    }
    Inst* call = f.call;
    popFrame(st);
    if (st.frames.empty()) {
        pathDone = true;
        return;
    }
    Frame& g = st.frames.back();
    if (call->n)
        for (int i = 0; i < call->n && i < (int) ret.size(); i++) st.regs[g.base + call->dst + i] = ret[i];
    if (call->op == Instruction::Invoke) takeEdge(st, g, call->edges[0]);
    else g.pc++;
}

static void doCall(State& st, Inst& in) {
    Frame& f = st.frames.back();
    FnInfo* fi = in.callee;
    if (!fi) {
        if (in.imm == -2) {
            f.pc++;
            return;
        }
        u64 a = addrOf(st, f, (int) in.imm);
        u64 idx = (a - FN_BASE) >> 4;
        if (a < FN_BASE || idx >= fnByIdx.size()) memError(st, "call of an invalid function pointer");
        fi = fnByIdx[idx];
    }
    prepareFn(fi);
    if (fi->isDecl && fi->F->isIntrinsic()) {
        std::vector<Val> args;
        for (size_t i = 0; i < in.ops.size(); i++) {
            Val& v = R(st, f, in.ops[i]);
            if (v.k == V_UNDEF && in.ops[i] >= 0 && v.w && v.w <= 64 && !v.u) {
                // undefined scalar argument
                Type* t = cast<CallBase>(in.I)->getArgOperand((unsigned) i)->getType();
                if (t->isIntegerTy()) v = freshUndef(st, t->getIntegerBitWidth(), false);
                else if (t->isFloatTy()) v = freshUndef(st, 32, true);
                else if (t->isDoubleTy()) v = freshUndef(st, 64, true);
            }
            args.push_back(v);
        }
        Val r = callIntrinsic(st, in, args, fi->F->getIntrinsicID());
        Frame& g = st.frames.back();
        if (in.n) {
            st.regs[g.base + in.dst] = r;
            if (hasExtra && in.n > 1) st.regs[g.base + in.dst + 1] = extraRet;
        }
        g.pc++;
        return;
    }
    if (fi->bid > 0) {
        std::vector<Val> args;
        for (size_t i = 0; i < in.ops.size(); i++) args.push_back(R(st, f, in.ops[i]));
        ctl = false;
        Val r = callBuiltin(st, in, args, *fi);
        if (ctl) return;
        Frame& g = st.frames.back();
        if (in.n) st.regs[g.base + in.dst] = r;
        if (in.op == Instruction::Invoke) takeEdge(st, g, in.edges[0]);
        else g.pc++;
        return;
    }
    if (fi->bid < 0) unsupported("call of undefined function " + demangle(fi->name));
    decode(fi);
    if (!fi->covered) {
        fi->covered = true;
        fnCovered.insert(fi->name);
    }
    if (st.frames.size() > 400) memError(st, "stack overflow (recursion)");
    u32 base = (u32) st.regs.size();
    u32 cb = f.base;
    u32 sb = (u32) st.stack.size();
    auto* cbi = cast<CallBase>(in.I);
    // byval arguments
    std::vector<std::pair<int, u64>> byval;
    for (size_t i = 0; i < in.ops.size() && i < fi->args.size(); i++) {
        if (cbi->isByValArgument((unsigned) i)) {
            u64 src = addrOf(st, f, in.ops[i]);
            u32 sz = (u32) DL->getTypeAllocSize(cbi->getParamByValType((unsigned) i));
            u64 addr = STACK_BASE + ((u64) st.stack.size() << OBJ_SHIFT);
            st.stack.push_back(ObjRef(newObj(sz, O_STACK)));
            memCopy(st, addr, src, sz);
            byval.push_back({(int) i, addr});
        }
    }
    st.regs.resize(base + (u32) fi->nslots);
    for (size_t i = 0; i < in.ops.size() && i < fi->args.size(); i++) {
        auto& a = fi->args[i];
        int op = in.ops[i];
        for (int k = 0; k < a.second; k++) st.regs[base + a.first + k] = op >= 0 ? st.regs[cb + op + k] : constPool[~op + k];
    }
    for (auto& b : byval) st.regs[base + fi->args[b.first].first] = Val::I(b.second, 64);
    st.frames.push_back({fi, 0, base, sb, &in});
}

static void step(State& st) {
    Frame& f = st.frames.back();
    Inst& in = f.fn->code[f.pc];
    st.insts++;
    S.insts++;
    switch (in.op) {
        case Instruction::Add:
        case Instruction::Sub:
        case Instruction::Mul:
        case Instruction::UDiv:
        case Instruction::SDiv:
        case Instruction::URem:
        case Instruction::SRem:
        case Instruction::Shl:
        case Instruction::LShr:
        case Instruction::AShr:
        case Instruction::And:
        case Instruction::Or:
        case Instruction::Xor: {
            Val a = RI(st, f, in.ops[0], in.w), b = RI(st, f, in.ops[1], in.w);
            Val r = intBin(st, in.op, a, b, in.w);
            st.regs[f.base + in.dst] = r;
            f.pc++;
            return;
        }
        case Instruction::FAdd:
        case Instruction::FSub:
        case Instruction::FMul:
        case Instruction::FDiv:
        case Instruction::FRem: {
            if (in.w > 64) unsupported("long double");
            Val r = fpBin(st, in.op, RF(st, f, in.ops[0], in.w), RF(st, f, in.ops[1], in.w), in.w);
            st.regs[f.base + in.dst] = r;
            f.pc++;
            return;
        }
        case Instruction::FNeg:
            st.regs[f.base + in.dst] = fpNeg(st, RF(st, f, in.ops[0], in.w), in.w);
            f.pc++;
            return;
        case Instruction::ICmp: {
            Val r = intCmp(st, in.pred, RI(st, f, in.ops[0], in.w), RI(st, f, in.ops[1], in.w), in.w);
            st.regs[f.base + in.dst] = r;
            f.pc++;
            return;
        }
        case Instruction::FCmp: {
            if (in.w > 64) unsupported("long double");
            Val r = fpCmp(st, in.pred, RF(st, f, in.ops[0], in.w), RF(st, f, in.ops[1], in.w), in.w);
            st.regs[f.base + in.dst] = r;
            f.pc++;
            return;
        }
        case Instruction::Br: {
            if (in.ops.empty()) {
                takeEdge(st, f, in.edges[0]);
                return;
            }
            Val c = RI(st, f, in.ops[0], 1);
            bool b = c.k == V_INT ? c.u != 0 : decide(st, boolOf(st, c));
            takeEdge(st, f, in.edges[b ? 0 : 1]);
            return;
        }
        case Instruction::Switch: {
            Val c = RI(st, f, in.ops[0], in.w);
            size_t k = 0;
            for (size_t i = 0; i < in.cases.size(); i++) {
                Val e = intCmp(st, CmpInst::ICMP_EQ, c, Val::I(in.cases[i], in.w), in.w);
                if (e.k == V_INT ? e.u != 0 : decide(st, boolOf(st, e))) {
                    k = i + 1;
                    break;
                }
            }
            takeEdge(st, f, in.edges[k]);
            return;
        }
        case Instruction::Load: {
            u64 a = addrOf(st, f, in.ops[0]);
            if (in.leaves.size() == 1) {
                Val v = loadScalar(st, a, in.leaves[0]);
                st.regs[f.base + in.dst] = v;
            } else {
                for (size_t i = 0; i < in.leaves.size(); i++)
                    st.regs[f.base + in.dst + i] = loadScalar(st, a + in.leaves[i].off, in.leaves[i]);
            }
            f.pc++;
            return;
        }
        case Instruction::Store: {
            u64 a = addrOf(st, f, in.ops[1]);
            for (size_t i = 0; i < in.leaves.size(); i++) {
                int op = in.ops[0];
                storeScalar(st, a + in.leaves[i].off, in.leaves[i], op >= 0 ? st.regs[f.base + op + i] : constPool[~op + i]);
            }
            f.pc++;
            return;
        }
        case Instruction::GetElementPtr: {
            Val b = RI(st, f, in.ops[0], 64);
            if (b.k == V_INT) {
                u64 a = b.u + (u64) in.imm;
                bool ok = true;
                for (auto& g : in.geps) {
                    Val& v = R(st, f, g.op);
                    if (v.k != V_INT) {
                        ok = false;
                        break;
                    }
                    a += (u64) (sx(v.u, (unsigned) g.w) * g.scale);
                }
                if (ok) {
                    st.regs[f.base + in.dst] = Val::I(a, 64);
                    f.pc++;
                    return;
                }
            }
            Val r = intBin(st, Instruction::Add, b, Val::I((u64) in.imm, 64), 64);
            for (auto& g : in.geps) {
                Val v = RI(st, f, g.op, (unsigned) g.w);
                // enumerate the index here: addresses stay concrete
                u64 c = concretize(st, v);
                r = intBin(st, Instruction::Add, r, Val::I((u64) (sx(c, (unsigned) g.w) * g.scale), 64), 64);
            }
            st.regs[f.base + in.dst] = r;
            f.pc++;
            return;
        }
        case Instruction::Alloca: {
            u64 n = concretize(st, R(st, f, in.ops[0]));
            u64 addr = STACK_BASE + ((u64) st.stack.size() << OBJ_SHIFT);
            st.stack.push_back(ObjRef(newObj((u32) ((u64) in.imm * n), O_STACK)));
            st.regs[f.base + in.dst] = Val::I(addr, 64);
            f.pc++;
            return;
        }
        case Instruction::Select: {
            Val c = RI(st, f, in.ops[0], 1);
            for (int i = 0; i < in.n; i++) {
                Val a = in.ops[1] >= 0 ? st.regs[f.base + in.ops[1] + i] : constPool[~in.ops[1] + i];
                Val b = in.ops[2] >= 0 ? st.regs[f.base + in.ops[2] + i] : constPool[~in.ops[2] + i];
                st.regs[f.base + in.dst + i] = selectVal(st, c, a, b, in.flag);
            }
            f.pc++;
            return;
        }
        case Instruction::Trunc:
        case Instruction::ZExt:
        case Instruction::SExt: {
            Val r = castInt(st, in.op, RI(st, f, in.ops[0], in.w2), in.w2, in.w);
            st.regs[f.base + in.dst] = r;
            f.pc++;
            return;
        }
        case Instruction::FPTrunc:
        case Instruction::FPExt:
        case Instruction::FPToUI:
        case Instruction::FPToSI: {
            if (in.w > 64 || in.w2 > 64) unsupported("long double");
            Val r = castFp(st, in.op, RF(st, f, in.ops[0], in.w2), in.w2, in.w);
            st.regs[f.base + in.dst] = r;
            f.pc++;
            return;
        }
        case Instruction::UIToFP:
        case Instruction::SIToFP: {
            if (in.w > 64 || in.w2 > 64) unsupported("long double");
            Val r = castFp(st, in.op, RI(st, f, in.ops[0], in.w2), in.w2, in.w);
            st.regs[f.base + in.dst] = r;
            f.pc++;
            return;
        }
        case Instruction::BitCast:
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::Freeze: {
            for (int i = 0; i < in.n; i++) {
                Val v = in.ops[0] >= 0 ? st.regs[f.base + in.ops[0] + i] : constPool[~in.ops[0] + i];
                if (in.n == 1) {
                    if (in.op == Instruction::Freeze) v = in.flag ? RF(st, f, in.ops[0], in.w) : RI(st, f, in.ops[0], in.w);
                    else if (in.flag && v.k != V_UNDEF) v = toFpType(st, v, in.w);
                    else if (!in.flag && (v.k == V_FP || v.k == V_SF)) v = asInt(st, v);
                    else if (v.k == V_INT && v.w != in.w) v = Val::I(v.u, in.w);
                    else if (v.k != V_UNDEF && v.k != V_INT && v.w != in.w) {
                        if (v.w > in.w) v = extractBits(st, v, 0, in.w);
                        else v = castInt(st, Instruction::ZExt, v, v.w, in.w);
                    }
                }
                st.regs[f.base + in.dst + i] = v;
            }
            f.pc++;
            return;
        }
        case Instruction::ExtractValue: {
            for (int i = 0; i < in.n; i++)
                st.regs[f.base + in.dst + i] = in.ops[0] >= 0 ? st.regs[f.base + in.ops[0] + in.imm + i] : constPool[~in.ops[0] + in.imm + i];
            f.pc++;
            return;
        }
        case Instruction::InsertValue: {
            for (int i = 0; i < in.n; i++)
                st.regs[f.base + in.dst + i] = in.ops[0] >= 0 ? st.regs[f.base + in.ops[0] + i] : constPool[~in.ops[0] + i];
            for (unsigned i = 0; i < in.w2; i++)
                st.regs[f.base + in.dst + in.imm + i] = in.ops[1] >= 0 ? st.regs[f.base + in.ops[1] + i] : constPool[~in.ops[1] + i];
            f.pc++;
            return;
        }
        case Instruction::Call:
        case Instruction::Invoke: doCall(st, in); return;
        case Instruction::Ret: doReturn(st, in); return;
        case Instruction::Resume: {
            // continue unwinding from the caller
            if (st.frames.size() == 1) {
                recordViolation(st, "exception", "uncaught exception", zTrue, st.model);
                throw KillEx {"uncaught", 3};
            }
            popFrame(st);
            unwind(st);
            return;
        }
        case Instruction::Unreachable: memError(st, "unreachable code executed");
        case Instruction::Fence: f.pc++; return;
        case Instruction::AtomicRMW: {
            u64 a = addrOf(st, f, in.ops[0]);
            Val old = loadScalar(st, a, in.leaves[0]);
            Val v = RI(st, f, in.ops[1], in.w), r;
            switch (in.pred) {
                case AtomicRMWInst::Add: r = intBin(st, Instruction::Add, old, v, in.w); break;
                case AtomicRMWInst::Sub: r = intBin(st, Instruction::Sub, old, v, in.w); break;
                case AtomicRMWInst::Xchg: r = v; break;
                case AtomicRMWInst::Or: r = intBin(st, Instruction::Or, old, v, in.w); break;
                case AtomicRMWInst::And: r = intBin(st, Instruction::And, old, v, in.w); break;
                default: unsupported("atomicrmw");
            }
            storeScalar(st, a, in.leaves[0], r);
            st.regs[f.base + in.dst] = old;
            f.pc++;
            return;
        }
        case Instruction::AtomicCmpXchg: {
            u64 a = addrOf(st, f, in.ops[0]);
            Val old = loadScalar(st, a, in.leaves[0]);
            Val eq = intCmp(st, CmpInst::ICMP_EQ, old, RI(st, f, in.ops[1], in.w), in.w);
            bool b = eq.k == V_INT ? eq.u != 0 : decide(st, boolOf(st, eq));
            if (b) storeScalar(st, a, in.leaves[0], R(st, f, in.ops[2]));
            st.regs[f.base + in.dst] = old;
            st.regs[f.base + in.dst + 1] = boolVal(b);
            f.pc++;
            return;
        }
    }
    unsupported(std::string("instruction ") + (in.op == 9999 ? "vector" : Instruction::getOpcodeName(in.op)));
}

// ---------------------------------------------------------------------------------------------------------------------
struct Sample {
        std::vector<std::pair<std::string, std::string>> inputs;
        std::vector<std::pair<std::string, std::string>> obs;
        bool exact;
};

static std::vector<Sample> samples;

static void pathFinished(State& st) {
    S.paths++;
    if ((int) samples.size() < optSamples && (S.paths & (S.paths - 1)) == 0) {
        // paths 1, 2, 4, 8, ...
        try {
            ensureModel(st);
        } catch (KillEx&) { return; }
        if (!st.model.m || st.hasUninit || !st.ufApps.empty()) return;
        ModelRef m = st.model, g;
        if (gridModel(st, zTrue, g)) m = g;
        Sample s;
        s.exact = true;
        s.inputs = inputsFromModel(st, m.m, s.exact);
        for (auto& o : st.obs) {
            bool ex = true;
            std::string v;
            char buf[64];
            if (o.v.k == V_FP) {
                snprintf(buf, sizeof buf, "%a", o.v.d);
                v = buf;
            } else if (o.v.k == V_SF) v = fpFromModel(m.m, o.v.e, o.v.w, ex);
            else continue;
            s.obs.push_back({o.name, v});
        }
        samples.push_back(s);
    }
}

static void killState(State& st, KillEx& k) {
    switch (k.kind) {
        case 0: S.pathsInfeasible++; break;
        case 1:
            S.killedUnsupported++;
            unsupportedCount[k.why + " @ " + demangle(st.frames.empty() ? "?" : st.frames.back().fn->name) + " @ " + locOf(st)]++;
            if (optTrace) fprintf(stderr, "UNSUPPORTED %s\n%s\n", k.why.c_str(), backtrace(st).c_str());
            break;
        case 2:
            S.killedLimit++;
            unsupportedCount["limit: " + k.why]++;
            break;
        case 3: S.killedError++; break;
    }
}

static bool timeUp() {
    return now() - startTime > optTime;
}

static void runState(State* st) {
    pathDone = false;
    try {
        u64 n = 0;
        while (!pathDone) {
            step(*st);
            if (st->insts > optMaxInst) throw KillEx {"instruction limit per path", 2};
            if ((++n & 0xfff) == 0 && timeUp()) throw KillEx {"time budget", 2};
        }
        pathFinished(*st);
    } catch (KillEx& k) {
        killState(*st, k);
    }
    delete st;
}

static void explore(size_t stopAt) {
    if (stopAt) {
        // breadth first until there are enough states
        while (!pendingStates.empty() && pendingStates.size() < stopAt && !timeUp()) {
            State* s = pendingStates.front();
            pendingStates.erase(pendingStates.begin());
            pathDone = false;
            size_t before = pendingStates.size();
            try {
                while (!pathDone && pendingStates.size() == before) step(*s);
                if (pathDone) {
                    pathFinished(*s);
                    delete s;
                } else pendingStates.push_back(s);
            } catch (KillEx& k) {
                killState(*s, k);
                delete s;
            }
        }
        return;
    }
    while (!pendingStates.empty()) {
        if (timeUp()) break;
        State* s = pendingStates.back();
        pendingStates.pop_back();
        runState(s);
    }
    S.pending += pendingStates.size();
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n') o += "\\n";
        else if ((unsigned char) c < 32) o += ' ';
        else o += c;
    }
    return o + "\"";
}

static void writeResult(const std::string& out, const std::string& entry) {
    FILE* fp = fopen(out.c_str(), "w");
    if (!fp) {
        perror("fopen");
        exit(2);
    }
    fprintf(fp, "{\"entry\":%s,\n", jstr(entry).c_str());
    fprintf(fp, "\"paths\":%llu,\"infeasible\":%llu,\"insts\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,"
                "\"unknown\":%llu,\"checks\":%llu,\"checks_solver\":%llu,\"checks_unknown\":%llu,\"killed_unsupported\":%llu,"
                "\"killed_limit\":%llu,\"killed_error\":%llu,\"pending\":%llu,\"throws\":%llu,\"solver_time\":%.3f,\"wall\":%.3f,\n",
            (unsigned long long) S.paths, (unsigned long long) S.pathsInfeasible, (unsigned long long) S.insts,
            (unsigned long long) S.forks, (unsigned long long) S.queries, (unsigned long long) S.sat, (unsigned long long) S.unsat,
            (unsigned long long) S.unknown, (unsigned long long) S.checks, (unsigned long long) S.checksSolver,
            (unsigned long long) S.checksUnknown, (unsigned long long) S.killedUnsupported, (unsigned long long) S.killedLimit,
            (unsigned long long) S.killedError, (unsigned long long) S.pending, (unsigned long long) S.throws, S.solverTime,
            now() - startTime);
    auto dumpMap = [&](const char* name, std::map<std::string, u64>& m) {
        fprintf(fp, "\"%s\":{", name);
        bool first = true;
        for (auto& p : m) {
            fprintf(fp, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long) p.second);
            first = false;
        }
        fprintf(fp, "},\n");
    };
    dumpMap("reach", reachCount);
    dumpMap("check_sites", checkCount);
    dumpMap("unsupported", unsupportedCount);
    auto dumpIn = [&](std::vector<std::pair<std::string, std::string>>& v) {
        fprintf(fp, "[");
        for (size_t j = 0; j < v.size(); j++) fprintf(fp, "%s[%s,%s]", j ? "," : "", jstr(v[j].first).c_str(), jstr(v[j].second).c_str());
        fprintf(fp, "]");
    };
    fprintf(fp, "\"violations\":[");
    for (size_t i = 0; i < violations.size(); i++) {
        auto& v = violations[i];
        fprintf(fp, "%s\n{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"known\":%s,\"uninit\":%s,\"exact\":%s,\"trace\":%s,\"inputs\":", i ? "," : "",
                jstr(v.kind).c_str(), jstr(v.msg).c_str(), jstr(v.loc).c_str(), jstr(v.known).c_str(), v.uninit ? "true" : "false",
                v.exact ? "true" : "false", jstr(v.stackTrace).c_str());
        dumpIn(v.inputs);
        fprintf(fp, "}");
    }
    fprintf(fp, "],\n\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) {
        fprintf(fp, "%s\n{\"exact\":%s,\"inputs\":", i ? "," : "", samples[i].exact ? "true" : "false");
        dumpIn(samples[i].inputs);
        fprintf(fp, ",\"obs\":");
        dumpIn(samples[i].obs);
        fprintf(fp, "}");
    }
    fprintf(fp, "],\n\"functions\":[");
    bool first = true;
    for (auto& f : fnCovered) {
        fprintf(fp, "%s%s", first ? "" : ",", jstr(demangle(f)).c_str());
        first = false;
    }
    fprintf(fp, "]}\n");
    fclose(fp);
}

static void errHandler(Z3_context, Z3_error_code e) {
    throw KillEx {std::string("z3 error: ") + Z3_get_error_msg(C, e), 1};
}

int main(int argc, char** argv) {
    std::string file, entry, out = "result.json";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "-entry") entry = argv[++i];
        else if (a == "-o") out = argv[++i];
        else if (a == "-ieee") optIeee = true;
        else if (a == "-time") optTime = atof(argv[++i]);
        else if (a == "-j") optJobs = atoi(argv[++i]);
        else if (a == "-maxinst") optMaxInst = strtoull(argv[++i], nullptr, 10);
        else if (a == "-query-ms") optQueryMs = (unsigned) atoi(argv[++i]);
        else if (a == "-seed") optSeed = strtoull(argv[++i], nullptr, 10);
        else if (a == "-samples") optSamples = atoi(argv[++i]);
        else if (a == "-trace") optTrace = true;
        else if (a == "-p") {
            std::string p = argv[++i];
            size_t e = p.find('=');
            params[p.substr(0, e)] = (u32) strtoul(p.substr(e + 1).c_str(), nullptr, 10);
        } else file = a;
    }
    startTime = now();
    LLVMContext ctx;
    SMDiagnostic err;
    M = parseIRFile(file, err, ctx);
    if (!M) {
        err.print("symx", errs());
        return 2;
    }
    DL = &M->getDataLayout();
    Z3_config cfg = Z3_mk_config();
    C = Z3_mk_context(cfg);
    Z3_set_error_handler(C, errHandler);
    boolSort = Z3_mk_bool_sort(C);
    realSort = Z3_mk_real_sort(C);
    f32Sort = Z3_mk_fpa_sort_32(C);
    f64Sort = Z3_mk_fpa_sort_64(C);
    rmNE = Z3_mk_fpa_rne(C);
    rmTZ = Z3_mk_fpa_rtz(C);
    zTrue = Z3_mk_true(C);
    zFalse = Z3_mk_false(C);
    auto mkSolver = [&]() {
        solver = Z3_mk_simple_solver(C);
        Z3_solver_inc_ref(C, solver);
        Z3_params p = Z3_mk_params(C);
        Z3_params_inc_ref(C, p);
        Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), optIeee ? optQueryMs : std::min(optQueryMs, 4000u));
        Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "random_seed"), (unsigned) optSeed);
        Z3_solver_set_params(C, solver, p);
        Z3_params_dec_ref(C, p);
        solverStack.clear();
    };
    mkSolver();
    initBuiltins();
    constPool.reserve(1 << 20);
    State* st = new State;
    initState = st;
    Function* E = M->getFunction(entry);
    if (!E || E->isDeclaration()) {
        fprintf(stderr, "symx: no entry function %s\n", entry.c_str());
        return 2;
    }
    try {
        for (auto& g : M->globals())
            if (g.getName() != "llvm.global_ctors" && g.getName() != "llvm.used" && g.getName() != "llvm.compiler.used") globalAddr(&g);
        for (auto& F : *M) fnInfo(&F);
        vtSi = symAddr("_ZTVN10__cxxabiv120__si_class_type_infoE");
        vtVmi = symAddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
        vtClass = symAddr("_ZTVN10__cxxabiv117__class_type_infoE");
    } catch (KillEx& k) {
        fprintf(stderr, "symx: initialisation: %s\n", k.why.c_str());
        return 2;
    }
    // static initialisers
    std::vector<std::pair<u64, FnInfo*>> ctors;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors"))
        if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (auto& o : arr->operands()) {
                auto* cs = cast<ConstantStruct>(o);
                ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fnInfo(cast<Function>(cs->getOperand(1)))});
            }
    auto start = [&](FnInfo* fi) {
        decode(fi);
        fi->covered = true;
        fnCovered.insert(fi->name);
        st->regs.resize((size_t) fi->nslots);
        st->frames.push_back({fi, 0, 0, (u32) st->stack.size(), nullptr});
    };
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : ctors) {
        try {
            start(c.second);
            pathDone = false;
            while (!pathDone) step(*st);
        } catch (KillEx& k) {
            fprintf(stderr, "symx: static initialiser %s: %s\n", c.second->name.c_str(), k.why.c_str());
            st->frames.clear();
            st->regs.clear();
            st->stack.clear();
        }
    }
    try {
        start(fnInfo(E));
    } catch (KillEx& k) {
        fprintf(stderr, "symx: decode: %s\n", k.why.c_str());
        return 2;
    }
    pendingStates.push_back(st);
    if (optJobs > 1) {
        explore((size_t) optJobs * 40);
        if (!pendingStates.empty()) {
            writeResult(out + ".0", entry);
            std::vector<State*> all = pendingStates;
            std::vector<pid_t> pids;
            auto* counter = (std::atomic<size_t>*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            new (counter) std::atomic<size_t>(0);
            fflush(stdout);
            for (int j = 0; j < optJobs; j++) {
                pid_t p = fork();
                if (p == 0) {
                    S = Stats();
                    reachCount.clear();
                    checkCount.clear();
                    unsupportedCount.clear();
                    violations.clear();
                    samples.clear();
                    pendingStates.clear();
                    // pieces of work are claimed dynamically
                    for (;;) {
                        size_t k = counter->fetch_add(1);
                        if (k >= all.size()) break;
                        pendingStates.push_back(all[k]);
                        explore(0);
                        pendingStates.clear();
                    }
                    writeResult(out + "." + std::to_string(j + 1), entry);
                    _exit(0);
                }
                pids.push_back(p);
            }
            int rc = 0;
            for (auto p : pids) {
                int s;
                waitpid(p, &s, 0);
                if (!WIFEXITED(s) || WEXITSTATUS(s)) rc = 3;
            }
            fflush(stdout);
            _exit(rc);
        }
        writeResult(out + ".0", entry);
        fflush(stdout);
        _exit(0);
    }
    explore(0);
    writeResult(out + ".0", entry);
    _exit(0);
}
