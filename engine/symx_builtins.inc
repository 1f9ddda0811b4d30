// Built-in functions ---------------------------------------------------------------------------------------------------

static bool ctl;   // set by a builtin that has transferred control itself
static Val extraRet;   // second slot of the result (with.overflow)
static bool hasExtra;

static void popFrame(State& st) {
    Frame& f = st.frames.back();
    st.stack.resize(f.stackBase);
    st.regs.resize(f.base);
    st.frames.pop_back();
}

static void takeEdge(State& st, Frame& f, Edge& e) {
    if (!e.copies.empty()) {
        static std::vector<Val> tmp;
        tmp.clear();
        for (auto& c : e.copies)
            for (int i = 0; i < c.n; i++) tmp.push_back(c.src >= 0 ? st.regs[f.base + c.src + i] : constPool[~c.src + i]);
        size_t k = 0;
        for (auto& c : e.copies)
            for (int i = 0; i < c.n; i++) st.regs[f.base + c.dst + i] = tmp[k++];
    }
    f.pc = (u32) e.target;
}

// RTTI -----------------------------------------------------------------------------------------------------------------
static u64 vtSi, vtVmi, vtClass;

static u64 symAddr(const char* n) {
    if (auto* g = M->getNamedValue(n)) return globalAddr(g);
    return 0;
}

static bool isExternalTi(u64 ti, std::string& name) {
    for (auto& p : gvAddr)
        if (p.second == ti) {
            name = p.first->getName().str();
            return p.first->isDeclaration();
        }
    return false;
}

// Finds the base class "dst" in an object of dynamic type "ti"; returns offsets
static void findBase(State& st, u64 ti, u64 dst, i64 off, u64 obj, std::vector<i64>& found) {
    if (ti == dst) {
        found.push_back(off);
        return;
    }
    std::string nm;
    if (isExternalTi(ti, nm)) return;
    u64 vt = rdPtr(st, ti);
    if (vtSi && vt == vtSi + 16) {
        findBase(st, rdPtr(st, ti + 16), dst, off, obj, found);
    } else if (vtVmi && vt == vtVmi + 16) {
        MemLeaf l32 {0, 0, 0, 32};
        u64 n = loadScalar(st, ti + 20, l32).u;
        for (u64 i = 0; i < n; i++) {
            u64 b = rdPtr(st, ti + 24 + 16 * i);
            i64 fl = (i64) rdPtr(st, ti + 32 + 16 * i);
            i64 o = fl >> 8;
            if (fl & 1) {   // virtual base: offset in the vtable
                u64 vptr = rdPtr(st, obj + off);
                o = (i64) rdPtr(st, vptr + o);
            }
            findBase(st, b, dst, off + o, obj, found);
        }
    }
}

static bool excMatches(State& st, u64 thrown, u64 ti) {
    if (!ti || thrown == ti) return true;
    std::string a, b;
    bool ea = isExternalTi(thrown, a), eb = isExternalTi(ti, b);
    if (eb && b == "_ZTISt9exception" && ea) return true;
    if (eb && b == "_ZTISt11logic_error" && ea
        && (a == "_ZTISt16invalid_argument" || a == "_ZTISt12out_of_range" || a == "_ZTISt12length_error"))
        return true;
    if (ea) return false;
    std::vector<i64> f;
    findBase(st, thrown, ti, 0, 0, f);
    if (!f.empty()) return true;
    if (eb && b == "_ZTISt9exception") return true;
    return false;
}

static void unwind(State& st) {
    // the innermost frame has just thrown/resumed: find a landing pad
    while (!st.frames.empty()) {
        Frame& f = st.frames.back();
        Inst& in = f.fn->code[f.pc];
        if (in.op == Instruction::Invoke) {
            Edge& e = in.edges[1];
            auto* inv = cast<InvokeInst>(in.I);
            const LandingPadInst* lp = inv->getLandingPadInst();
            int sel = -1;
            for (unsigned i = 0; i < lp->getNumClauses(); i++) {
                if (!lp->isCatch(i)) continue;
                const Constant* c = lp->getClause(i);
                u64 ti = constScalar(c).u;
                if (excMatches(st, st.exc.tinfo, ti)) {
                    sel = (int) (1 + ((ti >> OBJ_SHIFT) & 0xffffff));
                    break;
                }
            }
            if (sel < 0 && lp->isCleanup()) sel = 0;
            if (sel >= 0) {
                takeEdge(st, f, e);
                Inst& l = f.fn->code[f.pc];
                st.regs[f.base + l.dst] = Val::I(st.exc.ptr, 64);
                st.regs[f.base + l.dst + 1] = Val::I((u64) sel, 32);
                f.pc++;
                return;
            }
        }
        if (st.frames.size() == 1) {
            std::string nm;
            isExternalTi(st.exc.tinfo, nm);
            ensureModel(st);
            recordViolation(st, "exception", "uncaught exception of type " + demangle(nm.compare(0, 4, "_ZTI") == 0 ? "_ZTS" + nm.substr(4) : nm), zTrue, st.model);
            throw KillEx {"uncaught exception", 3};
        }
        popFrame(st);
    }
}

static Z3_func_decl ufDecl(const char* name, int arity) {
    static std::map<std::string, Z3_func_decl> m;
    auto it = m.find(name);
    if (it != m.end()) return it->second;
    Z3_sort s[2] = {realSort, realSort};
    Z3_func_decl d = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, name), (unsigned) arity, s, realSort);
    m[name] = d;
    return d;
}

// Applications of transcendental functions are represented by constants, one for each argument. The properties of the
// functions, including functional consistency, are stated explicitly when an application is encountered.
static Z3_ast ufApp(const char* name, Z3_ast arg) {
    static std::map<std::pair<std::string, Z3_ast>, Z3_ast> m;
    auto key = std::make_pair(std::string(name), arg);
    auto it = m.find(key);
    if (it != m.end()) return it->second;
    Z3_inc_ref(C, arg);
    Z3_ast r = Z3_mk_const(C, Z3_mk_string_symbol(C, (std::string(name) + "!" + std::to_string(m.size())).c_str()), realSort);
    Z3_inc_ref(C, r);
    m[key] = r;
    return r;
}

// Decomposes e into a linear combination of non-linear terms
static bool linearTerms(Z3_ast e, double c, std::vector<std::pair<Z3_ast, double>>& terms, double& k, int depth = 0) {
    if (depth > 30) return false;
    if (Z3_get_ast_kind(C, e) == Z3_NUMERAL_AST) {
        k += c * Z3_get_numeral_double(C, e);
        return true;
    }
    if (Z3_get_ast_kind(C, e) == Z3_APP_AST) {
        Z3_app a = Z3_to_app(C, e);
        unsigned n = Z3_get_app_num_args(C, a);
        switch (Z3_get_decl_kind(C, Z3_get_app_decl(C, a))) {
            case Z3_OP_ADD:
                for (unsigned i = 0; i < n; i++)
                    if (!linearTerms(Z3_get_app_arg(C, a, i), c, terms, k, depth + 1)) return false;
                return true;
            case Z3_OP_SUB:
                for (unsigned i = 0; i < n; i++)
                    if (!linearTerms(Z3_get_app_arg(C, a, i), i ? -c : c, terms, k, depth + 1)) return false;
                return true;
            case Z3_OP_UMINUS: return linearTerms(Z3_get_app_arg(C, a, 0), -c, terms, k, depth + 1);
            case Z3_OP_MUL: {
                if (n == 2 && Z3_get_ast_kind(C, Z3_get_app_arg(C, a, 0)) == Z3_NUMERAL_AST)
                    return linearTerms(Z3_get_app_arg(C, a, 1), c * Z3_get_numeral_double(C, Z3_get_app_arg(C, a, 0)), terms, k, depth + 1);
                break;
            }
            default: break;
        }
    }
    for (auto& t : terms)
        if (t.first == e) {
            t.second += c;
            return true;
        }
    terms.push_back({e, c});
    return true;
}

static Val transc(State& st, const std::string& f, Val a, unsigned w);

// exp(a + b - c) = exp(a) * exp(b) / exp(c)
static bool expOfSum(State& st, Val a, unsigned w, Val& out) {
    std::vector<std::pair<Z3_ast, double>> terms;
    double k = 0;
    if (!linearTerms(Z3_simplify(C, a.e), 1, terms, k) || k != 0) return false;
    for (auto it = terms.begin(); it != terms.end();) {
        if (it->second == 0) it = terms.erase(it);
        else ++it;
    }
    if (terms.size() > 4 || (terms.size() == 1 && terms[0].second == 1)) return false;
    for (auto& t : terms)
        if (t.second != std::floor(t.second) || std::fabs(t.second) > 3) return false;
    // only if the exponentials of all terms are needed anyway, or to get rid of a leading minus sign
    // (or if the harness asks for it)
    static bool always = params.count("expandExp") && params["expandExp"];
    bool known = true;
    if (always) {
        // known
    } else for (auto& t : terms) {
        bool found = false;
        for (auto& p : st.ufApps) found = found || (p.first == ufDecl("exp", 1) && p.second.first == t.first);
        known = known && found;
    }
    if (!known) {
        if (terms.size() == 0 || terms[0].second > 0) return false;
        Z3_ast neg = Z3_simplify(C, Z3_mk_unary_minus(C, a.e));
        Val e = transc(st, "exp", Val::SF(neg, w), w);
        if (e.k == V_FP) return false;
        out = Val::SF(Z3_mk_div(C, mkReal(1), e.e), w);
        return true;
    }
    std::vector<Z3_ast> num, den;
    for (auto& t : terms) {
        Z3_inc_ref(C, t.first);
        Val e = transc(st, "exp", Val::SF(t.first, w), w);
        if (e.k == V_FP) return false;
        for (int i = 0; i < (int) std::fabs(t.second); i++) (t.second > 0 ? num : den).push_back(e.e);
    }
    if (num.empty()) num.push_back(mkReal(1));
    Z3_ast r = num.size() == 1 ? num[0] : Z3_mk_mul(C, (unsigned) num.size(), num.data());
    if (!den.empty()) r = Z3_mk_div(C, r, den.size() == 1 ? den[0] : Z3_mk_mul(C, (unsigned) den.size(), den.data()));
    out = Val::SF(r, w);
    return true;
}

// exp/log as uninterpreted, strictly increasing functions
static Val transc(State& st, const std::string& f, Val a, unsigned w) {
    if (a.k == V_FP) {
        double d = a.d;
        double r = f == "exp" ? std::exp(d) : f == "log" ? std::log(d) : f == "log2" ? std::log2(d) : f == "exp2" ? std::exp2(d)
                   : f == "log1p" ? std::log1p(d) : f == "expm1" ? std::expm1(d) : f == "tanh" ? std::tanh(d) : NAN;
        return Val::F(r, w);
    }
    if (optIeee) unsupported("transcendental function in IEEE mode");
    if (a.k == V_UNDEF) a = freshUndef(st, w, true);
    if (f == "exp") {
        Val sum;
        if (expOfSum(st, a, w, sum)) return sum;
    }
    Z3_func_decl d = ufDecl(f.c_str(), 1);
    bool isLog = f.compare(0, 3, "log") == 0;
    if (isLog) {
        Z3_ast bound = mkReal(f == "log1p" ? -1 : 0);
        if (decide(st, mkEq(a.e, bound))) return Val::F(-INFINITY, w);
        if (decide(st, rLt(a.e, bound))) return Val::F(NAN, w);
    }
    Z3_ast r = ufApp(f.c_str(), a.e);
    for (auto& p : st.ufApps)
        if (p.first == d && p.second.first == a.e) return Val::SF(r, w);
    auto ax = [&](Z3_ast e) {
        addLit(st, e, true, true);
    };
    Z3_ast one = mkReal(1), zero = mkReal(0);
    if (f == "exp" || f == "exp2") {
        ax(rLt(zero, r));
        Z3_ast ar[2] = {a.e, one};
        if (f == "exp") ax(Z3_mk_ge(C, r, Z3_mk_add(C, 2, ar)));
        ax(Z3_mk_iff(C, mkEq(a.e, zero), mkEq(r, one)));
        ax(Z3_mk_iff(C, rLt(a.e, zero), rLt(r, one)));
    } else if (f == "log" || f == "log2") {
        ax(Z3_mk_iff(C, mkEq(a.e, one), mkEq(r, zero)));
        ax(Z3_mk_iff(C, rLt(a.e, one), rLt(r, zero)));
        if (f == "log2") {
            Z3_ast two = mkReal(2);
            ax(Z3_mk_iff(C, mkEq(a.e, two), mkEq(r, one)));
            ax(Z3_mk_iff(C, rLt(a.e, two), rLt(r, one)));
        }
    }
    for (auto& p : st.ufApps)
        if (p.first == d) {
            ax(Z3_mk_iff(C, rLt(p.second.first, a.e), rLt(p.second.second, r)));
            ax(Z3_mk_iff(C, mkEq(p.second.first, a.e), mkEq(p.second.second, r)));
        }
    st.ufApps.push_back({d, {a.e, r}});
    st.model = ModelRef();
    return Val::SF(r, w);
}

static Val fpSqrt(State& st, Val a, unsigned w) {
    if (a.k == V_FP) return Val::F(w == 32 ? (double) sqrtf((float) a.d) : std::sqrt(a.d), w);
    if (optIeee) return Val::SF(Z3_mk_fpa_sqrt(C, rmNE, fpAst(st, a)), w);
    Z3_ast zero = mkReal(0);
    if (decide(st, rLt(a.e, zero))) return Val::F(NAN, w);
    Z3_ast r = ufApp("sqrt", a.e);
    for (auto& p : st.ufApps)
        if (p.second.first == a.e && p.second.second == r) return Val::SF(r, w);
    Z3_ast m[2] = {r, r};
    addLit(st, Z3_mk_ge(C, r, zero), true, true);
    addLit(st, mkEq(Z3_mk_mul(C, 2, m), a.e), true, true);
    st.ufApps.push_back({ufDecl("sqrt", 1), {a.e, r}});
    st.model = ModelRef();
    return Val::SF(r, w);
}

static Val fpRoundOp(State& st, int mode, Val a, unsigned w) {
    if (a.k == V_FP) {
        double d = a.d;
        double r = mode == 0 ? std::floor(d) : mode == 1 ? std::ceil(d) : mode == 2 ? std::trunc(d) : mode == 3 ? std::round(d)
                                                                                                            : std::nearbyint(d);
        return Val::F(r, w);
    }
    if (optIeee) {
        Z3_ast rm = mode == 0 ? Z3_mk_fpa_rtn(C) : mode == 1 ? Z3_mk_fpa_rtp(C) : mode == 2 ? rmTZ : mode == 3 ? Z3_mk_fpa_rna(C) : rmNE;
        return Val::SF(Z3_mk_fpa_round_to_integral(C, rm, fpAst(st, a)), w);
    }
    return Val::F(enumRound(st, a, mode), w);
}

static Val fpMinMax(State& st, bool isMax, Val a, Val b, unsigned w) {
    if (a.k == V_FP && std::isnan(a.d)) return b;
    if (b.k == V_FP && std::isnan(b.d)) return a;
    Val c = fpCmp(st, isMax ? CmpInst::FCMP_OLT : CmpInst::FCMP_OLT, a, b, w);
    // isMax: a<b ? b : a ; min: a<b ? a : b
    return isMax ? selectVal(st, c, b, a, false) : selectVal(st, c, a, b, false);
}

static Val fpPow(State& st, Val a, Val b, unsigned w) {
    if (a.k == V_FP && b.k == V_FP) return Val::F(std::pow(a.d, b.d), w);
    if (b.k == V_FP && b.d == std::floor(b.d) && std::fabs(b.d) <= 8) {
        int n = (int) std::fabs(b.d);
        Val r = Val::F(1, w);
        for (int i = 0; i < n; i++) r = fpBin(st, Instruction::FMul, r, a, w);
        if (b.d < 0) r = fpBin(st, Instruction::FDiv, Val::F(1, w), r, w);
        return r;
    }
    if (b.k == V_FP && b.d == 0.5) return fpSqrt(st, a, w);
    if (b.k == V_FP && !optIeee && b.d * 2 == std::floor(b.d * 2) && b.d > 0 && b.d <= 8) {
        Val r = fpSqrt(st, a, w);   // a^(k + 0.5)
        for (int i = 0; i < (int) b.d; i++) r = fpBin(st, Instruction::FMul, r, a, w);
        return r;
    }
    unsupported("pow with symbolic arguments");
}

// -----------------------------------------------------------------------------------------------------------------------
static Z3_ast freshReal(State& st, const std::string& name, int w) {
    std::string n = name + "#" + std::to_string(st.inputs.size());
    return Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), optIeee ? fpSort(w) : realSort);
}

static void doCheck(State& st, Val c, const std::string& msg, const std::string& known) {
    S.checks++;
    checkCount[msg]++;
    st.nchecks++;
    if (c.k == V_INT) {
        if (c.u) return;
        ensureModel(st);
        recordViolation(st, "check", msg, zTrue, st.model, known);
        throw KillEx {"check failed", 3};
    }
    Z3_ast e = boolOf(st, c);
    bool neg;
    Z3_ast n = norm(e, neg);
    int kn = knownLit(st, n);
    if (kn >= 0 && (kn != 0) != neg) return;
    S.checksSolver++;
    ModelRef m;
    Z3_lbool r = query(st, mkNot(e), &m);
    if (r == Z3_L_FALSE) {
        addLit(st, n, !neg, false);
        return;
    }
    if (r == Z3_L_UNDEF) {
        S.checksUnknown++;
        addLit(st, n, !neg, true);
        st.model = ModelRef();
        return;
    }
    recordViolation(st, "check", msg, mkNot(e), m, known);
    // continue on the part of the path where the assertion holds
    assumeAst(st, e);
}

static Val callBuiltin(State& st, Inst& in, std::vector<Val>& a, FnInfo& fi);

static void doThrow(State& st, u64 ptr, u64 ti) {
    S.throws++;
    st.exc.ptr = ptr;
    st.exc.tinfo = ti;
    ctl = true;
    unwind(st);
}

// Allocates and throws an object of one of the standard exception types
static void throwStd(State& st, const char* tiName) {
    u64 p = heapAlloc(st, 64, O_MALLOC);
    u64 ti = symAddr(tiName);
    if (!ti) {
        ensureModel(st);
        recordViolation(st, "exception", std::string("uncaught ") + tiName, zTrue, st.model);
        throw KillEx {"uncaught exception", 3};
    }
    doThrow(st, p, ti);
}

enum {
    B_NONE,
    B_SX_U32, B_SX_I32, B_SX_U64, B_SX_F32, B_SX_F64, B_SX_BOOL, B_SX_CHOICE, B_SX_PARAM, B_SX_ASSUME, B_SX_CHECK, B_SX_NEAR,
    B_SX_KNOWN, B_SX_REACH, B_SX_OBS, B_SX_CONC, B_SX_SYM, B_NEW, B_NEWA, B_DEL, B_DELA, B_MALLOC, B_CALLOC, B_REALLOC,
    B_FREE, B_MEMCPY, B_MEMSET, B_MEMCMP, B_MEMCHR, B_STRLEN, B_STRCMP, B_NOP, B_ZERO, B_THROW, B_ALLOCEXC, B_FREEEXC, B_BEGINCATCH,
    B_ENDCATCH, B_RETHROW, B_DYNCAST, B_GUARDACQ, B_GUARDREL, B_ABORT, B_EXP, B_SQRT, B_FLOOR, B_CEIL, B_ROUND, B_TRUNC,
    B_RINT, B_FABS, B_FMIN, B_FMAX, B_POW, B_FMOD, B_LROUND, B_THROWSTD, B_TOSTRING, B_GETEXCPTR, B_VSNPRINTF,
    B_OMP_FORK, B_OMP_FORINIT, B_OMP_THREADNUM, B_OMP_CRIT, B_OMP_ENDCRIT, B_PAR_ITER, B_STEADY, B_ISNAN
};

static std::map<std::string, std::pair<int, std::string>> builtinTab;

static void initBuiltins() {
    auto d = [&](const char* n, int id, const char* extra = "") {
        builtinTab[n] = {id, extra};
    };
    d("sx_u32", B_SX_U32); d("sx_i32", B_SX_I32); d("sx_u64", B_SX_U64); d("sx_f32", B_SX_F32); d("sx_f64", B_SX_F64);
    d("sx_bool", B_SX_BOOL); d("sx_choice", B_SX_CHOICE); d("sx_param", B_SX_PARAM); d("sx_assume", B_SX_ASSUME);
    d("sx_check", B_SX_CHECK); d("sx_near", B_SX_NEAR); d("sx_known", B_SX_KNOWN); d("sx_reach", B_SX_REACH);
    d("sx_obs", B_SX_OBS); d("sx_concretize", B_SX_CONC); d("sx_symbolic", B_SX_SYM);
    d("sx_par_iter", B_PAR_ITER);
    for (auto n : {"_Znwm", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t"}) d(n, B_NEW);
    for (auto n : {"_Znam", "_ZnamSt11align_val_t", "_ZnamRKSt9nothrow_t"}) d(n, B_NEWA);
    for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) d(n, B_DEL);
    for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}) d(n, B_DELA);
    d("malloc", B_MALLOC); d("calloc", B_CALLOC); d("realloc", B_REALLOC); d("free", B_FREE);
    d("memcpy", B_MEMCPY); d("memmove", B_MEMCPY); d("memset", B_MEMSET); d("memcmp", B_MEMCMP); d("bcmp", B_MEMCMP);
    d("memchr", B_MEMCHR); d("strlen", B_STRLEN); d("strcmp", B_STRCMP);
    for (auto n : {"__cxa_atexit", "printf", "puts", "putchar", "fprintf", "fputs", "pthread_mutex_lock", "pthread_mutex_unlock",
                   "__cxa_thread_atexit", "pthread_once"})
        d(n, B_ZERO);
    for (auto n : {"_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt16invalid_argumentD1Ev", "_ZNSt16invalid_argumentD2Ev",
                   "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt12out_of_rangeD1Ev", "_ZNSt11logic_errorD2Ev",
                   "_ZNSt11logic_errorD1Ev",
                   "_ZNSt16invalid_argumentC1EPKc", "_ZNSt13runtime_errorC1EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt11logic_errorC1EPKc",
                   "_ZNSt12out_of_rangeC1EPKc",
                   "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
                   "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
                   "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
                   "_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
                   "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"})
        d(n, B_NOP);
    d("__cxa_throw", B_THROW); d("__cxa_allocate_exception", B_ALLOCEXC); d("__cxa_free_exception", B_FREEEXC);
    d("__cxa_begin_catch", B_BEGINCATCH); d("__cxa_end_catch", B_ENDCATCH); d("__cxa_rethrow", B_RETHROW);
    d("__cxa_get_exception_ptr", B_GETEXCPTR);
    d("__dynamic_cast", B_DYNCAST); d("__cxa_guard_acquire", B_GUARDACQ); d("__cxa_guard_release", B_GUARDREL);
    d("__cxa_guard_abort", B_NOP);
    for (auto n : {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "exit", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "__assert_fail"})
        d(n, B_ABORT, n);
    for (auto n : {"exp", "log", "log2", "exp2", "log1p", "expm1", "tanh"}) {
        d(n, B_EXP, n);
        static std::set<std::string> keep;
        d(keep.insert(std::string(n) + "f").first->c_str(), B_EXP, n);
    }
    d("sqrt", B_SQRT); d("sqrtf", B_SQRT); d("floor", B_FLOOR); d("floorf", B_FLOOR); d("ceil", B_CEIL); d("ceilf", B_CEIL);
    d("round", B_ROUND); d("roundf", B_ROUND); d("trunc", B_TRUNC); d("truncf", B_TRUNC); d("rint", B_RINT); d("nearbyint", B_RINT);
    d("fabs", B_FABS); d("fabsf", B_FABS); d("fmin", B_FMIN); d("fminf", B_FMIN); d("fmax", B_FMAX); d("fmaxf", B_FMAX);
    d("pow", B_POW); d("powf", B_POW); d("fmod", B_FMOD); d("lround", B_LROUND);
    d("_ZSt20__throw_length_errorPKc", B_THROWSTD, "_ZTISt12length_error");
    d("_ZSt20__throw_out_of_rangePKc", B_THROWSTD, "_ZTISt12out_of_range");
    d("_ZSt24__throw_out_of_range_fmtPKcz", B_THROWSTD, "_ZTISt12out_of_range");
    d("_ZSt19__throw_logic_errorPKc", B_THROWSTD, "_ZTISt11logic_error");
    d("_ZSt17__throw_bad_allocv", B_THROWSTD, "_ZTISt9bad_alloc");
    d("_ZSt28__throw_bad_array_new_lengthv", B_THROWSTD, "_ZTISt20bad_array_new_length");
    d("__cxa_throw_bad_array_new_length", B_THROWSTD, "_ZTISt20bad_array_new_length");
    d("_ZSt25__throw_bad_function_callv", B_THROWSTD, "_ZTISt17bad_function_call");
    d("__cxa_bad_cast", B_THROWSTD, "_ZTISt8bad_cast");
    d("_ZSt16__throw_bad_castv", B_THROWSTD, "_ZTISt8bad_cast");
    d("_ZSt27__throw_bad_optional_accessv", B_THROWSTD, "_ZTISt19bad_optional_access");
    for (auto t : {"i", "j", "l", "m", "x", "y", "f", "d", "e"}) {
        static std::set<std::string> keep;
        d(keep.insert(std::string("_ZNSt7__cxx119to_stringE") + t).first->c_str(), B_TOSTRING);
    }
    d("omp_get_thread_num", B_ZERO); d("omp_get_max_threads", B_ZERO);
    d("_ZNSt6chrono3_V212steady_clock3nowEv", B_STEADY);
}

static Val retUndef(Inst& in) {
    return Val::U(in.w ? in.w : 64);
}

static void addInput(State& st, const std::string& name, char kind, Val v) {
    st.inputs.push_back({name, kind, v});
}

static Val mkFpInput(State& st, const std::string& name, Val lo, Val hi, unsigned w, char kind) {
    if (lo.k != V_FP || hi.k != V_FP) unsupported("bounds of a symbolic input must be concrete");
    Z3_ast e = freshReal(st, name, w);
    addInput(st, name, kind, Val::SF(e, w));
    if (optIeee) {
        assumeAst(st, mkAnd(Z3_mk_fpa_leq(C, fpAst(st, lo), e), Z3_mk_fpa_leq(C, e, fpAst(st, hi))));
    } else {
        assumeAst(st, mkAnd(Z3_mk_le(C, mkReal(lo.d), e), Z3_mk_le(C, e, mkReal(hi.d))));
    }
    return Val::SF(e, w);
}

static Val callBuiltin(State& st, Inst& in, std::vector<Val>& a, FnInfo& fi) {
    unsigned w = in.w;
    switch (fi.bid) {
        case B_SX_U32:
        case B_SX_I32:
        case B_SX_U64: {
            std::string name = readCStr(st, concretize(st, a[0]));
            unsigned bw = fi.bid == B_SX_U64 ? 64 : 32;
            u64 lo = concretize(st, a[1]), hi = concretize(st, a[2]);
            char kind = fi.bid == B_SX_U32 ? 'u' : fi.bid == B_SX_I32 ? 'i' : 'U';
            if (lo == hi) {
                addInput(st, name, kind, Val::I(lo, bw));
                return Val::I(lo, bw);
            }
            std::string n = name + "#" + std::to_string(st.inputs.size());
            Z3_ast e = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_mk_bv_sort(C, bw));
            addInput(st, name, kind, Val::SI(e, bw));
            Z3_ast l = mkBV(lo, bw), h = mkBV(hi, bw);
            if (fi.bid == B_SX_I32) assumeAst(st, mkAnd(Z3_mk_bvsle(C, l, e), Z3_mk_bvsle(C, e, h)));
            else assumeAst(st, mkAnd(Z3_mk_bvule(C, l, e), Z3_mk_bvule(C, e, h)));
            return Val::SI(e, bw);
        }
        case B_SX_F32:
        case B_SX_F64: {
            std::string name = readCStr(st, concretize(st, a[0]));
            unsigned bw = fi.bid == B_SX_F32 ? 32 : 64;
            return mkFpInput(st, name, a[1], a[2], bw, bw == 32 ? 'f' : 'd');
        }
        case B_SX_BOOL: {
            std::string name = readCStr(st, concretize(st, a[0]));
            std::string n = name + "#" + std::to_string(st.inputs.size());
            Z3_ast e = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), boolSort);
            addInput(st, name, 'b', Val::SB(e));
            return Val::SB(e);
        }
        case B_SX_CHOICE: {
            std::string name = readCStr(st, concretize(st, a[0]));
            u64 n = concretize(st, a[1]);
            if (n == 0) throw KillEx {"empty choice", 0};
            std::string nm = name + "#" + std::to_string(st.inputs.size());
            Z3_ast e = Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), Z3_mk_bv_sort(C, 32));
            u64 v = n - 1;
            for (u64 i = 0; i + 1 < n; i++) {
                // eager: all values are feasible, no solver query needed
                Z3_ast q = mkEq(e, mkBV(i, 32));
                int kn = knownLit(st, q);
                if (kn == 1) {
                    v = i;
                    break;
                }
                if (kn == 0) continue;
                State* c = curClone(st);
                addLit(*c, q, false, false);
                addLit(st, q, true, false);
                v = i;
                break;
            }
            addInput(st, name, 'c', Val::I(v, 32));
            return Val::I(v, 32);
        }
        case B_SX_PARAM: {
            std::string name = readCStr(st, concretize(st, a[0]));
            auto it = params.find(name);
            return it == params.end() ? a[1] : Val::I(it->second, 32);
        }
        case B_SX_ASSUME:
            if (a[0].k == V_INT) {
                if (!a[0].u) throw KillEx {"assume", 0};
                return Val();
            }
            assumeAst(st, boolOf(st, a[0]));
            return Val();
        case B_SX_CHECK: doCheck(st, a[0], readCStr(st, concretize(st, a[1])), ""); return Val();
        case B_SX_KNOWN:
            doCheck(st, a[1], readCStr(st, concretize(st, a[2])), readCStr(st, concretize(st, a[0])));
            return Val();
        case B_SX_NEAR: {
            std::string msg = readCStr(st, concretize(st, a[2]));
            Val x = toFpType(st, a[0], 64), y = toFpType(st, a[1], 64);
            if (x.k == V_FP && y.k == V_FP) {
                bool ok = x.d == y.d || (std::isnan(x.d) && std::isnan(y.d))
                          || std::fabs(x.d - y.d) <= 1e-5 * std::max(1.0, std::max(std::fabs(x.d), std::fabs(y.d)));
                doCheck(st, boolVal(ok), msg, "");
                return Val();
            }
            if (special(x) || special(y)) {
                if (optIeee) unsupported("sx_near in IEEE mode");
                doCheck(st, boolVal(false), msg, "");
                return Val();
            }
            if (optIeee) {
                doCheck(st, Val::SB(Z3_mk_fpa_eq(C, fpAst(st, x), fpAst(st, y))), msg, "");
                return Val();
            }
            Z3_ast p = fpAst(st, x), q = fpAst(st, y);
            if (p == q) {
                doCheck(st, boolVal(true), msg, "");
                return Val();
            }
            Z3_ast ar[2] = {p, q};
            Z3_ast df = Z3_mk_sub(C, 2, ar);
            if (!st.ufApps.empty()) {
                // non-linear terms that are equal are easier to deal with if there is no tolerance
                double t0 = now();
                S.queries++;
                Z3_lbool r = checkFreshLogic(st, mkNot(mkEq(p, q)), nullptr, "QF_NRA", optQueryMs);
                S.solverTime += now() - t0;
                if (r == Z3_L_FALSE) {
                    S.unsat++;
                    doCheck(st, boolVal(true), msg, "");
                    return Val();
                }
            }
            Z3_ast tol = mkReal(1.0 / 131072), ntol = mkReal(-1.0 / 131072);
            doCheck(st, Val::SB(mkAnd(Z3_mk_le(C, df, tol), Z3_mk_ge(C, df, ntol))), msg, "");
            return Val();
        }
        case B_SX_REACH: reachCount[readCStr(st, concretize(st, a[0]))]++; return Val();
        case B_SX_OBS: st.obs.push_back({readCStr(st, concretize(st, a[0])), a[1]}); return Val();
        case B_SX_CONC: return Val::I(concretize(st, a[0]), 64);
        case B_SX_SYM: return Val::I(1, 32);
        case B_PAR_ITER: {
            // sx_par_iter(i): i >= 0 starts iteration i of a parallel loop, -1 ends the loop
            i64 it = sx(concretize(st, a[0]), 32);
            st.parIter = (int) it;
            if (it < 0) st.foot.clear();
            return Val();
        }
        case B_NEW:
        case B_MALLOC:
        case B_NEWA: {
            u64 n = concretize(st, a[0]);
            if (n > OBJ_MASK - 64) {
                // an attempt to allocate more than the modelled limit
                throwStd(st, "_ZTISt9bad_alloc");
                return Val();
            }
            return Val::I(heapAlloc(st, n, fi.bid == B_NEW ? O_HEAP : fi.bid == B_NEWA ? O_HEAP_ARRAY : O_MALLOC), 64);
        }
        case B_CALLOC: {
            u64 n = concretize(st, a[0]) * concretize(st, a[1]);
            u64 p = heapAlloc(st, n, O_MALLOC);
            Obj* o = objAt(st, p, true);
            std::fill(o->st.begin(), o->st.end(), 1);
            return Val::I(p, 64);
        }
        case B_REALLOC: {
            u64 old = concretize(st, a[0]), n = concretize(st, a[1]);
            u64 p = heapAlloc(st, n, O_MALLOC);
            if (old) {
                Obj* o = objAt(st, old, false);
                if (!o || o->freed) memError(st, "realloc of an invalid pointer");
                memCopy(st, p, old, std::min<u64>(n, o->size));
                heapFree(st, old);
            }
            return Val::I(p, 64);
        }
        case B_DEL:
        case B_DELA:
        case B_FREE: {
            u64 p = concretize(st, a[0]);
            if (p) {
                Obj* o = objAt(st, p, false);
                if (o && !o->freed && o->kind <= O_MALLOC) {
                    int want = fi.bid == B_DEL ? O_HEAP : fi.bid == B_DELA ? O_HEAP_ARRAY : O_MALLOC;
                    if (o->kind != want) memError(st, "mismatched allocation and deallocation functions");
                }
            }
            heapFree(st, p);
            return Val();
        }
        case B_MEMCPY: {
            u64 n = concretize(st, a[2]), dst = concretize(st, a[0]), src = concretize(st, a[1]);
            memCopy(st, dst, src, n);
            return a[0];
        }
        case B_MEMSET: {
            u64 n = concretize(st, a[2]), dst = concretize(st, a[0]);
            if (n == 0) return a[0];
            Val b = a[1];
            if (b.k == V_INT) b = Val::I(b.u, 8);
            else if (b.k != V_UNDEF) b = extractBits(st, b, 0, 8);
            u32 off;
            Obj* o = access(st, dst, n, true, off);
            clearCells(st, o, off, (u32) n);
            if (b.k == V_INT) {
                memset(&o->data[off], (int) b.u, n);
                memset(&o->st[off], 1, n);
            } else
                for (u64 i = 0; i < n; i++) writeVal(st, o, off + (u32) i, b, 1);
            return a[0];
        }
        case B_MEMCMP:
        case B_STRCMP: {
            u64 n = fi.bid == B_MEMCMP ? concretize(st, a[2]) : 1 << 20, p = concretize(st, a[0]), q = concretize(st, a[1]);
            MemLeaf l {0, 0, 0, 8};
            for (u64 i = 0; i < n; i++) {
                Val x = loadScalar(st, p + i, l), y = loadScalar(st, q + i, l);
                Val eq = intCmp(st, CmpInst::ICMP_EQ, x, y, 8);
                bool e = eq.k == V_INT ? eq.u != 0 : decide(st, boolOf(st, eq));
                if (!e) {
                    Val lt = intCmp(st, CmpInst::ICMP_ULT, x, y, 8);
                    bool less = lt.k == V_INT ? lt.u != 0 : decide(st, boolOf(st, lt));
                    return Val::I(less ? (u64) -1 : 1, 32);
                }
                if (fi.bid == B_STRCMP && x.k == V_INT && x.u == 0) break;
            }
            return Val::I(0, 32);
        }
        case B_MEMCHR: {
            u64 n = concretize(st, a[2]), p = concretize(st, a[0]), c = concretize(st, a[1]) & 255;
            MemLeaf l {0, 0, 0, 8};
            for (u64 i = 0; i < n; i++) {
                Val x = loadScalar(st, p + i, l);
                if (concretize(st, x) == c) return Val::I(p + i, 64);
            }
            return Val::I(0, 64);
        }
        case B_STRLEN: return Val::I(readCStr(st, concretize(st, a[0])).size(), 64);
        case B_NOP: return retUndef(in);
        case B_ZERO: return Val::I(0, w ? w : 32);
        case B_THROW: doThrow(st, concretize(st, a[0]), concretize(st, a[1])); return Val();
        case B_ALLOCEXC: return Val::I(heapAlloc(st, concretize(st, a[0]), O_MALLOC), 64);
        case B_FREEEXC: heapFree(st, concretize(st, a[0])); return Val();
        case B_GETEXCPTR: return a[0];
        case B_BEGINCATCH:
            st.caught.push_back(st.exc);
            return a[0];
        case B_ENDCATCH:
            if (!st.caught.empty()) st.caught.pop_back();
            return Val();
        case B_RETHROW: {
            if (st.caught.empty()) unsupported("rethrow without exception");
            ExcObj e = st.caught.back();
            doThrow(st, e.ptr, e.tinfo);
            return Val();
        }
        case B_DYNCAST: {
            u64 p = concretize(st, a[0]), dst = concretize(st, a[2]);
            if (!p) return Val::I(0, 64);
            u64 vptr = rdPtr(st, p);
            i64 top = (i64) rdPtr(st, vptr - 16);
            u64 ti = rdPtr(st, vptr - 8);
            u64 obj = p + top;
            std::vector<i64> f;
            findBase(st, ti, dst, 0, obj, f);
            std::sort(f.begin(), f.end());
            f.erase(std::unique(f.begin(), f.end()), f.end());
            if (f.size() != 1) return Val::I(0, 64);
            return Val::I(obj + f[0], 64);
        }
        case B_GUARDACQ: {
            u64 p = concretize(st, a[0]);
            MemLeaf l {0, 0, 0, 8};
            Val v = loadScalar(st, p, l);
            return Val::I(v.k == V_INT && v.u ? 0 : 1, 32);
        }
        case B_GUARDREL: {
            MemLeaf l {0, 0, 0, 8};
            storeScalar(st, concretize(st, a[0]), l, Val::I(1, 8));
            return Val();
        }
        case B_ABORT: {
            ensureModel(st);
            std::string m = "abnormal termination (" + builtinTab[fi.name].second + ")";
            if (fi.name == "_ZSt21__glibcxx_assert_failPKciS0_S0_")
                m = "violated library precondition: " + readCStr(st, concretize(st, a[3]));
            recordViolation(st, "abort", m + " in " + demangle(st.frames.back().fn->name), zTrue, st.model);
            throw KillEx {"abort", 3};
        }
        case B_EXP: return transc(st, builtinTab[fi.name].second, toFpType(st, a[0], w), w);
        case B_SQRT: return fpSqrt(st, toFpType(st, a[0], w), w);
        case B_FLOOR: return fpRoundOp(st, 0, a[0], w);
        case B_CEIL: return fpRoundOp(st, 1, a[0], w);
        case B_TRUNC: return fpRoundOp(st, 2, a[0], w);
        case B_ROUND: return fpRoundOp(st, 3, a[0], w);
        case B_RINT: return fpRoundOp(st, 4, a[0], w);
        case B_LROUND: {
            Val r = fpRoundOp(st, 3, a[0], 64);
            return castFp(st, Instruction::FPToSI, r, 64, 64);
        }
        case B_FABS: return fpAbs(st, a[0], w);
        case B_FMIN: return fpMinMax(st, false, a[0], a[1], w);
        case B_FMAX: return fpMinMax(st, true, a[0], a[1], w);
        case B_POW: return fpPow(st, a[0], a[1], w);
        case B_FMOD: return fpBin(st, Instruction::FRem, a[0], a[1], w);
        case B_THROWSTD: throwStd(st, builtinTab[fi.name].second.c_str()); return Val();
        case B_TOSTRING: {
            // sret std::string: becomes the empty string (the text of messages is not modelled)
            u64 p = concretize(st, a[0]);
            MemLeaf l64 {0, 0, 0, 64}, l8 {0, 0, 0, 8};
            storeScalar(st, p, l64, Val::I(p + 16, 64));
            storeScalar(st, p + 8, l64, Val::I(0, 64));
            storeScalar(st, p + 16, l8, Val::I(0, 8));
            return Val();
        }
        case B_STEADY: {
            // an arbitrary, non-decreasing instant (nanoseconds); bounded to 2^62
            std::string n = "clock#" + std::to_string(st.inputs.size());
            Z3_ast e = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_mk_bv_sort(C, 64));
            addInput(st, "clock", 'U', Val::SI(e, 64));
            Z3_ast lo = st.lastMonoTime ? st.lastMonoTime : mkBV(0, 64);
            assumeAst(st, mkAnd(Z3_mk_bvule(C, lo, e), Z3_mk_bvule(C, e, mkBV(1ULL << 50, 64))));
            st.lastMonoTime = e;
            return Val::SI(e, 64);
        }
    }
    unsupported("builtin " + fi.name);
}

static Val callIntrinsic(State& st, Inst& in, std::vector<Val>& a, unsigned id) {
    unsigned w = in.w;
    hasExtra = false;
    switch (id) {
        case Intrinsic::memcpy:
        case Intrinsic::memmove:
        case Intrinsic::memcpy_inline: {
            u64 n = concretize(st, a[2]), dst = concretize(st, a[0]), src = concretize(st, a[1]);
            memCopy(st, dst, src, n);
            return Val();
        }
        case Intrinsic::memset: {
            static FnInfo tmp;
            tmp.bid = B_MEMSET;
            callBuiltin(st, in, a, tmp);
            return Val();
        }
        case Intrinsic::smax: return selectVal(st, intCmp(st, CmpInst::ICMP_SGT, a[0], a[1], w), a[0], a[1], false);
        case Intrinsic::smin: return selectVal(st, intCmp(st, CmpInst::ICMP_SLT, a[0], a[1], w), a[0], a[1], false);
        case Intrinsic::umax: return selectVal(st, intCmp(st, CmpInst::ICMP_UGT, a[0], a[1], w), a[0], a[1], false);
        case Intrinsic::umin: return selectVal(st, intCmp(st, CmpInst::ICMP_ULT, a[0], a[1], w), a[0], a[1], false);
        case Intrinsic::abs: {
            Val z = Val::I(0, w);
            return selectVal(st, intCmp(st, CmpInst::ICMP_SLT, a[0], z, w), intBin(st, Instruction::Sub, z, a[0], w), a[0], false);
        }
        case Intrinsic::usub_sat:
            return selectVal(st, intCmp(st, CmpInst::ICMP_UGT, a[0], a[1], w), intBin(st, Instruction::Sub, a[0], a[1], w),
                             Val::I(0, w), false);
        case Intrinsic::uadd_sat: {
            Val s = intBin(st, Instruction::Add, a[0], a[1], w);
            return selectVal(st, intCmp(st, CmpInst::ICMP_ULT, s, a[0], w), Val::I(~0ULL, w), s, false);
        }
        case Intrinsic::umul_with_overflow:
        case Intrinsic::uadd_with_overflow:
        case Intrinsic::usub_with_overflow:
        case Intrinsic::smul_with_overflow:
        case Intrinsic::sadd_with_overflow:
        case Intrinsic::ssub_with_overflow: {
            unsigned bw = a[0].w;
            hasExtra = true;
            bool sg = id == Intrinsic::smul_with_overflow || id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow;
            unsigned op = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow)   ? Instruction::Mul
                          : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add
                                                                                                         : Instruction::Sub;
            if (a[0].k == V_INT && a[1].k == V_INT && bw <= 64) {
                u64 x = a[0].u, y = a[1].u;
                bool ov;
                u64 r;
                if (sg) {
                    __int128 p = sx(x, bw), q = sx(y, bw);
                    __int128 z = op == Instruction::Mul ? p * q : op == Instruction::Add ? p + q : p - q;
                    r = (u64) z;
                    ov = (__int128) sx(r, bw) != z;
                } else {
                    unsigned __int128 p = x, q = y;
                    unsigned __int128 z = op == Instruction::Mul ? p * q : op == Instruction::Add ? p + q : p - q;
                    r = (u64) z;
                    ov = op == Instruction::Sub ? x < y : (z >> bw) != 0;
                }
                extraRet = boolVal(ov);
                return Val::I(r, bw);
            }
            Z3_ast x = bvOf(st, a[0]), y = bvOf(st, a[1]);
            Z3_ast ok;
            if (op == Instruction::Mul) ok = sg ? mkAnd(Z3_mk_bvmul_no_overflow(C, x, y, true), Z3_mk_bvmul_no_underflow(C, x, y)) : Z3_mk_bvmul_no_overflow(C, x, y, false);
            else if (op == Instruction::Add) ok = sg ? mkAnd(Z3_mk_bvadd_no_overflow(C, x, y, true), Z3_mk_bvadd_no_underflow(C, x, y)) : Z3_mk_bvadd_no_overflow(C, x, y, false);
            else ok = sg ? mkAnd(Z3_mk_bvsub_no_overflow(C, x, y), Z3_mk_bvsub_no_underflow(C, x, y, true)) : Z3_mk_bvuge(C, x, y);
            extraRet = Val::SB(mkNot(ok));
            return intBin(st, op, a[0], a[1], bw);
        }
        case Intrinsic::fabs: return fpAbs(st, toFpType(st, a[0], w), w);
        case Intrinsic::sqrt: return fpSqrt(st, toFpType(st, a[0], w), w);
        case Intrinsic::floor: return fpRoundOp(st, 0, toFpType(st, a[0], w), w);
        case Intrinsic::ceil: return fpRoundOp(st, 1, toFpType(st, a[0], w), w);
        case Intrinsic::trunc: return fpRoundOp(st, 2, toFpType(st, a[0], w), w);
        case Intrinsic::round: return fpRoundOp(st, 3, toFpType(st, a[0], w), w);
        case Intrinsic::rint:
        case Intrinsic::roundeven:
        case Intrinsic::nearbyint: return fpRoundOp(st, 4, toFpType(st, a[0], w), w);
        case Intrinsic::minnum: return fpMinMax(st, false, toFpType(st, a[0], w), toFpType(st, a[1], w), w);
        case Intrinsic::maxnum: return fpMinMax(st, true, toFpType(st, a[0], w), toFpType(st, a[1], w), w);
        case Intrinsic::fmuladd:
        case Intrinsic::fma:
            return fpBin(st, Instruction::FAdd, fpBin(st, Instruction::FMul, toFpType(st, a[0], w), toFpType(st, a[1], w), w),
                         toFpType(st, a[2], w), w);
        case Intrinsic::exp: return transc(st, "exp", toFpType(st, a[0], w), w);
        case Intrinsic::exp2: return transc(st, "exp2", toFpType(st, a[0], w), w);
        case Intrinsic::log: return transc(st, "log", toFpType(st, a[0], w), w);
        case Intrinsic::log2: return transc(st, "log2", toFpType(st, a[0], w), w);
        case Intrinsic::pow: return fpPow(st, toFpType(st, a[0], w), toFpType(st, a[1], w), w);
        case Intrinsic::powi: {
            i64 n = sx(concretize(st, a[1]), 32);
            return fpPow(st, toFpType(st, a[0], w), Val::F((double) n, w), w);
        }
        case Intrinsic::copysign: {
            Val m = fpAbs(st, toFpType(st, a[0], w), w), s = toFpType(st, a[1], w);
            if (s.k == V_FP) return std::signbit(s.d) ? fpNeg(st, m, w) : m;
            Val lt = fpCmp(st, CmpInst::FCMP_OLT, s, Val::F(0, w), w);
            return selectVal(st, lt, fpNeg(st, m, w), m, false);
        }
        case Intrinsic::is_fpclass: {
            u64 mask = concretize(st, a[1]);
            unsigned bw = a[0].w;
            Val x = toFpType(st, a[0], bw);
            if (x.k == V_FP) {
                double d = x.d;
                unsigned m = std::isnan(d)             ? 3
                             : std::isinf(d)           ? (d < 0 ? 4 : 512)
                             : d == 0                  ? (std::signbit(d) ? 32 : 64)
                             : (bw == 32 ? std::fpclassify((float) d) : std::fpclassify(d)) == FP_SUBNORMAL ? (d < 0 ? 16 : 128)
                                                       : (d < 0 ? 8 : 256);
                return boolVal((m & mask) != 0);
            }
            if (optIeee) {
                Z3_ast r = zFalse;
                if ((mask & 3) == 3) r = mkOr(r, Z3_mk_fpa_is_nan(C, x.e));
                else if (mask & 3) unsupported("is_fpclass");
                Z3_ast ng = Z3_mk_fpa_is_negative(C, x.e), ps = Z3_mk_fpa_is_positive(C, x.e);
                if (mask & 4) r = mkOr(r, mkAnd(ng, Z3_mk_fpa_is_infinite(C, x.e)));
                if (mask & 512) r = mkOr(r, mkAnd(ps, Z3_mk_fpa_is_infinite(C, x.e)));
                if (mask & 32) r = mkOr(r, mkAnd(ng, Z3_mk_fpa_is_zero(C, x.e)));
                if (mask & 64) r = mkOr(r, mkAnd(ps, Z3_mk_fpa_is_zero(C, x.e)));
                if (mask & 16) r = mkOr(r, mkAnd(ng, Z3_mk_fpa_is_subnormal(C, x.e)));
                if (mask & 128) r = mkOr(r, mkAnd(ps, Z3_mk_fpa_is_subnormal(C, x.e)));
                if (mask & 8) r = mkOr(r, mkAnd(ng, Z3_mk_fpa_is_normal(C, x.e)));
                if (mask & 256) r = mkOr(r, mkAnd(ps, Z3_mk_fpa_is_normal(C, x.e)));
                return Val::SB(r);
            }
            // a finite real
            unsigned fin = 8 | 16 | 32 | 64 | 128 | 256;
            if ((mask & fin) == fin) return boolVal(true);
            if ((mask & fin) == 0) return boolVal(false);
            unsupported("is_fpclass of a symbolic real");
        }
        case Intrinsic::ctpop: {
            if (a[0].k == V_INT) return Val::I((u64) __builtin_popcountll(a[0].u), w);
            Z3_ast e = bvOf(st, a[0]), r = mkBV(0, w);
            for (unsigned i = 0; i < w; i++) {
                Z3_ast b = Z3_mk_extract(C, i, i, e);
                r = Z3_mk_bvadd(C, r, Z3_mk_zero_ext(C, w - 1, b));
            }
            return Val::SI(Z3_simplify(C, r), w);
        }
        case Intrinsic::ctlz: {
            u64 c = concretize(st, a[0]);
            unsigned n = 0;
            for (int i = (int) w - 1; i >= 0 && !((c >> i) & 1); i--) n++;
            return Val::I(n, w);
        }
        case Intrinsic::cttz: {
            u64 c = concretize(st, a[0]);
            unsigned n = 0;
            for (unsigned i = 0; i < w && !((c >> i) & 1); i++) n++;
            return Val::I(n, w);
        }
        case Intrinsic::bswap: {
            u64 c = concretize(st, a[0]), r = 0;
            for (unsigned i = 0; i < w / 8; i++) r |= ((c >> (8 * i)) & 255) << (w - 8 - 8 * i);
            return Val::I(r, w);
        }
        case Intrinsic::fshl:
        case Intrinsic::fshr: {
            u64 s = concretize(st, a[2]) % w;
            if (id == Intrinsic::fshr) s = (w - s) % w;
            if (s == 0) return id == Intrinsic::fshl ? a[0] : a[1];
            return intBin(st, Instruction::Or, intBin(st, Instruction::Shl, a[0], Val::I(s, w), w),
                          intBin(st, Instruction::LShr, a[1], Val::I(w - s, w), w), w);
        }
        case Intrinsic::expect: return a[0];
        case Intrinsic::eh_typeid_for: return Val::I(1 + ((concretize(st, a[0]) >> OBJ_SHIFT) & 0xffffff), 32);
        case Intrinsic::trap:
        case Intrinsic::ubsantrap: memError(st, "trap");
        case Intrinsic::is_constant: return boolVal(false);
        case Intrinsic::objectsize: return Val::I(~0ULL, w);
        case Intrinsic::threadlocal_address: return a[0];
        case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group: return a[0];
        case Intrinsic::load_relative: unsupported("load.relative");
        case Intrinsic::fptoui_sat:
        case Intrinsic::fptosi_sat: unsupported("fpto_sat");
    }
    unsupported("intrinsic " + Intrinsic::getBaseName(id).str());
}
