// Operations on values -------------------------------------------------------------------------------------------------

static Val intBin(State& st, unsigned op, Val a, Val b, unsigned w);

static bool packOp(State& st, unsigned op, const Val& a, const Val& b, unsigned w, Val& out) {
    // shifts by constants, masks, and "or" of disjoint packs
    if (a.k == V_PK && b.k == V_INT) {
        if (op == Instruction::LShr) {
            unsigned s = (unsigned) b.u;
            std::vector<Val> v;
            Val hi = extractBits(st, a, s, w - s);
            if (hi.k == V_PK) v = hi.p->pieces;
            else v.push_back(hi);
            if (s) v.push_back(Val::I(0, s));
            out = mkPack(v);
            return true;
        }
        if (op == Instruction::Shl) {
            unsigned s = (unsigned) b.u;
            std::vector<Val> v;
            if (s) v.push_back(Val::I(0, s));
            Val lo = extractBits(st, a, 0, w - s);
            if (lo.k == V_PK) v.insert(v.end(), lo.p->pieces.begin(), lo.p->pieces.end());
            else v.push_back(lo);
            out = mkPack(v);
            return true;
        }
        if (op == Instruction::And && w <= 64) {
            std::vector<Val> v;
            unsigned pos = 0;
            for (auto& p : a.p->pieces) {
                u64 m = (b.u >> pos) & (p.w >= 64 ? ~0ULL : ((1ULL << p.w) - 1));
                u64 full = p.w >= 64 ? ~0ULL : ((1ULL << p.w) - 1);
                if (m == full) v.push_back(p);
                else if (m == 0) v.push_back(Val::I(0, p.w));
                else if (p.k == V_INT) v.push_back(Val::I(p.u & m, p.w));
                else return false;
                pos += p.w;
            }
            out = mkPack(v);
            return true;
        }
    }
    if (op == Instruction::Or && (a.k == V_PK || b.k == V_PK) && w <= 64) {
        // piecewise: one side must be zero
        std::set<unsigned> cuts;
        auto addCuts = [&](const Val& x) {
            if (x.k != V_PK) return;
            unsigned pos = 0;
            for (auto& p : x.p->pieces) {
                cuts.insert(pos);
                pos += p.w;
            }
        };
        auto addConc = [&](const Val& x) {
            // byte cuts where concrete pieces change between zero / non-zero
            if (x.k == V_INT)
                for (unsigned i = 0; i < w; i += 8) cuts.insert(i);
        };
        addCuts(a);
        addCuts(b);
        if (cuts.empty()) {
            addConc(a);
            addConc(b);
        }
        cuts.insert(0);
        cuts.insert(w);
        std::vector<Val> v;
        for (auto it = cuts.begin(); std::next(it) != cuts.end(); ++it) {
            unsigned lo = *it, n = *std::next(it) - lo;
            Val x = extractBits(st, a, lo, n), y = extractBits(st, b, lo, n);
            if (x.k == V_INT && x.u == 0) v.push_back(y);
            else if (y.k == V_INT && y.u == 0) v.push_back(x);
            else if (x.k == V_INT && y.k == V_INT) v.push_back(Val::I(x.u | y.u, n));
            else if (x.k == V_UNDEF || y.k == V_UNDEF) v.push_back(Val::U(n));
            else return false;
        }
        out = mkPack(v);
        return true;
    }
    return false;
}

static u64 concBin(State& st, unsigned op, u64 a, u64 b, unsigned w) {
    switch (op) {
        case Instruction::Add: return a + b;
        case Instruction::Sub: return a - b;
        case Instruction::Mul: return a * b;
        case Instruction::And: return a & b;
        case Instruction::Or: return a | b;
        case Instruction::Xor: return a ^ b;
        case Instruction::Shl: return b >= w ? 0 : a << b;
        case Instruction::LShr: return b >= w ? 0 : a >> b;
        case Instruction::AShr: return b >= w ? (sx(a, w) < 0 ? ~0ULL : 0) : (u64) (sx(a, w) >> b);
        case Instruction::UDiv:
            if (!b) memError(st, "integer division by zero");
            return a / b;
        case Instruction::URem:
            if (!b) memError(st, "integer division by zero");
            return a % b;
        case Instruction::SDiv:
            if (!b) memError(st, "integer division by zero");
            if (sx(b, w) == -1) return 0 - a;
            return (u64) (sx(a, w) / sx(b, w));
        case Instruction::SRem:
            if (!b) memError(st, "integer division by zero");
            if (sx(b, w) == -1) return 0;
            return (u64) (sx(a, w) % sx(b, w));
    }
    unsupported("concBin");
}

static Val intBin(State& st, unsigned op, Val a, Val b, unsigned w) {
    if (a.k == V_INT && b.k == V_INT && w <= 64) return Val::I(concBin(st, op, a.u, b.u, w), w);
    if (a.k == V_UNDEF) a = freshUndef(st, w, false);
    if (b.k == V_UNDEF) b = freshUndef(st, w, false);
    if (w == 1) {
        Z3_ast x = boolOf(st, a), y = boolOf(st, b);
        switch (op) {
            case Instruction::And: return Val::SB(mkAnd(x, y));
            case Instruction::Or: return Val::SB(mkOr(x, y));
            case Instruction::Xor:
                if (x == zTrue) return Val::SB(mkNot(y));
                if (y == zTrue) return Val::SB(mkNot(x));
                if (x == zFalse) return Val::SB(y);
                if (y == zFalse) return Val::SB(x);
                return Val::SB(Z3_mk_xor(C, x, y));
            default: unsupported("i1 arithmetic");
        }
    }
    if (a.k == V_PK || b.k == V_PK || a.k == V_SF || b.k == V_SF) {
        Val out;
        if (packOp(st, op, a, b, w, out)) return out;
        a = asInt(st, a);
        b = asInt(st, b);
    }
    if (a.k == V_INT && b.k == V_INT && w <= 64) return Val::I(concBin(st, op, a.u, b.u, w), w);
    // identities
    if (b.k == V_INT && b.u == 0
        && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Or || op == Instruction::Xor
            || op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr))
        return a;
    if (a.k == V_INT && a.u == 0 && (op == Instruction::Add || op == Instruction::Or || op == Instruction::Xor)) return b;
    if (b.k == V_INT && b.u == 1 && (op == Instruction::Mul || op == Instruction::UDiv || op == Instruction::SDiv)) return a;
    if (a.k == V_INT && a.u == 1 && op == Instruction::Mul) return b;
    if ((op == Instruction::Mul || op == Instruction::And)
        && ((a.k == V_INT && a.u == 0) || (b.k == V_INT && b.u == 0)))
        return Val::I(0, w);
    bool isDiv = op == Instruction::UDiv || op == Instruction::URem || op == Instruction::SDiv || op == Instruction::SRem;
    if (w <= 64) {
        if (a.k == V_SI && b.k == V_INT) {
            auto it = iteInfo.find(a.e);
            if (it != iteInfo.end() && !(isDiv && !b.u))
                return iteVal(it->second.b, concBin(st, op, it->second.t, b.u, w), concBin(st, op, it->second.f, b.u, w), w);
        }
        if (b.k == V_SI && a.k == V_INT && !isDiv) {
            auto it = iteInfo.find(b.e);
            if (it != iteInfo.end())
                return iteVal(it->second.b, concBin(st, op, a.u, it->second.t, w), concBin(st, op, a.u, it->second.f, w), w);
        }
    }
    if (isDiv) {
        if (decide(st, mkEq(bvOf(st, b), mkBV(0, w)))) memError(st, "integer division by zero");
    }
    Z3_ast x = bvOf(st, a), y = bvOf(st, b);
    Z3_ast r;
    switch (op) {
        case Instruction::Add: r = Z3_mk_bvadd(C, x, y); break;
        case Instruction::Sub: r = Z3_mk_bvsub(C, x, y); break;
        case Instruction::Mul: r = Z3_mk_bvmul(C, x, y); break;
        case Instruction::And: r = Z3_mk_bvand(C, x, y); break;
        case Instruction::Or: r = Z3_mk_bvor(C, x, y); break;
        case Instruction::Xor: r = Z3_mk_bvxor(C, x, y); break;
        case Instruction::Shl: r = Z3_mk_bvshl(C, x, y); break;
        case Instruction::LShr: r = Z3_mk_bvlshr(C, x, y); break;
        case Instruction::AShr: r = Z3_mk_bvashr(C, x, y); break;
        case Instruction::UDiv: r = Z3_mk_bvudiv(C, x, y); break;
        case Instruction::URem: r = Z3_mk_bvurem(C, x, y); break;
        case Instruction::SDiv: r = Z3_mk_bvsdiv(C, x, y); break;
        case Instruction::SRem: r = Z3_mk_bvsrem(C, x, y); break;
        default: unsupported("intBin");
    }
    r = Z3_simplify(C, r);
    u64 cv;
    if (w <= 64 && Z3_get_ast_kind(C, r) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(C, r, &cv)) return Val::I(cv, w);
    return Val::SI(r, w);
}

static bool concCmp(unsigned pred, u64 a, u64 b, unsigned w) {
    switch (pred) {
        case CmpInst::ICMP_EQ: return a == b;
        case CmpInst::ICMP_NE: return a != b;
        case CmpInst::ICMP_UGT: return a > b;
        case CmpInst::ICMP_UGE: return a >= b;
        case CmpInst::ICMP_ULT: return a < b;
        case CmpInst::ICMP_ULE: return a <= b;
        case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w);
        case CmpInst::ICMP_SGE: return sx(a, w) >= sx(b, w);
        case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w);
        case CmpInst::ICMP_SLE: return sx(a, w) <= sx(b, w);
    }
    return false;
}

static Val boolVal(bool b) {
    return Val::I(b, 1);
}

static Val intCmp(State& st, unsigned pred, Val a, Val b, unsigned w) {
    if (a.k == V_INT && b.k == V_INT && w <= 64) return boolVal(concCmp(pred, a.u, b.u, w));
    if (a.k == V_UNDEF) a = freshUndef(st, w, false);
    if (b.k == V_UNDEF) b = freshUndef(st, w, false);
    if (a.k == V_PK || a.k == V_SF) a = asInt(st, a);
    if (b.k == V_PK || b.k == V_SF) b = asInt(st, b);
    if (w == 1) {
        Z3_ast x = boolOf(st, a), y = boolOf(st, b);
        Z3_ast eq = x == zTrue ? y : y == zTrue ? x : x == zFalse ? mkNot(y) : y == zFalse ? mkNot(x) : Z3_mk_iff(C, x, y);
        switch (pred) {
            case CmpInst::ICMP_EQ: return Val::SB(eq);
            case CmpInst::ICMP_NE: return Val::SB(mkNot(eq));
            case CmpInst::ICMP_UGT: return Val::SB(mkAnd(x, mkNot(y)));
            case CmpInst::ICMP_UGE: return Val::SB(mkOr(x, mkNot(y)));
            case CmpInst::ICMP_ULT: return Val::SB(mkAnd(mkNot(x), y));
            case CmpInst::ICMP_ULE: return Val::SB(mkOr(mkNot(x), y));
            default: unsupported("signed i1 comparison");
        }
    }
    if (w <= 64) {
        if (a.k == V_SI && b.k == V_INT) {
            auto it = iteInfo.find(a.e);
            if (it != iteInfo.end())
                return iteVal(it->second.b, concCmp(pred, it->second.t, b.u, w), concCmp(pred, it->second.f, b.u, w), 1);
        }
        if (b.k == V_SI && a.k == V_INT) {
            auto it = iteInfo.find(b.e);
            if (it != iteInfo.end())
                return iteVal(it->second.b, concCmp(pred, a.u, it->second.t, w), concCmp(pred, a.u, it->second.f, w), 1);
        }
    }
    Z3_ast x = bvOf(st, a), y = bvOf(st, b);
    Z3_ast r;
    switch (pred) {
        case CmpInst::ICMP_EQ: r = mkEq(x, y); break;
        case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break;
        case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(C, x, y); break;
        case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(C, x, y); break;
        case CmpInst::ICMP_ULT: r = Z3_mk_bvult(C, x, y); break;
        case CmpInst::ICMP_ULE: r = Z3_mk_bvule(C, x, y); break;
        case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(C, x, y); break;
        case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(C, x, y); break;
        case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(C, x, y); break;
        case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(C, x, y); break;
        default: unsupported("icmp");
    }
    return Val::SB(Z3_simplify(C, r));
}

// Floating point -------------------------------------------------------------------------------------------------------

static Z3_ast rLt(Z3_ast a, Z3_ast b) {
    return Z3_mk_lt(C, a, b);
}

static bool isNumeral(Z3_ast a) {
    return Z3_get_ast_kind(C, a) == Z3_NUMERAL_AST;
}

static Val fpBin(State& st, unsigned op, Val a, Val b, unsigned w) {
    if (a.k == V_FP && b.k == V_FP) {
        if (w == 32) {
            float x = (float) a.d, y = (float) b.d;
            switch (op) {
                case Instruction::FAdd: return Val::F(x + y, 32);
                case Instruction::FSub: return Val::F(x - y, 32);
                case Instruction::FMul: return Val::F(x * y, 32);
                case Instruction::FDiv: return Val::F(x / y, 32);
                case Instruction::FRem: return Val::F(fmodf(x, y), 32);
            }
        } else {
            double x = a.d, y = b.d;
            switch (op) {
                case Instruction::FAdd: return Val::F(x + y, 64);
                case Instruction::FSub: return Val::F(x - y, 64);
                case Instruction::FMul: return Val::F(x * y, 64);
                case Instruction::FDiv: return Val::F(x / y, 64);
                case Instruction::FRem: return Val::F(fmod(x, y), 64);
            }
        }
        unsupported("fpBin");
    }
    if (optIeee) {
        Z3_ast x = fpAst(st, a), y = fpAst(st, b);
        switch (op) {
            case Instruction::FAdd: return Val::SF(Z3_mk_fpa_add(C, rmNE, x, y), w);
            case Instruction::FSub: return Val::SF(Z3_mk_fpa_sub(C, rmNE, x, y), w);
            case Instruction::FMul: return Val::SF(Z3_mk_fpa_mul(C, rmNE, x, y), w);
            case Instruction::FDiv: return Val::SF(Z3_mk_fpa_div(C, rmNE, x, y), w);
        }
        unsupported("frem");
    }
    double nan = std::nan(""), inf = INFINITY;
    if (special(a) || special(b)) {
        if ((special(a) && std::isnan(a.d)) || (special(b) && std::isnan(b.d))) return Val::F(nan, w);
        // exactly one is infinite, the other symbolic and finite
        if (op == Instruction::FAdd) return special(a) ? a : b;
        if (op == Instruction::FSub) return special(a) ? a : Val::F(-b.d, w);
        Val s = special(a) ? b : a;
        double i = special(a) ? a.d : b.d;
        Z3_ast zero = mkReal(0), e = fpAst(st, s);
        if (op == Instruction::FMul) {
            if (decide(st, rLt(zero, e))) return Val::F(i, w);
            if (decide(st, rLt(e, zero))) return Val::F(-i, w);
            return Val::F(nan, w);
        }
        if (op == Instruction::FDiv) {
            if (special(b)) return Val::F(0, w);
            if (decide(st, rLt(e, zero))) return Val::F(-i, w);
            return Val::F(i, w);
        }
        unsupported("fpBin special");
    }
    if (op == Instruction::FAdd) {
        if (a.k == V_FP && a.d == 0) return b;
        if (b.k == V_FP && b.d == 0) return a;
    }
    if (op == Instruction::FSub && b.k == V_FP && b.d == 0) return a;
    if (op == Instruction::FMul) {
        if (a.k == V_FP && a.d == 1) return b;
        if (b.k == V_FP && b.d == 1) return a;
        if ((a.k == V_FP && a.d == 0) || (b.k == V_FP && b.d == 0)) return Val::F(0, w);
    }
    if (op == Instruction::FDiv && b.k == V_FP && b.d == 1) return a;
    Z3_ast x = fpAst(st, a), y = fpAst(st, b);
    Z3_ast args[2] = {x, y};
    Z3_ast r;
    switch (op) {
        case Instruction::FAdd: r = Z3_mk_add(C, 2, args); break;
        case Instruction::FSub:
            if (x == y) return Val::F(0, w);
            r = Z3_mk_sub(C, 2, args);
            break;
        case Instruction::FMul: r = Z3_mk_mul(C, 2, args); break;
        case Instruction::FDiv: {
            Z3_ast zero = mkReal(0);
            if (b.k == V_FP && b.d == 0) {
                if (decide(st, rLt(zero, x))) return Val::F(inf, w);
                if (decide(st, rLt(x, zero))) return Val::F(-inf, w);
                return Val::F(nan, w);
            }
            if (b.k != V_FP && decide(st, mkEq(y, zero))) {
                if (a.k == V_FP) return a.d > 0 ? Val::F(inf, w) : a.d < 0 ? Val::F(-inf, w) : Val::F(nan, w);
                if (decide(st, rLt(zero, x))) return Val::F(inf, w);
                if (decide(st, rLt(x, zero))) return Val::F(-inf, w);
                return Val::F(nan, w);
            }
            if (a.k == V_FP && a.d == 0) return Val::F(0, w);
            r = Z3_mk_div(C, x, y);
            break;
        }
        default: unsupported("frem");
    }
    return Val::SF(r, w);
}

static Val fpCmp(State& st, unsigned pred, Val a, Val b, unsigned w) {
    if (pred == CmpInst::FCMP_TRUE) return boolVal(true);
    if (pred == CmpInst::FCMP_FALSE) return boolVal(false);
    if (a.k == V_FP && b.k == V_FP) {
        double x = a.d, y = b.d;
        bool uno = std::isnan(x) || std::isnan(y);
        switch (pred) {
            case CmpInst::FCMP_OEQ: return boolVal(!uno && x == y);
            case CmpInst::FCMP_ONE: return boolVal(!uno && x != y);
            case CmpInst::FCMP_OGT: return boolVal(!uno && x > y);
            case CmpInst::FCMP_OGE: return boolVal(!uno && x >= y);
            case CmpInst::FCMP_OLT: return boolVal(!uno && x < y);
            case CmpInst::FCMP_OLE: return boolVal(!uno && x <= y);
            case CmpInst::FCMP_ORD: return boolVal(!uno);
            case CmpInst::FCMP_UNO: return boolVal(uno);
            case CmpInst::FCMP_UEQ: return boolVal(uno || x == y);
            case CmpInst::FCMP_UNE: return boolVal(uno || x != y);
            case CmpInst::FCMP_UGT: return boolVal(uno || x > y);
            case CmpInst::FCMP_UGE: return boolVal(uno || x >= y);
            case CmpInst::FCMP_ULT: return boolVal(uno || x < y);
            case CmpInst::FCMP_ULE: return boolVal(uno || x <= y);
        }
    }
    if (optIeee) {
        Z3_ast x = fpAst(st, a), y = fpAst(st, b);
        Z3_ast uno = mkOr(Z3_mk_fpa_is_nan(C, x), Z3_mk_fpa_is_nan(C, y));
        Z3_ast r = nullptr;
        switch (pred) {
            case CmpInst::FCMP_OEQ:
            case CmpInst::FCMP_UEQ: r = Z3_mk_fpa_eq(C, x, y); break;
            case CmpInst::FCMP_ONE:
            case CmpInst::FCMP_UNE: r = mkNot(Z3_mk_fpa_eq(C, x, y)); break;
            case CmpInst::FCMP_OGT:
            case CmpInst::FCMP_UGT: r = Z3_mk_fpa_gt(C, x, y); break;
            case CmpInst::FCMP_OGE:
            case CmpInst::FCMP_UGE: r = Z3_mk_fpa_geq(C, x, y); break;
            case CmpInst::FCMP_OLT:
            case CmpInst::FCMP_ULT: r = Z3_mk_fpa_lt(C, x, y); break;
            case CmpInst::FCMP_OLE:
            case CmpInst::FCMP_ULE: r = Z3_mk_fpa_leq(C, x, y); break;
            case CmpInst::FCMP_ORD: return Val::SB(mkNot(uno));
            case CmpInst::FCMP_UNO: return Val::SB(uno);
        }
        switch (pred) {
            case CmpInst::FCMP_ONE: r = mkAnd(r, mkNot(uno)); break;
            case CmpInst::FCMP_UEQ:
            case CmpInst::FCMP_UGT:
            case CmpInst::FCMP_UGE:
            case CmpInst::FCMP_ULT:
            case CmpInst::FCMP_ULE: r = mkOr(r, uno); break;
            default: break;
        }
        return Val::SB(r);
    }
    // reals: symbolic values are finite
    if (pred == CmpInst::FCMP_ORD || pred == CmpInst::FCMP_UNO) {
        bool uno = (a.k == V_FP && std::isnan(a.d)) || (b.k == V_FP && std::isnan(b.d));
        return boolVal((pred == CmpInst::FCMP_UNO) == uno);
    }
    if (special(a) || special(b)) {
        Val x = a, y = b;
        if (!special(a)) x = Val::F(0, w);
        if (!special(b)) y = Val::F(0, w);
        return fpCmp(st, pred, x, y, w);
    }
    Z3_ast x = fpAst(st, a), y = fpAst(st, b);
    Z3_ast r;
    switch (pred) {
        case CmpInst::FCMP_OEQ:
        case CmpInst::FCMP_UEQ: r = mkEq(x, y); break;
        case CmpInst::FCMP_ONE:
        case CmpInst::FCMP_UNE: r = mkNot(mkEq(x, y)); break;
        case CmpInst::FCMP_OGT:
        case CmpInst::FCMP_UGT: r = x == y ? zFalse : Z3_mk_gt(C, x, y); break;
        case CmpInst::FCMP_OGE:
        case CmpInst::FCMP_UGE: r = x == y ? zTrue : Z3_mk_ge(C, x, y); break;
        case CmpInst::FCMP_OLT:
        case CmpInst::FCMP_ULT: r = x == y ? zFalse : Z3_mk_lt(C, x, y); break;
        case CmpInst::FCMP_OLE:
        case CmpInst::FCMP_ULE: r = x == y ? zTrue : Z3_mk_le(C, x, y); break;
        default: unsupported("fcmp");
    }
    if (r != zTrue && r != zFalse) r = Z3_simplify(C, r);
    return Val::SB(r);
}

static Val fpNeg(State& st, Val a, unsigned w) {
    if (a.k == V_FP) return Val::F(-a.d, w);
    if (optIeee) return Val::SF(Z3_mk_fpa_neg(C, fpAst(st, a)), w);
    return Val::SF(Z3_mk_unary_minus(C, fpAst(st, a)), w);
}

static Val fpAbs(State& st, Val a, unsigned w) {
    if (a.k == V_FP) return Val::F(std::fabs(a.d), w);
    Z3_ast e = fpAst(st, a);
    if (optIeee) return Val::SF(Z3_mk_fpa_abs(C, e), w);
    return Val::SF(mkIte(Z3_mk_ge(C, e, mkReal(0)), e, Z3_mk_unary_minus(C, e)), w);
}

static Val selectVal(State& st, Val c, const Val& a, const Val& b, bool isPtr) {
    if (c.k == V_INT) return c.u ? a : b;
    Z3_ast e = boolOf(st, c);
    int kn;
    {
        bool neg;
        Z3_ast n = norm(e, neg);
        kn = knownLit(st, n);
        if (kn >= 0) return ((kn != 0) != neg) ? a : b;
    }
    if (a.k == V_INT && b.k == V_INT && a.u == b.u) return a;
    bool fa = a.k == V_FP || a.k == V_SF, fb = b.k == V_FP || b.k == V_SF;
    if (fa && fb && (optIeee || (!special(a) && !special(b)))) {
        if (a.k == V_FP && b.k == V_FP && dToBits(a.d, 64) == dToBits(b.d, 64)) return a;
        return Val::SF(mkIte(e, fpAst(st, a), fpAst(st, b)), a.w);
    }
    bool ia = a.k == V_INT || a.k == V_SI || a.k == V_SB, ib = b.k == V_INT || b.k == V_SI || b.k == V_SB;
    if (ia && ib && !isPtr) {
        if (a.w == 1) {
            Z3_ast x = boolOf(st, a), y = boolOf(st, b);
            if (x == zTrue) return Val::SB(mkOr(e, y));
            if (x == zFalse) return Val::SB(mkAnd(mkNot(e), y));
            if (y == zTrue) return Val::SB(mkOr(mkNot(e), x));
            if (y == zFalse) return Val::SB(mkAnd(e, x));
            return Val::SB(mkIte(e, x, y));
        }
        if (a.k == V_INT && b.k == V_INT && a.w <= 64) return iteVal(e, a.u, b.u, a.w);
        return Val::SI(mkIte(e, bvOf(st, a), bvOf(st, b)), a.w);
    }
    return decide(st, e) ? a : b;
}

static Val castInt(State& st, unsigned op, Val v, unsigned from, unsigned to) {
    if (v.k == V_UNDEF) v = freshUndef(st, from, false);
    if (v.k == V_FP) v = asInt(st, v);
    switch (op) {
        case Instruction::Trunc:
            if (v.k == V_INT) return Val::I(v.u, to);
            if (v.k == V_PK || v.k == V_SI) return extractBits(st, v, 0, to);
            if (v.k == V_SF) return extractBits(st, mkPack({v}), 0, to);
            break;
        case Instruction::ZExt:
            if (v.k == V_INT && to <= 64) return Val::I(v.u, to);
            if (v.k == V_SB) return iteVal(v.e, 1, 0, to);
            if (v.k == V_SI) {
                auto it = iteInfo.find(v.e);
                if (it != iteInfo.end() && to <= 64) return iteVal(it->second.b, it->second.t, it->second.f, to);
                return Val::SI(Z3_mk_zero_ext(C, to - from, v.e), to);
            }
            if (v.k == V_PK) {
                std::vector<Val> p = v.p->pieces;
                p.push_back(Val::I(0, to - from));
                return mkPack(p);
            }
            if (v.k == V_INT) return mkPack({v, Val::I(0, to - from)});
            break;
        case Instruction::SExt:
            if (v.k == V_INT && to <= 64) return Val::I((u64) sx(v.u, from), to);
            if (v.k == V_SB) return iteVal(v.e, ~0ULL, 0, to);
            if (v.k == V_SI) {
                auto it = iteInfo.find(v.e);
                if (it != iteInfo.end() && to <= 64)
                    return iteVal(it->second.b, (u64) sx(it->second.t, from), (u64) sx(it->second.f, from), to);
                return Val::SI(Z3_mk_sign_ext(C, to - from, v.e), to);
            }
            break;
    }
    unsupported("castInt");
}

// Finds the integer part of a symbolic real by enumeration. mode: 0 floor, 1 ceil, 2 trunc, 3 round half away, 4 nearest even
static double enumRound(State& st, Val v, int mode) {
    Z3_ast e = v.e;
    for (;;) {
        ensureModel(st);
        Z3_ast r;
        if (!Z3_model_eval(C, st.model.m, e, true, &r)) unsupported("model eval");
        bool ex = true;
        double d = ratToDouble(r, ex);
        double c;
        enumTick(st);
        auto within = [&](double lo, bool loIncl, double hi, bool hiIncl) {
            Z3_ast l = loIncl ? Z3_mk_ge(C, e, mkReal(lo)) : Z3_mk_gt(C, e, mkReal(lo));
            Z3_ast h = hiIncl ? Z3_mk_le(C, e, mkReal(hi)) : Z3_mk_lt(C, e, mkReal(hi));
            return decide(st, mkAnd(l, h));
        };
        switch (mode) {
            case 0:
                c = std::floor(d);
                if (within(c, true, c + 1, false)) return c;
                if (within(c + 1, true, c + 2, false)) return c + 1;
                if (within(c - 1, true, c, false)) return c - 1;
                break;
            case 1:
                c = std::ceil(d);
                if (within(c - 1, false, c, true)) return c;
                if (within(c, false, c + 1, true)) return c + 1;
                if (within(c - 2, false, c - 1, true)) return c - 1;
                break;
            case 2:
                if (d >= 0) {
                    c = std::floor(d);
                    if (within(c, true, c + 1, false)) return c;
                } else {
                    c = std::ceil(d);
                    if (within(c - 1, false, c, true)) return c;
                }
                break;
            case 3:
                c = std::round(d);
                if (c > 0 || (c == 0)) {
                    if (c == 0) {
                        if (within(-0.5, false, 0.5, false)) return 0;
                    } else if (within(c - 0.5, true, c + 0.5, false)) return c;
                } else if (within(c - 0.5, false, c + 0.5, true)) return c;
                break;
            case 4:
                c = std::nearbyint(d);
                {
                    bool even = std::fmod(c, 2) == 0;
                    if (within(c - 0.5, even, c + 0.5, even)) return c;
                }
                break;
        }
    }
}

static Val castFp(State& st, unsigned op, Val v, unsigned from, unsigned to) {
    switch (op) {
        case Instruction::FPTrunc:
        case Instruction::FPExt:
            if (v.k == V_FP) return Val::F(v.d, to);
            if (optIeee) return Val::SF(Z3_mk_fpa_to_fp_float(C, rmNE, v.e, fpSort(to)), to);
            return Val::SF(v.e, to);
        case Instruction::FPToUI:
        case Instruction::FPToSI: {
            double d;
            if (v.k == V_FP) d = v.d;
            else if (optIeee) {
                if (op == Instruction::FPToUI) return Val::SI(Z3_mk_fpa_to_ubv(C, rmTZ, v.e, to), to);
                return Val::SI(Z3_mk_fpa_to_sbv(C, rmTZ, v.e, to), to);
            } else d = enumRound(st, v, 2);
            if (std::isnan(d) || std::fabs(d) > 1.8e19) return Val::I(op == Instruction::FPToSI ? 1ULL << (to - 1) : 0, to);
            if (op == Instruction::FPToUI) return Val::I(d < 0 ? (u64) (i64) d : (u64) d, to);
            return Val::I((u64) (i64) d, to);
        }
        case Instruction::UIToFP:
        case Instruction::SIToFP: {
            if (v.k == V_SI && optIeee) {
                if (op == Instruction::UIToFP) return Val::SF(Z3_mk_fpa_to_fp_unsigned(C, rmNE, v.e, fpSort(to)), to);
                return Val::SF(Z3_mk_fpa_to_fp_signed(C, rmNE, v.e, fpSort(to)), to);
            }
            if (v.k == V_SB) {
                Z3_ast t = fpAst(st, Val::F(op == Instruction::UIToFP ? 1 : -1, to)), f = fpAst(st, Val::F(0, to));
                return Val::SF(mkIte(v.e, t, f), to);
            }
            if (v.k == V_SI) {
                auto it = iteInfo.find(v.e);
                if (it != iteInfo.end()) {
                    double t = op == Instruction::UIToFP ? (double) it->second.t : (double) sx(it->second.t, from);
                    double f = op == Instruction::UIToFP ? (double) it->second.f : (double) sx(it->second.f, from);
                    return Val::SF(mkIte(it->second.b, fpAst(st, Val::F(t, to)), fpAst(st, Val::F(f, to))), to);
                }
            }
            u64 c = concretize(st, v);
            if (op == Instruction::UIToFP) return Val::F(to == 32 ? (double) (float) c : (double) c, to);
            return Val::F(to == 32 ? (double) (float) sx(c, from) : (double) sx(c, from), to);
        }
    }
    unsupported("castFp");
}
