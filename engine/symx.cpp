// symx: a symbolic executor for LLVM IR (clang 18) on top of Z3.
//
// Inputs introduced by the harness API (sx.hpp) are symbolic; paths are explored by forking; the SMT solver decides the
// feasibility of every branch and every assertion. Memory consists of bounded objects, so out-of-bounds accesses, use
// after free, null dereferences and reads of uninitialised memory are visible. See /verif/DESIGN.md.
#include "llvm/ADT/SmallString.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/GlobalAlias.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

#include <algorithm>
#include <cfenv>
#include <cfloat>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <atomic>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>

using namespace llvm;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

// ---------------------------------------------------------------------------------------------------------------------
// Options and statistics
// ---------------------------------------------------------------------------------------------------------------------
static bool optIeee = false;
static double optTime = 300;
static u64 optMaxInst = 20000000;
static int optJobs = 1;
static unsigned optQueryMs = 20000;
static u64 optSeed = 1;
static int optSamples = 6;
static int optMaxViol = 3;   // per message
static bool optTrace = false;
static bool optFootprint = false;
static std::map<std::string, u32> params;

static double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

static double startTime;

struct Stats {
    u64 paths = 0, pathsInfeasible = 0, insts = 0, forks = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, checks = 0,
        checksSolver = 0, checksUnknown = 0, killedUnsupported = 0, killedLimit = 0, killedError = 0, pending = 0,
        throws = 0, modelHits = 0;
    double solverTime = 0;
};

static Stats S;
static std::map<std::string, u64> reachCount, checkCount, unsupportedCount;
static std::set<std::string> fnCovered;

struct KillEx {
        std::string why;
        int kind;   // 0 = infeasible/assume, 1 = unsupported, 2 = limit, 3 = error (violation recorded)
};

[[noreturn]] static void unsupported(const std::string& s) {
    throw KillEx {s, 1};
}

// ---------------------------------------------------------------------------------------------------------------------
// Z3
// ---------------------------------------------------------------------------------------------------------------------
static Z3_context C;
static Z3_sort boolSort, realSort, f32Sort, f64Sort;
static Z3_ast rmNE, rmTZ;
static Z3_ast zTrue, zFalse;

static Z3_ast mkBV(u64 v, unsigned w) {
    return Z3_mk_unsigned_int64(C, v, Z3_mk_bv_sort(C, w));
}

static Z3_sort fpSort(int w) {
    return w == 32 ? f32Sort : f64Sort;
}

static Z3_ast mkReal(double d) {
    // exact rational
    if (d == 0) return Z3_mk_real_int64(C, 0, 1);
    int e;
    double m = std::frexp(d, &e);   // d = m * 2^e, 0.5 <= |m| < 1
    i64 mi = (i64) std::ldexp(m, 53);
    e -= 53;
    while ((mi & 1) == 0) {
        mi /= 2;
        e++;
    }
    if (e >= 0 && e < 8) return Z3_mk_real_int64(C, mi * (1LL << e), 1);
    if (e < 0 && e > -62) return Z3_mk_real_int64(C, mi, 1LL << (-e));
    char buf[64];
    snprintf(buf, sizeof buf, "%lld", (long long) mi);
    Z3_ast a = Z3_mk_numeral(C, buf, realSort);
    Z3_ast two = Z3_mk_real_int64(C, 2, 1);
    Z3_ast p = Z3_mk_real_int64(C, 1, 1);
    for (int i = 0; i < std::abs(e); i++) {
        Z3_ast args[2] = {p, two};
        p = Z3_mk_mul(C, 2, args);
    }
    p = Z3_simplify(C, p);
    Z3_ast r;
    if (e >= 0) {
        Z3_ast args[2] = {a, p};
        r = Z3_mk_mul(C, 2, args);
    } else {
        r = Z3_mk_div(C, a, p);
    }
    return Z3_simplify(C, r);
}

static Z3_ast mkNot(Z3_ast a) {
    if (a == zTrue) return zFalse;
    if (a == zFalse) return zTrue;
    if (Z3_get_ast_kind(C, a) == Z3_APP_AST) {
        Z3_app app = Z3_to_app(C, a);
        if (Z3_get_decl_kind(C, Z3_get_app_decl(C, app)) == Z3_OP_NOT) return Z3_get_app_arg(C, app, 0);
    }
    return Z3_mk_not(C, a);
}

static Z3_ast mkAnd(Z3_ast a, Z3_ast b) {
    if (a == zTrue) return b;
    if (b == zTrue) return a;
    if (a == zFalse || b == zFalse) return zFalse;
    if (a == b) return a;
    Z3_ast x[2] = {a, b};
    return Z3_mk_and(C, 2, x);
}

static Z3_ast mkOr(Z3_ast a, Z3_ast b) {
    if (a == zFalse) return b;
    if (b == zFalse) return a;
    if (a == zTrue || b == zTrue) return zTrue;
    if (a == b) return a;
    Z3_ast x[2] = {a, b};
    return Z3_mk_or(C, 2, x);
}

static Z3_ast mkIte(Z3_ast c, Z3_ast a, Z3_ast b) {
    if (c == zTrue || a == b) return a;
    if (c == zFalse) return b;
    return Z3_mk_ite(C, c, a, b);
}

static Z3_ast mkEq(Z3_ast a, Z3_ast b) {
    if (a == b) return zTrue;
    return Z3_mk_eq(C, a, b);
}

// "ite(b, c1, c2)" integer terms with constant branches
struct IteInfo {
        Z3_ast b;
        u64 t, f;
};

static std::unordered_map<Z3_ast, IteInfo> iteInfo;

// ---------------------------------------------------------------------------------------------------------------------
// Values
// ---------------------------------------------------------------------------------------------------------------------
enum : u8 { V_UNDEF, V_INT, V_FP, V_SI, V_SB, V_SF, V_PK };

struct Pack;

struct Val {
        u8 k = V_UNDEF;
        uint16_t w = 0;

        union {
                u64 u;
                double d;
                Z3_ast e;
                Pack* p;
        };

        Val() : u(0) {}

        static Val I(u64 v, unsigned w) {
            Val r;
            r.k = V_INT;
            r.w = (uint16_t) w;
            r.u = w >= 64 ? v : (v & ((1ULL << w) - 1));
            return r;
        }

        static Val F(double d, unsigned w) {
            Val r;
            r.k = V_FP;
            r.w = (uint16_t) w;
            r.d = w == 32 ? (double) (float) d : d;
            return r;
        }

        static Val SI(Z3_ast e, unsigned w) {
            Val r;
            r.k = V_SI;
            r.w = (uint16_t) w;
            r.e = e;
            return r;
        }

        static Val SB(Z3_ast e) {
            if (e == zTrue) return I(1, 1);
            if (e == zFalse) return I(0, 1);
            Val r;
            r.k = V_SB;
            r.w = 1;
            r.e = e;
            return r;
        }

        static Val SF(Z3_ast e, unsigned w) {
            Val r;
            r.k = V_SF;
            r.w = (uint16_t) w;
            r.e = e;
            return r;
        }

        static Val U(unsigned w) {
            Val r;
            r.w = (uint16_t) w;
            return r;
        }

        bool conc() const {
            return k == V_INT || k == V_FP;
        }
};

struct Pack {
        std::vector<Val> pieces;   // low bits first; w of each piece
};

static Val mkPack(std::vector<Val> pieces) {
    unsigned w = 0;
    for (auto& p : pieces) w += p.w;
    // merge adjacent concrete integers
    std::vector<Val> out;
    for (auto& p : pieces) {
        if (!out.empty() && out.back().k == V_INT && p.k == V_INT && out.back().w + p.w <= 64)
            out.back() = Val::I(out.back().u | (p.u << out.back().w), out.back().w + p.w);
        else if (!out.empty() && out.back().k == V_UNDEF && p.k == V_UNDEF) out.back().w += p.w;
        else out.push_back(p);
    }
    if (out.size() == 1 && (out[0].k == V_INT || out[0].k == V_SI || out[0].k == V_UNDEF)) return out[0];
    Val r;
    r.k = V_PK;
    r.w = (uint16_t) w;
    r.p = new Pack {std::move(out)};
    return r;
}

static i64 sx(u64 v, unsigned w) {
    if (w >= 64) return (i64) v;
    return (i64) (v << (64 - w)) >> (64 - w);
}

static Val iteVal(Z3_ast b, u64 t, u64 f, unsigned w) {
    if (w < 64) {
        t &= (1ULL << w) - 1;
        f &= (1ULL << w) - 1;
    }
    if (t == f) return Val::I(t, w);
    if (w == 1) return Val::SB(t ? b : mkNot(b));
    Z3_ast e = Z3_mk_ite(C, b, mkBV(t, w), mkBV(f, w));
    iteInfo[e] = {b, t, f};
    return Val::SI(e, w);
}

// ---------------------------------------------------------------------------------------------------------------------
// Memory
// ---------------------------------------------------------------------------------------------------------------------
static const unsigned OBJ_SHIFT = 24;
static const u64 OBJ_MASK = (1ULL << OBJ_SHIFT) - 1;
static const u64 HEAP_BASE = 0x100000000000ULL;
static const u64 STACK_BASE = 0x200000000000ULL;
static const u64 RO_BASE = 0x300000000000ULL;
static const u64 FN_BASE = 0x400000000000ULL;
static const u64 REGION = 0x100000000000ULL;

enum : u8 { O_HEAP, O_HEAP_ARRAY, O_MALLOC, O_STACK, O_GLOBAL, O_CONST };

struct Cell {
        u32 off;
        u32 n;
        Val v;
};

struct Obj {
        int rc = 1;
        u32 size = 0;
        u8 kind = O_HEAP;
        bool freed = false;
        bool anySym = false;
        std::vector<u8> data;
        std::vector<u8> st;   // per byte: 0 uninit, 1 concrete, 2 start of symbolic cell, 3 continuation
        std::vector<Cell> cells;   // sorted by offset
};

struct ObjRef {
        Obj* o = nullptr;

        ObjRef() {}

        explicit ObjRef(Obj* x) : o(x) {}

        ObjRef(const ObjRef& r) : o(r.o) {
            if (o) o->rc++;
        }

        ObjRef(ObjRef&& r) noexcept : o(r.o) {
            r.o = nullptr;
        }

        ObjRef& operator=(ObjRef r) noexcept {
            std::swap(o, r.o);
            return *this;
        }

        ~ObjRef() {
            if (o && --o->rc == 0) delete o;
        }
};

struct Chunk {
        int rc = 1;
        ObjRef objs[64];
};

struct ObjTable {
        std::vector<Chunk*> chunks;
        u32 n = 0;

        ObjTable() {}

        ObjTable(const ObjTable& o) : chunks(o.chunks), n(o.n) {
            for (auto c : chunks) c->rc++;
        }

        ObjTable& operator=(const ObjTable& o) = delete;

        ~ObjTable() {
            for (auto c : chunks)
                if (--c->rc == 0) delete c;
        }

        Obj* get(u32 id) {
            if (id >= n) return nullptr;
            return chunks[id >> 6]->objs[id & 63].o;
        }

        Chunk* wchunk(u32 id) {
            Chunk*& c = chunks[id >> 6];
            if (c->rc > 1) {
                Chunk* d = new Chunk;
                for (int i = 0; i < 64; i++) d->objs[i] = c->objs[i];
                c->rc--;
                c = d;
            }
            return c;
        }

        Obj* getW(u32 id) {
            if (id >= n) return nullptr;
            ObjRef& r = wchunk(id)->objs[id & 63];
            if (!r.o) return nullptr;
            if (r.o->rc > 1) {
                Obj* d = new Obj(*r.o);
                d->rc = 1;
                r = ObjRef(d);
            }
            return r.o;
        }

        u32 add(Obj* o) {
            u32 id = n++;
            if ((id >> 6) >= chunks.size()) chunks.push_back(new Chunk);
            wchunk(id)->objs[id & 63] = ObjRef(o);
            return id;
        }
};

static std::vector<Obj*> roObjs;

// ---------------------------------------------------------------------------------------------------------------------
// Code
// ---------------------------------------------------------------------------------------------------------------------
struct FnInfo;

struct PhiCopy {
        int dst, src;
        int n;
};

struct Edge {
        int target = -1;
        std::vector<PhiCopy> copies;
};

struct GepTerm {
        int op;
        i64 scale;
        int w;
};

struct MemLeaf {
        u32 off;
        u8 isFp;   // 0 int, 1 fp
        u8 isPtr;
        uint16_t w;   // bits
};

struct Inst {
        u32 op = 0;
        int dst = -1;
        int n = 0;   // slots of result
        unsigned w = 0;
        unsigned w2 = 0;
        unsigned pred = 0;
        std::vector<int> ops;
        std::vector<Edge> edges;
        std::vector<GepTerm> geps;
        std::vector<MemLeaf> leaves;
        std::vector<u64> cases;
        i64 imm = 0;
        FnInfo* callee = nullptr;
        const Instruction* I = nullptr;
        bool flag = false;
};

typedef struct State State;
typedef Val (*BuiltinFn)(State&, Inst&, std::vector<Val>&, FnInfo&);

struct FnInfo {
        Function* F = nullptr;
        std::string name;
        bool decoded = false, isDecl = false, covered = false;
        BuiltinFn builtin = nullptr;
        int bid = 0;
        u64 addr = 0;
        int nslots = 0;
        std::vector<std::pair<int, int>> args;   // slot, n
        std::vector<Inst> code;
};

static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::unordered_map<const Function*, FnInfo*> fnMap;
static std::vector<FnInfo*> fnByIdx;
static std::unordered_map<const GlobalValue*, u64> gvAddr;
static std::vector<Val> constPool;
static std::unordered_map<const Constant*, int> constIdx;

struct PCNode {
        PCNode* parent;
        Z3_ast lit;
        bool val;
        bool asserted;
        int depth;   // number of asserted literals up to here
};

struct Frame {
        FnInfo* fn;
        u32 pc;
        u32 base;
        u32 stackBase;   // number of stack objects at entry
        Inst* call;   // call instruction in the caller
};

struct InputRec {
        std::string name;
        char kind;   // u, i, U (u64), f (f32), d (f64), b, c
        Val v;
};

struct ObsRec {
        std::string name;
        Val v;
};

struct ModelRef {
        Z3_model m = nullptr;

        ModelRef() {}

        explicit ModelRef(Z3_model x) : m(x) {
            if (m) Z3_model_inc_ref(C, m);
        }

        ModelRef(const ModelRef& o) : m(o.m) {
            if (m) Z3_model_inc_ref(C, m);
        }

        ModelRef& operator=(const ModelRef& o) {
            if (o.m) Z3_model_inc_ref(C, o.m);
            if (m) Z3_model_dec_ref(C, m);
            m = o.m;
            return *this;
        }

        ~ModelRef() {
            if (m) Z3_model_dec_ref(C, m);
        }
};

struct ExcObj {
        u64 ptr = 0, tinfo = 0;
        int depth = 0;
};

struct State {
        std::vector<Frame> frames;
        std::vector<Val> regs;
        ObjTable heap;
        std::vector<ObjRef> stack;
        PCNode* pc = nullptr;
        ModelRef model;
        u64 insts = 0;
        std::vector<InputRec> inputs;
        std::vector<ObsRec> obs;
        std::vector<std::pair<Z3_func_decl, std::pair<Z3_ast, Z3_ast>>> ufApps;
        ExcObj exc;   // exception in flight
        std::vector<ExcObj> caught;
        u32 fresh = 0;
        u32 enumCount = 0;
        std::unordered_map<u64, u32> enumSites;
        u32 nchecks = 0;
        bool forking = false;
        bool hasUninit = false;
        Z3_ast lastMonoTime = nullptr;
        // parallel region (footprint) support
        int parIter = -1;
        int parLock = 0;
        std::map<u64, std::pair<int, bool>> foot;   // address -> (iteration, written)
        State() {}

        State(const State&) = default;
};

static std::vector<State*> pendingStates;

// ---------------------------------------------------------------------------------------------------------------------
// Solver
// ---------------------------------------------------------------------------------------------------------------------
static Z3_solver solver;
static std::vector<PCNode*> solverStack;

static void solverSync(PCNode* n) {
    std::vector<PCNode*> path;
    for (PCNode* p = n; p; p = p->parent)
        if (p->asserted) path.push_back(p);
    std::reverse(path.begin(), path.end());
    size_t common = 0;
    while (common < path.size() && common < solverStack.size() && path[common] == solverStack[common]) common++;
    if (solverStack.size() > common) {
        Z3_solver_pop(C, solver, (unsigned) (solverStack.size() - common));
        solverStack.resize(common);
    }
    for (size_t i = common; i < path.size(); i++) {
        Z3_solver_push(C, solver);
        Z3_solver_assert(C, solver, path[i]->val ? path[i]->lit : mkNot(path[i]->lit));
        solverStack.push_back(path[i]);
    }
}

static Z3_lbool checkFreshLogic(State& st, Z3_ast extra, ModelRef* model, const char* logic, unsigned timeout) {
    Z3_solver s = logic ? Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, logic)) : Z3_mk_solver(C);
    Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), timeout);
    Z3_solver_set_params(C, s, p);
    Z3_params_dec_ref(C, p);
    for (PCNode* n = st.pc; n; n = n->parent)
        if (n->asserted) Z3_solver_assert(C, s, n->val ? n->lit : mkNot(n->lit));
    Z3_solver_assert(C, s, extra);
    Z3_lbool r = Z3_solver_check(C, s);
    if (r == Z3_L_TRUE && model) *model = ModelRef(Z3_solver_get_model(C, s));
    Z3_solver_dec_ref(C, s);
    return r;
}

static Z3_lbool checkFresh(State& st, Z3_ast extra, ModelRef* model) {
    // one-shot solvers with the default strategies (nlsat for non-linear real arithmetic)
    if (optIeee) return checkFreshLogic(st, extra, model, nullptr, optQueryMs);
    Z3_lbool r = checkFreshLogic(st, extra, model, "QF_NRA", optQueryMs);
    return r == Z3_L_UNDEF ? checkFreshLogic(st, extra, model, "QF_UFNRA", optQueryMs) : r;
}

static Z3_lbool query(State& st, Z3_ast extra, ModelRef* model) {
    double t0 = now();
    if (t0 - startTime > optTime + 30) throw KillEx {"time budget", 2};
    S.queries++;
    solverSync(st.pc);
    Z3_solver_push(C, solver);
    Z3_solver_assert(C, solver, extra);
    // the incremental solver is unlikely to succeed in the presence of transcendental functions
    Z3_lbool r = optIeee || st.ufApps.empty() ? Z3_solver_check(C, solver) : Z3_L_UNDEF;
    if (r == Z3_L_TRUE && model) *model = ModelRef(Z3_solver_get_model(C, solver));
    Z3_solver_pop(C, solver, 1);
    if (r == Z3_L_UNDEF) r = checkFresh(st, extra, model);
    if (r == Z3_L_TRUE) S.sat++;
    else if (r == Z3_L_FALSE) S.unsat++;
    else S.unknown++;
    S.solverTime += now() - t0;
    return r;
}

static int evalBool(State& st, Z3_ast e) {
    if (!st.model.m) return -1;
    Z3_ast r;
    if (!Z3_model_eval(C, st.model.m, e, true, &r)) return -1;
    Z3_lbool b = Z3_get_bool_value(C, r);
    if (b == Z3_L_TRUE) return 1;
    if (b == Z3_L_FALSE) return 0;
    return -1;
}

static void addLit(State& st, Z3_ast lit, bool val, bool asserted) {
    st.pc = new PCNode {st.pc, lit, val, asserted, (st.pc ? st.pc->depth : 0) + (asserted ? 1 : 0)};
}

static int knownLit(State& st, Z3_ast lit) {
    for (PCNode* p = st.pc; p; p = p->parent)
        if (p->lit == lit) return p->val;
    return -1;
}

static Z3_ast norm(Z3_ast c, bool& neg) {
    neg = false;
    if (Z3_get_ast_kind(C, c) == Z3_APP_AST) {
        Z3_app app = Z3_to_app(C, c);
        if (Z3_get_decl_kind(C, Z3_get_app_decl(C, app)) == Z3_OP_NOT) {
            neg = true;
            return Z3_get_app_arg(C, app, 0);
        }
    }
    return c;
}

static State* curClone(State& st) {
    State* c = new State(st);
    pendingStates.push_back(c);
    S.forks++;
    return c;
}

static void ensureModel(State& st) {
    if (st.model.m) return;
    Z3_lbool r = query(st, zTrue, &st.model);
    if (r == Z3_L_FALSE) throw KillEx {"infeasible", 0};
}

// Decides a condition; forks if both outcomes are feasible. The clone re-executes the current instruction.
static bool decide(State& st, Z3_ast cond0) {
    if (cond0 == zTrue) return true;
    if (cond0 == zFalse) return false;
    bool neg;
    Z3_ast cond = norm(cond0, neg);
    if (cond == zTrue) return !neg;
    if (cond == zFalse) return neg;
    int k = knownLit(st, cond);
    if (k >= 0) return (k != 0) != neg;
    ensureModel(st);
    int mv = evalBool(st, cond);
    if (mv >= 0) {
        S.modelHits++;
        ModelRef other;
        Z3_lbool r = query(st, mv ? mkNot(cond) : cond, &other);
        if (r == Z3_L_FALSE) {
            addLit(st, cond, mv != 0, false);
            return (mv != 0) != neg;
        }
        State* c = curClone(st);
        addLit(*c, cond, mv == 0, true);
        c->model = other;
        addLit(st, cond, mv != 0, true);
        return (mv != 0) != neg;
    }
    ModelRef mt, mf;
    Z3_lbool rt = query(st, cond, &mt);
    Z3_lbool rf = query(st, mkNot(cond), &mf);
    if (rt == Z3_L_FALSE && rf == Z3_L_FALSE) throw KillEx {"infeasible", 0};
    if (rt == Z3_L_FALSE) {
        addLit(st, cond, false, false);
        st.model = mf;
        return neg;
    }
    if (rf == Z3_L_FALSE) {
        addLit(st, cond, true, false);
        st.model = mt;
        return !neg;
    }
    State* c = curClone(st);
    addLit(*c, cond, false, true);
    c->model = mf;
    addLit(st, cond, true, true);
    st.model = mt;
    return !neg;
}

static void assumeAst(State& st, Z3_ast cond0) {
    bool neg;
    Z3_ast cond = norm(cond0, neg);
    if (cond == zTrue || cond == zFalse) {
        if ((cond == zTrue) == neg) throw KillEx {"assume", 0};
        return;
    }
    int k = knownLit(st, cond);
    if (k >= 0) {
        if ((k != 0) == neg) throw KillEx {"assume", 0};
        return;
    }
    int mv = evalBool(st, cond);
    addLit(st, cond, !neg, true);
    if (mv < 0 || (mv != 0) == neg) {
        st.model = ModelRef();
        ensureModel(st);
    }
}

static u64 modelBV(State& st, Z3_ast e) {
    ensureModel(st);
    Z3_ast r;
    if (!st.model.m || !Z3_model_eval(C, st.model.m, e, true, &r)) unsupported("model evaluation");
    uint64_t v;
    if (!Z3_get_numeral_uint64(C, r, &v)) unsupported("model value");
    return v;
}

static void enumTick(State& st) {
    const Frame& f = st.frames.back();
    u64 key = (u64) (uintptr_t) f.fn * 31 + f.pc + st.frames.size() * 7919;
    if (++st.enumSites[key] > 100000) throw KillEx {"enumeration limit", 2};
}

static Val freshUndef(State& st, unsigned w, bool fp);

static u64 concretize(State& st, Val v) {
    if (v.k == V_INT) return v.u;
    if (v.k == V_UNDEF) {
        v = freshUndef(st, v.w, false);
    }
    if (v.k == V_SB) return decide(st, v.e) ? 1 : 0;
    if (v.k == V_SI) {
        auto it = iteInfo.find(v.e);
        if (it != iteInfo.end()) return decide(st, it->second.b) ? it->second.t : it->second.f;
        if (v.w > 64) unsupported("concretize wide");
        for (int i = 0;; i++) {
            u64 c = modelBV(st, v.e);
            enumTick(st);
            if (decide(st, mkEq(v.e, mkBV(c, v.w)))) return c;
        }
    }
    unsupported("concretize of a packed value");
}

// ---------------------------------------------------------------------------------------------------------------------
// Violations
// ---------------------------------------------------------------------------------------------------------------------
struct Violation {
        std::string kind, msg, loc, known, stackTrace;
        std::vector<std::pair<std::string, std::string>> inputs;   // "kind name" -> value
        bool uninit;
        bool exact;
};

static std::vector<Violation> violations;
static std::map<std::string, int> violCount;

static std::string locOf(State& st) {
    for (size_t i = st.frames.size(); i-- > 0;) {
        Frame& f = st.frames[i];
        if (f.pc >= f.fn->code.size()) continue;
        const Instruction* I = f.fn->code[f.pc].I;
        if (I)
            if (const DebugLoc& dl = I->getDebugLoc()) {
                const DILocation* d = dl.get();
                std::string file = d->getFilename().str();
                if (file.find("/usr/") == 0) continue;
                return file + ":" + std::to_string(d->getLine());
            }
    }
    return "?";
}

static std::string backtrace(State& st) {
    std::string r;
    int n = 0;
    for (size_t i = st.frames.size(); i-- > 0 && n < 12; n++) {
        Frame& f = st.frames[i];
        const Instruction* I = f.pc < f.fn->code.size() ? f.fn->code[f.pc].I : nullptr;
        r += demangle(f.fn->name);
        if (I && I->getDebugLoc()) r += " (" + I->getDebugLoc()->getFilename().str() + ":" + std::to_string(I->getDebugLoc()->getLine()) + ")";
        r += "\n";
    }
    return r;
}

static double ratToDouble(Z3_ast r, bool& exact) {
    // numeral -> double
    if (Z3_is_algebraic_number(C, r)) {
        exact = false;
        r = Z3_get_algebraic_number_lower(C, r, 40);
    }
    std::string s = Z3_get_numeral_string(C, r);
    size_t p = s.find('/');
    if (p == std::string::npos) return strtod(s.c_str(), nullptr);
    long double a = strtold(s.substr(0, p).c_str(), nullptr), b = strtold(s.substr(p + 1).c_str(), nullptr);
    // exact iff denominator is a power of two of moderate size
    int e;
    if (std::frexp((double) b, &e) != 0.5 || std::fabs((double) a) > 9e15) exact = false;
    return (double) (a / b);
}

static std::string fpFromModel(Z3_model m, Z3_ast e, int w, bool& exact) {
    Z3_ast r;
    char buf[80];
    if (!optIeee) {
        if (!Z3_model_eval(C, m, e, true, &r)) return "0";
        double d = ratToDouble(r, exact);
        if (w == 32 && (double) (float) d != d) exact = false;
        snprintf(buf, sizeof buf, "%a", w == 32 ? (double) (float) d : d);
        return buf;
    }
    Z3_ast bv = Z3_mk_fpa_to_ieee_bv(C, e);
    if (!Z3_model_eval(C, m, bv, true, &r)) return "0";
    r = Z3_simplify(C, r);
    uint64_t v = 0;
    Z3_get_numeral_uint64(C, r, &v);
    double d;
    if (w == 32) {
        float f;
        u32 x = (u32) v;
        memcpy(&f, &x, 4);
        d = f;
    } else memcpy(&d, &v, 8);
    if (std::isnan(d)) return "nan";
    snprintf(buf, sizeof buf, "%a", d);
    return buf;
}

static std::vector<std::pair<std::string, std::string>> inputsFromModel(State& st, Z3_model m, bool& exact) {
    std::vector<std::pair<std::string, std::string>> out;
    for (auto& in : st.inputs) {
        std::string val;
        char buf[64];
        if (in.v.k == V_INT) {
            snprintf(buf, sizeof buf, "%llu", (unsigned long long) in.v.u);
            val = buf;
        } else if (in.v.k == V_FP) {
            snprintf(buf, sizeof buf, "%a", in.v.d);
            val = buf;
        } else if (in.v.k == V_SB) {
            Z3_ast r;
            Z3_model_eval(C, m, in.v.e, true, &r);
            val = Z3_get_bool_value(C, r) == Z3_L_TRUE ? "1" : "0";
        } else if (in.v.k == V_SI) {
            Z3_ast r;
            uint64_t v = 0;
            Z3_model_eval(C, m, in.v.e, true, &r);
            Z3_get_numeral_uint64(C, r, &v);
            snprintf(buf, sizeof buf, "%llu", (unsigned long long) v);
            val = buf;
        } else val = fpFromModel(m, in.v.e, in.v.w, exact);
        out.push_back({std::string(1, in.kind) + " " + in.name, val});
    }
    return out;
}

// A model in which every real-valued input is a multiple of 1/8, if there is one
static bool gridModel(State& st, Z3_ast extra, ModelRef& out) {
    if (optIeee) return false;
    bool any = false;
    Z3_solver s = Z3_mk_solver(C);
    Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), 5000);
    Z3_solver_set_params(C, s, p);
    Z3_params_dec_ref(C, p);
    for (PCNode* n = st.pc; n; n = n->parent)
        if (n->asserted) Z3_solver_assert(C, s, n->val ? n->lit : mkNot(n->lit));
    Z3_solver_assert(C, s, extra);
    int k = 0;
    for (auto& in : st.inputs)
        if (in.v.k == V_SF) {
            any = true;
            std::string nm = "grid!" + std::to_string(k++);
            Z3_ast kk = Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), Z3_mk_int_sort(C));
            Z3_ast ar[2] = {Z3_mk_int2real(C, kk), Z3_mk_real_int64(C, 1, 8)};
            Z3_solver_assert(C, s, mkEq(in.v.e, Z3_mk_mul(C, 2, ar)));
        }
    bool ok = false;
    if (any && Z3_solver_check(C, s) == Z3_L_TRUE) {
        out = ModelRef(Z3_solver_get_model(C, s));
        ok = true;
    }
    Z3_solver_dec_ref(C, s);
    return ok;
}

static void recordViolation(State& st, const std::string& kind, const std::string& msg, Z3_ast neg, ModelRef m,
                            const std::string& known = "") {
    std::string key = kind + "|" + msg + "|" + known;
    if (violCount[key]++ >= optMaxViol) return;
    Violation v;
    v.kind = kind;
    v.msg = msg;
    v.known = known;
    v.loc = locOf(st);
    v.stackTrace = backtrace(st);
    v.exact = true;
    v.uninit = st.hasUninit;
    ModelRef g;
    if (gridModel(st, neg, g)) m = g;
    if (!m.m) {
        st.model = ModelRef();
        if (query(st, neg, &m) != Z3_L_TRUE) return;
    }
    v.inputs = inputsFromModel(st, m.m, v.exact);
    violations.push_back(v);
}

[[noreturn]] static void memError(State& st, const std::string& msg) {
    ensureModel(st);
    recordViolation(st, "memory", msg + " in " + demangle(st.frames.back().fn->name), zTrue, st.model);
    throw KillEx {msg, 3};
}

// ---------------------------------------------------------------------------------------------------------------------
// Integer/float conversions of values
// ---------------------------------------------------------------------------------------------------------------------
static Val freshUndef(State& st, unsigned w, bool fp) {
    st.hasUninit = true;
    std::string nm = "uninit!" + std::to_string(st.fresh++);
    if (w == 1) return Val::SB(Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), boolSort));
    if (fp) return Val::SF(Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), optIeee ? fpSort(w) : realSort), w);
    return Val::SI(Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), Z3_mk_bv_sort(C, w)), w);
}

static Z3_ast bvOf(State& st, const Val& v);

static Z3_ast fpToBits(const Val& v) {
    if (!optIeee) unsupported("bits of a symbolic real");
    return Z3_mk_fpa_to_ieee_bv(C, v.e);
}

static Z3_ast bvOf(State& st, const Val& v) {
    switch (v.k) {
        case V_INT: return mkBV(v.u, v.w);
        case V_SI: return v.e;
        case V_SB: return Z3_mk_ite(C, v.e, mkBV(1, 1), mkBV(0, 1));
        case V_UNDEF: return freshUndef(st, v.w, false).e;
        case V_FP: {
            u64 b;
            if (v.w == 32) {
                float f = (float) v.d;
                u32 x;
                memcpy(&x, &f, 4);
                b = x;
            } else memcpy(&b, &v.d, 8);
            return mkBV(b, v.w);
        }
        case V_SF: return fpToBits(v);
        case V_PK: {
            Z3_ast r = nullptr;
            for (auto& p : v.p->pieces) {
                Z3_ast e = bvOf(st, p);
                r = r ? Z3_mk_concat(C, e, r) : e;
            }
            return r;
        }
    }
    unsupported("bvOf");
}

static Z3_ast boolOf(State& st, const Val& v) {
    switch (v.k) {
        case V_INT: return v.u ? zTrue : zFalse;
        case V_SB: return v.e;
        case V_UNDEF: return freshUndef(st, 1, false).e;
        case V_SI: return mkEq(v.e, mkBV(1, v.w));
    }
    unsupported("boolOf");
}

static Z3_ast fpAst(State& st, const Val& v) {
    switch (v.k) {
        case V_FP:
            if (optIeee) {
                if (v.w == 32) return Z3_mk_fpa_numeral_float(C, (float) v.d, f32Sort);
                return Z3_mk_fpa_numeral_double(C, v.d, f64Sort);
            }
            return mkReal(v.d);
        case V_SF: return v.e;
        case V_UNDEF: return freshUndef(st, v.w, true).e;
    }
    unsupported("fpAst");
}

static bool special(const Val& v) {
    return v.k == V_FP && !std::isfinite(v.d);
}

static double bitsToD(u64 b, unsigned w) {
    if (w == 32) {
        u32 x = (u32) b;
        float f;
        memcpy(&f, &x, 4);
        return f;
    }
    double d;
    memcpy(&d, &b, 8);
    return d;
}

static u64 dToBits(double d, unsigned w) {
    if (w == 32) {
        float f = (float) d;
        u32 x;
        memcpy(&x, &f, 4);
        return x;
    }
    u64 b;
    memcpy(&b, &d, 8);
    return b;
}

static Val toFpType(State& st, Val v, unsigned w) {
    if (v.k == V_FP || v.k == V_SF) {
        if (v.w != w) unsupported("float width mismatch");
        return v;
    }
    if (v.k == V_INT) return Val::F(bitsToD(v.u, w), w);
    if (v.k == V_UNDEF) return freshUndef(st, w, true);
    if (v.k == V_PK && v.p->pieces.size() == 1) return toFpType(st, v.p->pieces[0], w);
    if (v.k == V_SI && optIeee) return Val::SF(Z3_mk_fpa_to_fp_bv(C, v.e, fpSort(w)), w);
    if (v.k == V_SI) {
        auto it = iteInfo.find(v.e);
        if (it != iteInfo.end()) {
            double a = bitsToD(it->second.t, w), b = bitsToD(it->second.f, w);
            if (std::isfinite(a) && std::isfinite(b)) return Val::SF(mkIte(it->second.b, mkReal(a), mkReal(b)), w);
        }
        return Val::F(bitsToD(concretize(st, v), w), w);
    }
    unsupported("symbolic integer bits reinterpreted as float");
}

static Val extractBits(State& st, const Val& v, unsigned lo, unsigned n) {
    if (lo == 0 && n == v.w) return v;
    switch (v.k) {
        case V_INT: return Val::I(v.u >> lo, n);
        case V_UNDEF: return Val::U(n);
        case V_SI: {
            auto it = iteInfo.find(v.e);
            if (it != iteInfo.end()) return iteVal(it->second.b, it->second.t >> lo, it->second.f >> lo, n);
            Z3_ast e = Z3_mk_extract(C, lo + n - 1, lo, v.e);
            if (n == 1) return Val::SB(mkEq(e, mkBV(1, 1)));
            return Val::SI(e, n);
        }
        case V_FP: return Val::I(dToBits(v.d, v.w) >> lo, n);
        case V_SF:
            if (optIeee) return Val::SI(Z3_mk_extract(C, lo + n - 1, lo, fpToBits(v)), n);
            unsupported("partial bits of a symbolic real");
        case V_PK: {
            std::vector<Val> out;
            unsigned pos = 0;
            for (auto& p : v.p->pieces) {
                unsigned a = std::max(lo, pos), b = std::min(lo + n, pos + p.w);
                if (a < b) out.push_back(extractBits(st, p, a - pos, b - a));
                pos += p.w;
            }
            return mkPack(out);
        }
    }
    unsupported("extractBits");
}

// Normalises a value so that it can be used as an integer
static Val asInt(State& st, Val v) {
    if (v.k == V_FP) return Val::I(dToBits(v.d, v.w), v.w);
    if (v.k == V_SF) return mkPack({v});
    if (v.k == V_UNDEF) return freshUndef(st, v.w, false);
    if (v.k == V_PK) {
        bool allInt = true;
        for (auto& p : v.p->pieces)
            if (p.k != V_INT && p.k != V_SI && p.k != V_UNDEF) allInt = false;
        if (allInt) return Val::SI(bvOf(st, v), v.w);
    }
    return v;
}

// ---------------------------------------------------------------------------------------------------------------------
// Memory access
// ---------------------------------------------------------------------------------------------------------------------
static Obj* objAt(State& st, u64 addr, bool write) {
    u64 region = addr & ~(REGION - 1);
    u64 id = (addr & (REGION - 1)) >> OBJ_SHIFT;
    Obj* o = nullptr;
    if (region == HEAP_BASE) {
        o = write ? st.heap.getW((u32) id) : st.heap.get((u32) id);
    } else if (region == STACK_BASE) {
        if (id < st.stack.size()) {
            ObjRef& r = st.stack[id];
            if (write && r.o->rc > 1) {
                Obj* d = new Obj(*r.o);
                d->rc = 1;
                r = ObjRef(d);
            }
            o = r.o;
        }
    } else if (region == RO_BASE) {
        if (id < roObjs.size()) o = roObjs[id];
        if (o && write) memError(st, "write to constant memory");
    }
    return o;
}

static void footprint(State& st, u64 addr, u64 n, bool write) {
    if (st.parIter < 0 || st.parLock > 0) return;
    for (u64 a = addr; a < addr + n; a++) {
        auto it = st.foot.find(a);
        if (it == st.foot.end()) {
            st.foot[a] = {st.parIter, write};
        } else {
            if (it->second.first != st.parIter && (write || it->second.second))
                memError(st, "data race between two iterations of a parallel loop");
            if (write) it->second.second = true;
        }
    }
}

static Obj* access(State& st, u64 addr, u64 n, bool write, u32& off) {
    Obj* o = objAt(st, addr, write);
    if (!o) memError(st, addr < 4096 ? "null pointer dereference" : "invalid pointer dereference");
    if (o->freed) memError(st, "use after free");
    off = (u32) (addr & OBJ_MASK);
    if ((u64) off + n > o->size) memError(st, std::string("out-of-bounds ") + (write ? "write" : "read"));
    if (st.parIter >= 0 && o->kind != O_STACK) footprint(st, addr, n, write);
    return o;
}

static int cellIdx(Obj* o, u32 off) {
    int lo = 0, hi = (int) o->cells.size();
    while (lo < hi) {
        int m = (lo + hi) / 2;
        if (o->cells[m].off < off) lo = m + 1;
        else hi = m;
    }
    return lo;
}

// reads n bytes as a sequence of pieces
static void readPieces(State& st, Obj* o, u32 off, u32 n, std::vector<Val>& out) {
    u32 i = off, end = off + n;
    while (i < end) {
        u8 s = o->st[i];
        if (s == 1) {
            u64 v = 0;
            u32 j = 0;
            while (i + j < end && j < 8 && o->st[i + j] == 1) {
                v |= (u64) o->data[i + j] << (8 * j);
                j++;
            }
            out.push_back(Val::I(v, 8 * j));
            i += j;
        } else if (s == 0) {
            u32 j = 0;
            while (i + j < end && o->st[i + j] == 0) j++;
            out.push_back(Val::U(8 * j));
            i += j;
        } else {
            u32 start = i;
            while (o->st[start] == 3) start--;
            Cell& c = o->cells[cellIdx(o, start)];
            u32 skip = i - start, take = std::min(c.n - skip, end - i);
            if (skip == 0 && take == c.n) out.push_back(c.v);
            else {
                Val v = c.v;
                if (v.k == V_SF && !optIeee) unsupported("partial access to a symbolic real");
                out.push_back(extractBits(st, v, skip * 8, take * 8));
            }
            i += take;
        }
    }
}

static void clearCells(State& st, Obj* o, u32 off, u32 n) {
    if (!o->anySym) return;
    // partially overlapped cells are split
    auto split = [&](u32 pos) {
        if (pos >= o->size || o->st[pos] != 3) return;
        u32 start = pos;
        while (o->st[start] == 3) start--;
        int ci = cellIdx(o, start);
        Cell c = o->cells[ci];
        Val a, b;
        if (c.v.k == V_SF && !optIeee) {
            a = Val::U((pos - start) * 8);
            b = Val::U((c.n - (pos - start)) * 8);
        } else {
            a = extractBits(st, c.v, 0, (pos - start) * 8);
            b = extractBits(st, c.v, (pos - start) * 8, (c.n - (pos - start)) * 8);
        }
        o->cells[ci] = {start, pos - start, a};
        o->cells.insert(o->cells.begin() + ci + 1, {pos, c.n - (pos - start), b});
        o->st[pos] = 2;
    };
    split(off);
    split(off + n);
    int a = cellIdx(o, off), b = cellIdx(o, off + n);
    o->cells.erase(o->cells.begin() + a, o->cells.begin() + b);
    if (n) memset(&o->st[off], 0, n);
}

static void writeCell(State& st, Obj* o, u32 off, Val v, u32 n);

static void writeVal(State& st, Obj* o, u32 off, const Val& v, u32 n) {
    clearCells(st, o, off, n);
    if (v.k == V_INT) {
        u64 x = v.u;
        for (u32 i = 0; i < n; i++) {
            o->data[off + i] = i < 8 ? (u8) (x >> (8 * i)) : 0;
            o->st[off + i] = 1;
        }
        return;
    }
    if (v.k == V_FP) {
        u64 x = dToBits(v.d, v.w);
        for (u32 i = 0; i < n; i++) {
            o->data[off + i] = (u8) (x >> (8 * i));
            o->st[off + i] = 1;
        }
        return;
    }
    if (v.k == V_UNDEF) {
        memset(&o->st[off], 0, n);
        return;
    }
    if (v.k == V_PK) {
        u32 pos = 0;
        bool ok = true;
        for (auto& p : v.p->pieces)
            if (p.w % 8) ok = false;
        if (!ok) {
            writeCell(st, o, off, Val::SI(bvOf(st, v), v.w), n);
            return;
        }
        for (auto& p : v.p->pieces) {
            writeVal(st, o, off + pos, p, p.w / 8);
            pos += p.w / 8;
        }
        return;
    }
    writeCell(st, o, off, v, n);
}

static void writeCell(State& st, Obj* o, u32 off, Val v, u32 n) {
    o->anySym = true;
    if (v.k == V_SB) v = iteVal(v.e, 1, 0, 8 * n);
    if (v.k == V_SI && v.w < 8 * n) v = Val::SI(Z3_mk_zero_ext(C, 8 * n - v.w, v.e), 8 * n);
    o->st[off] = 2;
    for (u32 i = 1; i < n; i++) o->st[off + i] = 3;
    int ci = cellIdx(o, off);
    o->cells.insert(o->cells.begin() + ci, {off, n, v});
}

static Val loadScalar(State& st, u64 addr, const MemLeaf& l) {
    u32 n = (l.w + 7) / 8;
    u32 off;
    Obj* o = access(st, addr, n, false, off);
    bool conc = true;
    const u8* s = &o->st[off];
    for (u32 i = 0; i < n; i++)
        if (s[i] != 1) {
            conc = false;
            break;
        }
    if (conc && n <= 8) {
        u64 v = 0;
        memcpy(&v, &o->data[off], n);
        if (l.isFp) return Val::F(bitsToD(v, l.w), l.w);
        return Val::I(v, l.w);
    }
    if (o->kind == O_CONST && !conc && false) unsupported("const");
    Val v;
    if (s[0] == 2) {
        Cell& c = o->cells[cellIdx(o, off)];
        if (c.n == n) v = c.v;
    }
    if (v.k == V_UNDEF) {
        std::vector<Val> pieces;
        readPieces(st, o, off, n, pieces);
        v = pieces.size() == 1 ? pieces[0] : mkPack(pieces);
    }
    if (v.k == V_UNDEF) {
        // uninitialised memory: a fresh value, remembered in memory so that later reads agree
        v = Val::U(l.w);
        if (n <= 8 && !l.isPtr) {
            Val f = freshUndef(st, n * 8, l.isFp);
            Obj* wo = objAt(st, addr, o->kind != O_CONST);
            writeVal(st, wo, off, f, n);
            v = f;
        } else return v;
    }
    if (l.isFp) return toFpType(st, v, l.w);
    if (v.k == V_SF || v.k == V_FP) v = asInt(st, v);
    if (v.k == V_PK) v = asInt(st, v);
    if (v.w > l.w) v = extractBits(st, v, 0, l.w);
    return v;
}

static void storeScalar(State& st, u64 addr, const MemLeaf& l, const Val& v) {
    u32 n = (l.w + 7) / 8;
    u32 off;
    Obj* o = access(st, addr, n, true, off);
    if (v.k == V_INT && !o->anySym && n <= 8) {
        memcpy(&o->data[off], &v.u, n);
        memset(&o->st[off], 1, n);
        return;
    }
    if (v.k == V_UNDEF) {
        clearCells(st, o, off, n);
        memset(&o->st[off], 0, n);
        return;
    }
    writeVal(st, o, off, v, n);
}

static Obj* newObj(u32 size, u8 kind) {
    Obj* o = new Obj;
    o->size = size;
    o->kind = kind;
    o->data.assign(size, 0);
    o->st.assign(size + 1, 0);
    return o;
}

static u64 heapAlloc(State& st, u64 size, u8 kind) {
    if (size > OBJ_MASK - 64) unsupported("large allocation");
    u32 id = st.heap.add(newObj((u32) size, kind));
    return HEAP_BASE + ((u64) id << OBJ_SHIFT);
}

static void heapFree(State& st, u64 addr) {
    if (!addr) return;
    if ((addr & ~(REGION - 1)) != HEAP_BASE || (addr & OBJ_MASK)) memError(st, "free of an invalid pointer");
    Obj* o = objAt(st, addr, true);
    if (!o || o->kind > O_MALLOC) memError(st, "free of an invalid pointer");
    if (o->freed) memError(st, "double free");
    o->freed = true;
    o->data.clear();
    o->st.clear();
    o->cells.clear();
    o->data.shrink_to_fit();
    o->st.shrink_to_fit();
}

static void memCopy(State& st, u64 dst, u64 src, u64 n) {
    if (n == 0) return;
    u32 so, dof;
    Obj* s = access(st, src, n, false, so);
    access(st, dst, n, true, dof);
    s = objAt(st, src, false);
    Obj* d = objAt(st, dst, true);
    s = objAt(st, src, false);
    if (!s->anySym && !d->anySym) {
        memmove(&d->data[dof], &s->data[so], n);
        memmove(&d->st[dof], &s->st[so], n);
        return;
    }
    std::vector<Val> pieces;
    readPieces(st, s, so, (u32) n, pieces);
    clearCells(st, d, dof, (u32) n);
    u32 pos = dof;
    for (auto& p : pieces) {
        u32 k = p.w / 8;
        if (p.k == V_UNDEF) memset(&d->st[pos], 0, k);
        else writeVal(st, d, pos, p, k);
        pos += k;
    }
}

static std::string readCStr(State& st, u64 addr) {
    std::string s;
    for (int i = 0; i < 4096; i++) {
        u32 off;
        Obj* o = access(st, addr + i, 1, false, off);
        if (o->st[off] != 1) break;
        if (!o->data[off]) break;
        s += (char) o->data[off];
    }
    return s;
}

static u64 rdPtr(State& st, u64 addr) {
    MemLeaf l {0, 0, 1, 64};
    Val v = loadScalar(st, addr, l);
    if (v.k != V_INT) unsupported("symbolic pointer in rdPtr");
    return v.u;
}

#include "symx_ops.inc"
#include "symx_decode.inc"
#include "symx_builtins.inc"
#include "symx_main.inc"
