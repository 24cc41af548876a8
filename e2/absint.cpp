// Abstract interpreter over LLVM IR.
//
// Domain: for every scalar, a map from the range set of one input symbol to values (piecewise constant or
// piecewise symbol+offset), or a bundle of bits or bytes of several symbols; for every symbol a set of
// ranges; pointers are a region and an offset.  States are partitioned where control depends on a symbol,
// and joined where they agree again (ev_join, and the return of scalar functions).  Nothing is executed
// and no solver is used.  Anything the domain cannot represent ends the analysis with an error.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
using namespace llvm;
using u64 = uint64_t;
using i64 = int64_t;
using std::string;
using std::vector;
template <class T> using sp = std::shared_ptr<T>;

static const DataLayout* DL;
static Module* M;

struct Broken { string msg; };
struct Ub { string kind, msg; };
[[noreturn]] static void broken(const string& m) { throw Broken{m}; }

using Dom = vector<std::pair<u64, u64>>;  // sorted, disjoint, inclusive
static Dom inter(const Dom& a, const Dom& b)
{
    Dom r;
    size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) {
        u64 lo = std::max(a[i].first, b[j].first), hi = std::min(a[i].second, b[j].second);
        if (lo <= hi) r.push_back({lo, hi});
        if (a[i].second < b[j].second) ++i; else ++j;
    }
    return r;
}
static Dom norm(Dom d)
{
    std::sort(d.begin(), d.end());
    Dom r;
    for (auto& p : d) {
        if (!r.empty() && (r.back().second == ~0ull || p.first <= r.back().second + 1)) r.back().second = std::max(r.back().second, p.second);
        else r.push_back(p);
    }
    return r;
}
static u64 dsize(const Dom& d)
{
    u64 n = 0;
    for (auto& p : d) { u64 k = p.second - p.first + 1; if (k == 0 || n + k < n) return ~0ull; n += k; }
    return n;
}
static u64 mask(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct Piece { u64 lo, hi; bool aff; u64 v; };  // symbol in [lo,hi]: value is v, or symbol+v (which lies in [0,2^w))
struct Val;
struct Byte { sp<const Val> v; uint8_t k = 0, c = 0, idx = 0; };  // k: 0 undefined, 1 constant c, 2 byte idx of v
struct Bit { uint32_t sym; uint8_t k, b; };                       // k: 0, 1 constant, 2 bit b of sym
struct Ext;
enum K : uint8_t { UNDEF, INT, PW, BITS, BYTES, PTR, FN, AGG };
struct Val {
    K k = UNDEF;
    uint16_t w = 0;
    uint32_t id = 0;  // symbol, region
    u64 u = 0;        // constant, offset, Function*
    sp<const Ext> x;
};
struct Ext { vector<Piece> p; vector<Bit> bits; vector<Byte> bytes; vector<Val> agg; };
static Val I(u64 u, unsigned w) { Val v; v.k = INT; v.w = w; v.u = u & mask(w); return v; }
static Val P(uint32_t r, u64 off) { Val v; v.k = PTR; v.w = 64; v.id = r; v.u = off; return v; }

struct Region { vector<Byte> b; uint8_t kind = 0; bool live = true, ro = false; const char* name = ""; };
struct Ev { sp<Ev> prev; string tag; vector<Val> v; };

struct Op { int r; };  // >=0 register, else ~index into the pool
struct Inst { Instruction* i; int dst; vector<int> ops; };
struct FnInfo { Function* f; int nregs; vector<vector<Inst>> blocks; std::unordered_map<const BasicBlock*, int> bidx; std::unordered_map<const Value*, int> reg; bool cut = false; };
static vector<Val> pool;
static std::unordered_map<const Constant*, int> pool_ix;

struct Frame { FnInfo* f; int blk = 0, ip = 0, prev = -1; vector<Val> regs; vector<uint32_t> allocas; int kind = 0; uint32_t summary = 0; };
struct Exc { Val obj; const GlobalVariable* ti = nullptr; string ext; Function* dtor = nullptr; bool rethrown = false; };
struct State {
    vector<Frame> st;
    vector<sp<Region>> mem;
    vector<sp<const Dom>> dom;
    sp<Ev> tr;
    Exc cur;
    vector<Exc> caught;
    u64 steps = 0;
    unsigned choices = 0;
    sp<const std::map<vector<u64>, uint32_t>> memo;
};
struct ForkReq { uint32_t sym; vector<Dom> parts; };

// ---------------------------------------------------------------- statistics
static u64 n_steps, n_forks, n_paths, n_joined, max_steps = 400000000, max_paths = 4000000;
static std::set<const Function*> seen_fns;
static std::set<const Instruction*> seen_calls;
static vector<string> cuts;
static vector<u64> forced;
static vector<vector<u64>> prefixes;
static double budget_s = 840;
static std::chrono::steady_clock::time_point t0;

// ---------------------------------------------------------------- memory image of globals
static std::unordered_map<const GlobalValue*, uint32_t> greg;
static vector<const GlobalValue*> gval;
static vector<sp<Region>> ginit;
static Val cval(const Constant* c);

static void put_const(vector<Byte>& b, u64 off, const Constant* c)
{
    Type* t = c->getType();
    u64 sz = DL->getTypeStoreSize(t);
    auto zero = [&](u64 o, u64 n) { for (u64 i = 0; i < n; ++i) { b[o + i].k = 1; b[o + i].c = 0; } };
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return zero(off, DL->getTypeAllocSize(t) + off > b.size() ? sz : DL->getTypeAllocSize(t));
    if (isa<UndefValue>(c)) return;
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        for (u64 i = 0; i < sz; ++i) { b[off + i].k = 1; b[off + i].c = i < 8 || ci->getBitWidth() > 64 ? (uint8_t)ci->getValue().lshr(std::min<u64>(i * 8, ci->getBitWidth() - 1)).getLoBits(8).getZExtValue() : 0; }
        return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        u64 u = cf->getValueAPF().bitcastToAPInt().getLoBits(64).getZExtValue();
        for (u64 i = 0; i < sz && i < 8; ++i) { b[off + i].k = 1; b[off + i].c = u >> (8 * i); }
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        u64 es = DL->getTypeAllocSize(cd->getElementType());
        if (cd->isString() || cd->getElementType()->isIntegerTy(8)) {
            StringRef s = cd->getRawDataValues();
            for (size_t i = 0; i < s.size(); ++i) { b[off + i].k = 1; b[off + i].c = s[i]; }
            return;
        }
        for (unsigned i = 0; i < cd->getNumElements(); ++i) put_const(b, off + i * es, cd->getElementAsConstant(i));
        return;
    }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
        auto* sl = DL->getStructLayout(cs->getType());
        zero(off, sz);
        for (unsigned i = 0; i < cs->getNumOperands(); ++i) put_const(b, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(c)) {
        u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) put_const(b, off + i * es, ca->getOperand(i));
        return;
    }
    auto v = std::make_shared<Val>(cval(c));
    for (u64 i = 0; i < sz; ++i) { b[off + i].k = 2; b[off + i].v = v; b[off + i].idx = i; if (v->k == INT) { b[off + i].k = 1; b[off + i].c = v->u >> (8 * i); b[off + i].v = nullptr; } }
}

static uint32_t region_of(const GlobalValue* g)
{
    if (auto* a = dyn_cast<GlobalAlias>(g)) g = cast<GlobalValue>(a->getAliaseeObject());
    auto it = greg.find(g);
    if (it == greg.end()) broken("unregistered global " + g->getName().str());
    return it->second;
}

static Val cval(const Constant* c)
{
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() > 64) { Val v = I(ci->getValue().getLoBits(64).getZExtValue(), 64); v.w = ci->getBitWidth(); return v; }
        return I(ci->getZExtValue(), ci->getBitWidth());
    }
    if (isa<ConstantPointerNull>(c)) return I(0, 64);
    if (isa<UndefValue>(c)) { Val v; v.w = c->getType()->isSized() ? (uint16_t)std::min<u64>(DL->getTypeSizeInBits(c->getType()), 60000) : 0; return v; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { auto ap = cf->getValueAPF().bitcastToAPInt(); return I(ap.getLoBits(std::min(64u, ap.getBitWidth())).getZExtValue(), std::min(64u, ap.getBitWidth())); }
    if (auto* a = dyn_cast<GlobalAlias>(c)) return cval(cast<Constant>(a->getAliaseeObject()));
    if (auto* f = dyn_cast<Function>(c)) { Val v; v.k = FN; v.w = 64; v.u = (u64)f; return v; }
    if (auto* g = dyn_cast<GlobalVariable>(c)) return P(region_of(g), 0);
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            Val b = cval(ce->getOperand(0));
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) broken("constant gep");
            b.u += off.getSExtValue();
            return b;
        }
        case Instruction::BitCast:
        case Instruction::PtrToInt:
        case Instruction::IntToPtr: return cval(ce->getOperand(0));
        default: break;
        }
        broken(string("constant expression ") + ce->getOpcodeName());
    }
    if (isa<ConstantAggregateZero>(c) || isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataSequential>(c)) {
        auto x = std::make_shared<Ext>();
        unsigned n = isa<ConstantAggregateZero>(c) ? (unsigned)cast<ConstantAggregateZero>(c)->getElementCount().getFixedValue() : isa<ConstantDataSequential>(c) ? cast<ConstantDataSequential>(c)->getNumElements() : c->getNumOperands();
        for (unsigned i = 0; i < n; ++i) x->agg.push_back(cval(c->getAggregateElement(i)));
        Val v; v.k = AGG; v.x = x;
        return v;
    }
    broken("constant kind");
}

// ---------------------------------------------------------------- piecewise values
static const Dom& dom(const State& s, uint32_t sym) { return *s.dom[sym]; }

static Val mkpw(const State& s, unsigned w, uint32_t sym, const vector<Piece>& in)
{
    const Dom& d = dom(s, sym);
    vector<Piece> r;
    size_t i = 0, j = 0;
    while (i < in.size() && j < d.size()) {
        u64 lo = std::max(in[i].lo, d[j].first), hi = std::min(in[i].hi, d[j].second);
        if (lo <= hi) {
            Piece p = in[i];
            p.lo = lo; p.hi = hi;
            if (p.aff && lo == hi) { p.aff = false; p.v = (lo + p.v) & mask(w); }
            if (!r.empty() && r.back().aff == p.aff && r.back().v == p.v && (!p.aff || r.back().hi + 1 == p.lo)) r.back().hi = p.hi;  // gaps of a constant do not matter
            else r.push_back(p);
        }
        if (in[i].hi < d[j].second) ++i; else ++j;
    }
    if (r.empty()) broken("empty symbol domain");
    if (r.size() == 1 && !r[0].aff) return I(r[0].v, w);
    Val v;
    v.k = PW; v.w = w; v.id = sym;
    auto x = std::make_shared<Ext>();
    x->p = std::move(r);
    v.x = x;
    return v;
}
static Val nrm(const State& s, const Val& v)
{
    if (v.k != PW) return v;
    const Dom& d = dom(s, v.id);
    auto& p = v.x->p;
    if (p.size() == 1 && p[0].aff && d.front().first != d.back().second) return v;
    return mkpw(s, v.w, v.id, p);
}
// adds symbol+v over [lo,hi], reduced to w bits
static void add_aff(vector<Piece>& out, u64 lo, u64 hi, u64 v, unsigned w)
{
    for (;;) {
        u64 start = (lo + v) & mask(w);
        u64 room = mask(w) - start;
        u64 end = hi - lo <= room ? hi : lo + room;
        out.push_back({lo, end, true, start - lo});
        if (end == hi) return;
        if (out.size() > 8192) broken("too many pieces");
        lo = end + 1;
    }
}
static void expand(vector<Piece>& out, const Piece& p, const std::function<u64(u64)>& f)
{
    if (p.hi - p.lo > 70000) broken("operation on a wide symbol");
    for (u64 s = p.lo;; ++s) {
        u64 v = f(s + p.v);
        if (!out.empty() && !out.back().aff && out.back().v == v && out.back().hi + 1 == s) out.back().hi = s;
        else out.push_back({s, s, false, v});
        if (s == p.hi) break;
    }
}
static u64 arith(unsigned op, u64 a, u64 b, unsigned w)
{
    u64 m = mask(w);
    switch (op) {
    case Instruction::Add: return (a + b) & m;
    case Instruction::Sub: return (a - b) & m;
    case Instruction::Mul: return (a * b) & m;
    case Instruction::And: return a & b;
    case Instruction::Or: return a | b;
    case Instruction::Xor: return a ^ b;
    case Instruction::Shl: return b >= w ? 0 : (a << b) & m;
    case Instruction::LShr: return b >= w ? 0 : a >> b;
    case Instruction::AShr: return (u64)(sx(a, w) >> std::min<u64>(b, w - 1)) & m;
    case Instruction::UDiv: if (!b) throw Ub{"division-by-zero", ""}; return a / b;
    case Instruction::URem: if (!b) throw Ub{"division-by-zero", ""}; return a % b;
    case Instruction::SDiv: if (!b) throw Ub{"division-by-zero", ""}; return (u64)(sx(a, w) / sx(b, w)) & m;
    case Instruction::SRem: if (!b) throw Ub{"division-by-zero", ""}; return (u64)(sx(a, w) % sx(b, w)) & m;
    }
    broken("arith op");
}
static bool cmp(unsigned pr, u64 a, u64 b, unsigned w)
{
    switch (pr) {
    case CmpInst::ICMP_EQ: return a == b;
    case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_UGT: return a > b;
    case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_ULT: return a < b;
    case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w);
    case CmpInst::ICMP_SGE: return sx(a, w) >= sx(b, w);
    case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w);
    case CmpInst::ICMP_SLE: return sx(a, w) <= sx(b, w);
    }
    broken("cmp");
}
static void binop_piece(vector<Piece>& out, unsigned op, const Piece& p, u64 c, unsigned w, bool swapped)
{
    if (!p.aff) { out.push_back({p.lo, p.hi, false, swapped ? arith(op, c, p.v, w) : arith(op, p.v, c, w)}); return; }
    u64 a = p.lo + p.v, b = p.hi + p.v;  // value range
    if (!swapped || op == Instruction::Add || op == Instruction::Mul || op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) {
        switch (op) {
        case Instruction::Add: return add_aff(out, p.lo, p.hi, p.v + c, w);
        case Instruction::Sub: return add_aff(out, p.lo, p.hi, p.v - c, w);
        case Instruction::Mul: if (c == 1) { out.push_back(p); return; } if (c == 0) { out.push_back({p.lo, p.hi, false, 0}); return; } break;
        case Instruction::Or:
            if (c == 0) { out.push_back(p); return; }
            if (b < (c & -c)) return add_aff(out, p.lo, p.hi, p.v + c, w);
            break;
        case Instruction::Xor:
            if (c == 0) { out.push_back(p); return; }
            break;
        case Instruction::And:
            if (c == 0) { out.push_back({p.lo, p.hi, false, 0}); return; }
            if ((c & (c + 1)) == 0) {
                if (b <= c) { out.push_back(p); return; }
                // pieces of 2^k
                u64 lo = p.lo;
                for (;;) {
                    u64 val = lo + p.v, room = c - (val & c);
                    u64 hi = p.hi - lo <= room ? p.hi : lo + room;
                    out.push_back({lo, hi, true, (val & c) - lo});
                    if (hi == p.hi) return;
                    if (out.size() > 20000) broken("too many pieces");
                    lo = hi + 1;
                }
            }
            break;
        case Instruction::LShr:
        case Instruction::UDiv: {
            u64 d = op == Instruction::UDiv ? c : c >= 64 ? 0 : 1ull << c;
            if (d == 0) break;
            if (d == 1) { out.push_back(p); return; }
            if ((b - a) / d > 5000) break;
            u64 lo = p.lo;
            for (;;) {
                u64 val = lo + p.v, room = d - 1 - val % d;
                u64 hi = p.hi - lo <= room ? p.hi : lo + room;
                out.push_back({lo, hi, false, val / d});
                if (hi == p.hi) return;
                lo = hi + 1;
            }
        }
        case Instruction::AShr:
            if (b <= mask(w) >> 1) return binop_piece(out, Instruction::LShr, p, c, w, false);
            break;
        case Instruction::Shl:
            if (c == 0) { out.push_back(p); return; }
            break;
        case Instruction::SDiv:
        case Instruction::SRem:
            if (b <= mask(w) >> 1 && sx(c, w) > 0) return binop_piece(out, op == Instruction::SDiv ? Instruction::UDiv : Instruction::URem, p, c, w, false);
            break;
        }
    }
    expand(out, p, [&](u64 v) { return swapped ? arith(op, c, v, w) : arith(op, v, c, w); });
}
static void cmp_piece(vector<Piece>& out, unsigned pr, const Piece& p, u64 c, unsigned w)
{
    if (!p.aff) { out.push_back({p.lo, p.hi, false, cmp(pr, p.v, c, w)}); return; }
    auto mono = [&](u64 lo, u64 hi) {  // value monotone in the predicate's order over [lo,hi]
        if (pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE) {
            bool e = pr == CmpInst::ICMP_EQ;
            u64 s = c - p.v;
            if (c < lo + p.v || c > hi + p.v) { out.push_back({lo, hi, false, !e}); return; }
            if (s > lo) out.push_back({lo, s - 1, false, !e});
            out.push_back({s, s, false, e});
            if (s < hi) out.push_back({s + 1, hi, false, !e});
            return;
        }
        bool a = cmp(pr, lo + p.v, c, w), b = cmp(pr, hi + p.v, c, w);
        if (a == b) { out.push_back({lo, hi, false, a}); return; }
        u64 l = lo, h = hi;  // a holds at l, b at h: find the last a
        while (h - l > 1) { u64 m = l + (h - l) / 2; if (cmp(pr, m + p.v, c, w) == a) l = m; else h = m; }
        out.push_back({lo, l, false, a});
        out.push_back({h, hi, false, b});
    };
    u64 sb = mask(w) >> 1;  // largest non-negative
    if (p.lo + p.v <= sb && p.hi + p.v > sb) { u64 s = sb - p.v; mono(p.lo, s); mono(s + 1, p.hi); }
    else mono(p.lo, p.hi);
}

// ---------------------------------------------------------------- bits and bytes
static bool as_bits(const State& s, const Val& v, vector<Bit>& out);
static Val from_bits(vector<Bit> b)
{
    bool cst = true;
    u64 u = 0;
    for (size_t i = 0; i < b.size(); ++i) { if (b[i].k == 2) cst = false; else if (b[i].k && i < 64) u |= 1ull << i; }
    if (cst) return I(u, b.size());
    Val v;
    v.k = BITS; v.w = b.size();
    auto x = std::make_shared<Ext>();
    x->bits = std::move(b);
    v.x = x;
    return v;
}
static bool as_bits(const State& s, const Val& v0, vector<Bit>& out)
{
    Val v = nrm(s, v0);
    switch (v.k) {
    case INT: for (unsigned i = 0; i < v.w; ++i) out.push_back({0, (uint8_t)((v.u >> i) & 1), 0}); return true;
    case BITS: out.insert(out.end(), v.x->bits.begin(), v.x->bits.end()); return true;
    case PW: {
        const Dom& d = dom(s, v.id);
        auto& ps = v.x->p;
        if (ps.size() == 1 && ps[0].aff && ps[0].v == 0) {  // the symbol itself
            u64 hi = d.back().second;
            for (unsigned i = 0; i < v.w; ++i) {
                // constant high bits shared by the whole range
                bool c = (d.front().first >> i) == (hi >> i);
                if (c) out.push_back({0, (uint8_t)((hi >> i) & 1), 0});
                else out.push_back({v.id, 2, (uint8_t)i});
            }
            return true;
        }
        if (dsize(d) > 70000) return false;
        vector<std::pair<u64, u64>> pts;
        for (auto& p : ps) for (u64 t = p.lo;; ++t) {
            if (std::any_of(d.begin(), d.end(), [&](auto& r) { return t >= r.first && t <= r.second; })) pts.push_back({t, p.aff ? t + p.v : p.v});
            if (t == p.hi) break;
        }
        for (unsigned i = 0; i < v.w; ++i) {
            u64 ones = 0;
            for (auto& q : pts) ones += (q.second >> i) & 1;
            if (ones == 0) { out.push_back({0, 0, 0}); continue; }
            if (ones == pts.size()) { out.push_back({0, 1, 0}); continue; }
            int found = -1;
            for (int b = 0; b < 32 && found < 0; ++b) {
                bool ok = true;
                for (auto& q : pts) if (((q.second >> i) & 1) != ((q.first >> b) & 1)) { ok = false; break; }
                if (ok) found = b;
            }
            if (found < 0) return false;
            out.push_back({v.id, 2, (uint8_t)found});
        }
        return true;
    }
    case BYTES: {
        for (auto& b : v.x->bytes) {
            if (b.k == 0) throw Ub{"uninitialised", "use of an undefined byte"};
            if (b.k == 1) { for (int i = 0; i < 8; ++i) out.push_back({0, (uint8_t)((b.c >> i) & 1), 0}); continue; }
            vector<Bit> t;
            if (!as_bits(s, *b.v, t)) return false;
            while (t.size() < 8u * (b.idx + 1)) t.push_back({0, 0, 0});
            out.insert(out.end(), t.begin() + 8 * b.idx, t.begin() + 8 * b.idx + 8);
        }
        return true;
    }
    default: return false;
    }
}
static void to_bytes(const State& s, const Val& v, unsigned n, vector<Byte>& out)
{
    if (v.k == INT) { for (unsigned i = 0; i < n; ++i) { Byte b; b.k = 1; b.c = i < 8 ? v.u >> (8 * i) : 0; out.push_back(b); } return; }
    if (v.k == UNDEF) { out.resize(out.size() + n); return; }
    if (v.k == BYTES) { for (unsigned i = 0; i < n; ++i) { if (i < v.x->bytes.size()) out.push_back(v.x->bytes[i]); else { Byte b; b.k = 1; out.push_back(b); } } return; }
    auto p = std::make_shared<const Val>(v);
    for (unsigned i = 0; i < n; ++i) { Byte b; b.k = 2; b.v = p; b.idx = i; out.push_back(b); }
}
static Val trunc_to(State& s, const Val& v, unsigned w);
static Val from_bytes(State& s, const Byte* b, unsigned n, unsigned w)
{
    bool c = true, und = true, one = n > 0 && b[0].k == 2;
    for (unsigned i = 0; i < n; ++i) {
        if (b[i].k != 1) c = false;
        if (b[i].k != 0) und = false;
        if (b[i].k != 2 || b[i].v != b[0].v || b[i].idx != i) one = false;
    }
    if (und) { Val v; v.w = w; return v; }
    if (c) { u64 u = 0; for (unsigned i = 0; i < n && i < 8; ++i) u |= (u64)b[i].c << (8 * i); if (w > 64) { Val v = I(u, 64); v.w = w; return v; } return I(u, w); }
    if (one) {
        const Val& v = *b[0].v;
        unsigned vb = (v.w + 7) / 8;
        if (vb == n) { if (v.w == w || v.k == PTR || v.k == FN) return v; if (v.k == PW) { Val r = v; r.w = w; return w >= v.w ? r : trunc_to(s, v, w); } }
        if (v.k == PW && n < vb) return trunc_to(s, v, w);
    }
    if (n == 1 && b[0].k == 2 && b[0].v->k == PW) {
        // one byte of a wider symbolic value
        vector<Bit> t;
        if (as_bits(s, *b[0].v, t)) { t.resize(std::max<size_t>(t.size(), 8 * (b[0].idx + 1)), Bit{0, 0, 0}); vector<Bit> r(t.begin() + 8 * b[0].idx, t.begin() + 8 * b[0].idx + w); return from_bits(r); }
    }
    Val v;
    v.k = BYTES; v.w = w;
    auto x = std::make_shared<Ext>();
    x->bytes.assign(b, b + n);
    v.x = x;
    return v;
}
// bytes that are all functions of one small symbol
static bool bytes_pw(State& s, const Val& v, Val& out)
{
    uint32_t one = ~0u;
    for (auto& b : v.x->bytes) {
        if (b.k == 0) return false;
        if (b.k == 1) continue;
        if (b.v->k != PW || (one != ~0u && b.v->id != one)) return false;
        one = b.v->id;
    }
    if (one == ~0u || v.x->bytes.size() > 8 || dsize(dom(s, one)) > 70000) return false;
    auto at = [](const Val& q, u64 x) { for (auto& p : q.x->p) if (x >= p.lo && x <= p.hi) return (p.aff ? x + p.v : p.v) & mask(q.w); broken("piece"); };
    vector<Piece> ps;
    for (auto& rg : dom(s, one)) expand(ps, Piece{rg.first, rg.second, true, 0}, [&](u64 x) {
        u64 u = 0;
        for (size_t i = 0; i < v.x->bytes.size(); ++i) { auto& b = v.x->bytes[i]; u |= (b.k == 1 ? u64{b.c} : (at(*b.v, x) >> (8 * b.idx)) & 0xff) << (8 * i); }
        return u;
    });
    out = mkpw(s, v.w, one, ps);
    return true;
}
static Val trunc_to(State& s, const Val& v0, unsigned w)
{
    Val v = nrm(s, v0);
    if (v.k == INT) return I(v.u, w);
    if (v.k == UNDEF) { v.w = w; return v; }
    if (v.k == PW) {
        vector<Piece> out;
        for (auto& p : v.x->p) { if (!p.aff) out.push_back({p.lo, p.hi, false, p.v & mask(w)}); else if (p.hi + p.v <= mask(w)) out.push_back(p); else if (w >= 8 || p.hi - p.lo < 70000) { Piece q = p; if (w < 8) expand(out, q, [&](u64 x) { return x & mask(w); }); else add_aff(out, p.lo, p.hi, p.v, w); } else broken("trunc"); }
        return mkpw(s, w, v.id, out);
    }
    if (v.k == BYTES && w % 8 == 0) return from_bytes(s, v.x->bytes.data(), w / 8, w);
    vector<Bit> b;
    if (as_bits(s, v, b)) { b.resize(w); return from_bits(b); }
    if (v.k == PTR && w == 64) return v;
    { Val m; if (v.k == BYTES && bytes_pw(s, v, m)) return trunc_to(s, m, w); }
    broken("trunc of kind " + std::to_string(v.k) + " w " + std::to_string(w) + (v.k == BYTES ? [&] { string r; for (auto& b : v.x->bytes) r += " " + std::to_string(b.k); return r; }() : ""));
}
// a fresh symbol for a value of several symbols
static uint32_t new_sym(State& s, Dom d) { s.dom.push_back(std::make_shared<const Dom>(std::move(d))); return s.dom.size() - 1; }
static Val sym_val(const State& s, uint32_t sym, unsigned w) { return mkpw(s, w, sym, {{0, mask(w), true, 0}}); }
static Val materialise(State& s, const Val& v0)
{
    Val v = nrm(s, v0);
    if (v.k == BYTES || v.k == BITS) {
        vector<Bit> b;
        if (!as_bits(s, v, b)) { Val m; if (v.k == BYTES && bytes_pw(s, v, m)) return m; broken("value of several symbols"); }
        // bits of symbols that have become constant
        for (auto& t : b) if (t.k == 2) { const Dom& d = dom(s, t.sym); if ((d.front().first >> t.b) == (d.back().second >> t.b)) t = {0, (uint8_t)((d.back().second >> t.b) & 1), 0}; }
        Val r = from_bits(b);
        if (r.k != BITS) return r;
        // all bits of one symbol: keep the relation
        uint32_t one = ~0u; bool single = true;
        for (auto& t : b) if (t.k == 2) { if (one == ~0u) one = t.sym; else if (one != t.sym) single = false; }
        if (single && dsize(dom(s, one)) <= 70000) {
            vector<Piece> out;
            for (auto& rg : dom(s, one)) expand(out, Piece{rg.first, rg.second, true, 0}, [&](u64 x) { u64 u = 0; for (size_t i = 0; i < b.size(); ++i) if (b[i].k == 2 ? (x >> b[i].b) & 1 : b[i].k) u |= 1ull << i; return u; });
            return mkpw(s, v.w, one, out);
        }
        vector<u64> key{v.w};
        u64 base = 0; unsigned top = 0; 
        for (size_t i = 0; i < b.size(); ++i) {
            key.push_back(((u64)b[i].sym << 16) | (b[i].k << 8) | b[i].b);
            if (b[i].k == 1) base |= 1ull << i;
            if (b[i].k == 2) top = i + 1;
        }
        if (s.memo) { auto it = s.memo->find(key); if (it != s.memo->end()) return sym_val(s, it->second, v.w); }
        Dom d;
        if ((base & mask(top)) == 0 && std::all_of(b.begin(), b.begin() + top, [](auto& t) { return t.k == 2; })) d = {{base, base | mask(top)}};
        else {
            // low bits from the back until a constant interrupts
            d = {{base, base}};
            for (size_t i = b.size(); i-- > 0;) if (b[i].k == 2) { Dom e; for (auto& r2 : d) { e.push_back(r2); e.push_back({r2.first | 1ull << i, r2.second | 1ull << i}); } d = norm(e); if (d.size() > 4096) broken("value set of several symbols"); }
        }
        uint32_t sym = new_sym(s, d);
        auto m = s.memo ? std::make_shared<std::map<vector<u64>, uint32_t>>(*s.memo) : std::make_shared<std::map<vector<u64>, uint32_t>>();
        (*m)[key] = sym;
        s.memo = m;
        // record what the symbol stands for
        auto e = std::make_shared<Ev>();
        e->prev = s.tr; e->tag = "def"; e->v = {I(sym, 32), r};
        s.tr = e;
        return sym_val(s, sym, v.w);
    }
    return v;
}
static ForkReq concretise(const State& s, const Val& v, u64 limit = 600)
{
    std::map<u64, Dom> g;
    for (auto& p : v.x->p) {
        if (!p.aff) { g[p.v].push_back({p.lo, p.hi}); continue; }
        if (p.hi - p.lo > limit) broken("a value has too many possibilities to tell apart");
        for (u64 t = p.lo;; ++t) { g[t + p.v].push_back({t, t}); if (t == p.hi) break; }
    }
    if (g.size() > limit) broken("a value has too many possibilities to tell apart");
    ForkReq f{v.id, {}};
    for (auto& e : g) { Dom d = inter(norm(e.second), dom(s, v.id)); if (!d.empty()) f.parts.push_back(d); }
    return f;
}
static u64 need(State& s, const Val& v0, const char* what)
{
    Val v = materialise(s, v0);
    if (v.k == INT) return v.u;
    if (v.k == PW) throw concretise(s, v);
    if (v.k == UNDEF) throw Ub{"uninitialised", what};
    broken(string("not a number: ") + what + " kind " + std::to_string(v.k));
}
static Val binop(State& s, unsigned op, Val a, Val b, unsigned w)
{
    a = nrm(s, a); b = nrm(s, b);
    if (a.k == UNDEF || b.k == UNDEF) {
        // byte by byte: a mask or a disjunction can make some bytes defined
        Val v; v.w = w;
        if (w % 8 || w > 64) return v;
        vector<Byte> x, y, r;
        to_bytes(s, a, w / 8, x); to_bytes(s, b, w / 8, y);
        if (op == Instruction::And || op == Instruction::Or) {
            uint8_t one = op == Instruction::And ? 0xff : 0, none = op == Instruction::And ? 0 : 0xff;
            for (size_t i = 0; i < x.size(); ++i) {
                if (x[i].k == 1 && x[i].c == none) r.push_back(x[i]);
                else if (y[i].k == 1 && y[i].c == none) r.push_back(y[i]);
                else if (x[i].k == 1 && x[i].c == one) r.push_back(y[i]);
                else if (y[i].k == 1 && y[i].c == one) r.push_back(x[i]);
                else r.push_back(Byte{});
            }
            return from_bytes(s, r.data(), r.size(), w);
        }
        if (op == Instruction::Shl && b.k == INT && b.u % 8 == 0 && b.u < w) { r.resize(b.u / 8); for (auto& t : r) t.k = 1; r.resize(w / 8); return from_bytes(s, r.data(), r.size(), w); }
        if (op == Instruction::LShr && b.k == INT && b.u % 8 == 0 && b.u < w) { r.resize(w / 8); for (size_t i = w / 8 - b.u / 8; i < r.size(); ++i) r[i].k = 1; return from_bytes(s, r.data(), r.size(), w); }
        return v;
    }
    if (a.k == INT && b.k == INT) { if (w > 64) broken("wide integer"); return I(arith(op, a.u, b.u, w), w); }
    if (a.k == PTR || b.k == PTR || a.k == FN || b.k == FN) {
        if (op == Instruction::Sub && a.k == PTR && b.k == PTR) { if (a.id == b.id) return I(a.u - b.u, w); throw Ub{"pointer-difference", "pointers into different objects"}; }
        if (op == Instruction::Add && a.k == PTR && b.k == INT) { a.u += b.u; return a; }
        if (op == Instruction::Add && b.k == PTR && a.k == INT) { b.u += a.u; return b; }
        if (op == Instruction::Sub && a.k == PTR && b.k == INT) { a.u -= b.u; return a; }
        if (op == Instruction::And && (a.k == FN || a.k == PTR) && b.k == INT) { if (b.u == 1) return I(a.k == FN ? 0 : a.u & 1, w); if (b.u < 16) return I(a.u & b.u, w); }
        if (op == Instruction::Sub && b.k == INT && a.k == FN) { if (b.u == 0) return a; }
        if (op == Instruction::Sub && (a.k == PTR) != (b.k == PTR)) throw Ub{"pointer-difference", "a null pointer and an object"};
        broken("pointer arithmetic");
    }
    if (a.k == PW && b.k == INT) {
        bool ok = true;
        vector<Piece> out;
        // wide shl/or/and/xor go to bits
        if ((op == Instruction::Shl || op == Instruction::Or || op == Instruction::And || op == Instruction::Xor) && dsize(dom(s, a.id)) > 4096) {
            vector<Bit> x, y;
            if (as_bits(s, a, x)) ok = false;
        }
        if (op == Instruction::And && (b.u & (b.u + 1)) == 0) ok = true;
        if (ok) { for (auto& p : a.x->p) binop_piece(out, op, p, b.u, w, false); return mkpw(s, w, a.id, out); }
    }
    if (a.k == INT && b.k == PW) { vector<Piece> out; for (auto& p : b.x->p) binop_piece(out, op, p, a.u, w, true); return mkpw(s, w, b.id, out); }
    if (a.k == PW && b.k == PW && a.id == b.id) {
        vector<Piece> out;
        size_t i = 0, j = 0;
        auto &p = a.x->p, &q = b.x->p;
        // both cover the domain; constants may span gaps, so walk the domain
        for (auto& r : dom(s, a.id)) {
            u64 lo = r.first;
            i = j = 0;
            while (true) {
                while (p[i].hi < lo) ++i;
                while (q[j].hi < lo) ++j;
                u64 hi = std::min({r.second, p[i].hi, q[j].hi});
                Piece x{lo, hi, p[i].aff, p[i].v}, y{lo, hi, q[j].aff, q[j].v};
                if (!y.aff) binop_piece(out, op, x, y.v, w, false);
                else if (!x.aff) binop_piece(out, op, y, x.v, w, true);
                else if (op == Instruction::Sub) out.push_back({lo, hi, false, (x.v - y.v) & mask(w)});
                else {
                    if (hi - lo > 70000) broken("operation on a wide symbol");
                    for (u64 t = lo;; ++t) { out.push_back({t, t, false, arith(op, t + x.v, t + y.v, w)}); if (t == hi) break; }
                }
                if (hi == r.second) break;
                lo = hi + 1;
            }
        }
        return mkpw(s, w, a.id, out);
    }
    // bits
    auto shift_const = [&](const Val& v) -> i64 { return v.k == INT ? (i64)v.u : -1; };
    if (a.k == BYTES && b.k == INT && w % 8 == 0) {
        vector<Byte> y = a.x->bytes;
        i64 c = shift_const(b);
        if (op == Instruction::LShr && c % 8 == 0) { vector<Byte> r(y.begin() + std::min<size_t>(c / 8, y.size()), y.end()); Byte z; z.k = 1; r.resize(y.size(), z); return from_bytes(s, r.data(), r.size(), w); }
        if (op == Instruction::Shl && c % 8 == 0) { vector<Byte> r(c / 8); for (auto& t : r) t.k = 1; r.insert(r.end(), y.begin(), y.end() - c / 8); return from_bytes(s, r.data(), r.size(), w); }
        if (op == Instruction::And) {
            bool ok = true;
            vector<Byte> r = y;
            for (size_t i = 0; i < r.size(); ++i) { uint8_t m = b.u >> (8 * i); if (m == 0) { r[i] = Byte{}; r[i].k = 1; } else if (m != 0xff) { if (r[i].k == 1) r[i].c &= m; else ok = false; } }
            if (ok) return from_bytes(s, r.data(), r.size(), w);
        }
    }
    if ((a.k == BYTES || b.k == BYTES) && op == Instruction::Or && w % 8 == 0) {
        vector<Byte> x, y, r;
        to_bytes(s, a, w / 8, x); to_bytes(s, b, w / 8, y);
        bool ok = true;
        for (size_t i = 0; i < x.size() && ok; ++i) {
            if (x[i].k == 1 && x[i].c == 0) r.push_back(y[i]);
            else if (y[i].k == 1 && y[i].c == 0) r.push_back(x[i]);
            else if (x[i].k == 0 || y[i].k == 0) r.push_back(Byte{});
            else ok = false;
        }
        if (ok) return from_bytes(s, r.data(), r.size(), w);
    }
    vector<Bit> x, y;
    if (as_bits(s, a, x) && as_bits(s, b, y)) {
        auto zero = Bit{0, 0, 0};
        i64 c = shift_const(b);
        switch (op) {
        case Instruction::Shl: if (c >= 0) { vector<Bit> r(std::min<size_t>(c, w), zero); r.insert(r.end(), x.begin(), x.end()); r.resize(w); return from_bits(r); } break;
        case Instruction::LShr: if (c >= 0) { vector<Bit> r(x.begin() + std::min<size_t>(c, w), x.end()); r.resize(w, zero); return from_bits(r); } break;
        case Instruction::AShr: if (c >= 0) { auto t = x.back(); vector<Bit> r(x.begin() + std::min<size_t>(c, w - 1), x.end()); r.resize(w, t); return from_bits(r); } break;
        case Instruction::And:
        case Instruction::Or:
        case Instruction::Xor:
        case Instruction::Add: {
            vector<Bit> r;
            bool ok = true;
            for (unsigned i = 0; i < w && ok; ++i) {
                Bit p = x[i], q = y[i];
                if (op == Instruction::And) { if (p.k == 0 || q.k == 0) r.push_back(zero); else if (p.k == 1) r.push_back(q); else if (q.k == 1) r.push_back(p); else if (!memcmp(&p, &q, sizeof p)) r.push_back(p); else ok = false; }
                else if (op == Instruction::Or) { if (p.k == 1 || q.k == 1) r.push_back({0, 1, 0}); else if (p.k == 0) r.push_back(q); else if (q.k == 0) r.push_back(p); else ok = false; }
                else { if (p.k == 0) r.push_back(q); else if (q.k == 0) r.push_back(p); else ok = false; }
            }
            if (ok) return from_bits(r);
            break;
        }
        case Instruction::Sub: {
            // clearing set constant bits
            vector<Bit> r; bool ok = true;
            for (unsigned i = 0; i < w && ok; ++i) { if (y[i].k == 0) r.push_back(x[i]); else if (y[i].k == 1 && x[i].k == 1) r.push_back(zero); else ok = false; }
            if (ok) return from_bits(r);
            break;
        }
        }
    }
    Val ma = materialise(s, a), mb = materialise(s, b);
    if ((ma.k == PW || ma.k == INT) && (mb.k == PW || mb.k == INT) && (ma.k != a.k || mb.k != b.k)) return binop(s, op, ma, mb, w);
    if (ma.k == PW && mb.k == PW) {  // two symbols: tell the smaller one's values apart
        u64 na = dsize(dom(s, ma.id)), nb = dsize(dom(s, mb.id));
        throw concretise(s, nb <= na ? mb : ma, 300);
    }
    broken(string("operation ") + Instruction::getOpcodeName(op) + " on kinds " + std::to_string(a.k) + "," + std::to_string(b.k));
}
static Val icmp(State& s, unsigned pr, Val a, Val b, unsigned w)
{
    a = nrm(s, a); b = nrm(s, b);
    bool eqp = pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE;
    if (a.k == UNDEF || b.k == UNDEF) { Val v; v.w = 1; return v; }
    if (a.k == INT && b.k == INT) return I(cmp(pr, a.u, b.u, w), 1);
    auto ptr = [](const Val& v) { return v.k == PTR || v.k == FN; };
    if (ptr(a) || ptr(b)) {
        auto key = [&](const Val& v) -> std::pair<u64, u64> { return v.k == PTR ? std::pair<u64, u64>{v.id + 1, v.u} : v.k == FN ? std::pair<u64, u64>{1ull << 40, v.u} : std::pair<u64, u64>{0, v.u}; };
        if (!(ptr(a) || a.k == INT) || !(ptr(b) || b.k == INT)) broken("pointer comparison");
        auto x = key(a), y = key(b);
        if (eqp) return I((x == y) == (pr == CmpInst::ICMP_EQ), 1);
        if (x.first != y.first) return I(cmp(pr, x.first, y.first, 64), 1);
        return I(cmp(pr >= CmpInst::ICMP_UGT && pr <= CmpInst::ICMP_ULE ? (unsigned)CmpInst::getSignedPredicate((CmpInst::Predicate)pr) : pr, x.second, y.second, 64), 1);
    }
    a = materialise(s, a); b = materialise(s, b);
    if (a.k == INT && b.k == INT) return I(cmp(pr, a.u, b.u, w), 1);
    if (a.k == INT) { std::swap(a, b); pr = CmpInst::getSwappedPredicate((CmpInst::Predicate)pr); }
    if (a.k == PW && b.k == INT) { vector<Piece> out; for (auto& p : a.x->p) cmp_piece(out, pr, p, b.u, w); return mkpw(s, 1, a.id, out); }
    if (a.k == PW && b.k == PW) {
        if (a.id == b.id) {
            Val d = nrm(s, a);
            vector<Piece> out;
            for (auto& r : dom(s, a.id)) {
                u64 lo = r.first; size_t i = 0, j = 0;
                auto &p = a.x->p, &q = b.x->p;
                while (true) {
                    while (p[i].hi < lo) ++i;
                    while (q[j].hi < lo) ++j;
                    u64 hi = std::min({r.second, p[i].hi, q[j].hi});
                    Piece x{lo, hi, p[i].aff, p[i].v}, y{lo, hi, q[j].aff, q[j].v};
                    if (!y.aff) cmp_piece(out, pr, x, y.v, w);
                    else if (!x.aff) cmp_piece(out, CmpInst::getSwappedPredicate((CmpInst::Predicate)pr), y, x.v, w);
                    else if (eqp || !((lo + x.v <= mask(w) >> 1) != (hi + x.v <= mask(w) >> 1) || (lo + y.v <= mask(w) >> 1) != (hi + y.v <= mask(w) >> 1))) out.push_back({lo, hi, false, cmp(pr, lo + x.v, lo + y.v, w)});
                    else { if (hi - lo > 70000) broken("comparison"); for (u64 t = lo;; ++t) { out.push_back({t, t, false, cmp(pr, t + x.v, t + y.v, w)}); if (t == hi) break; } }
                    if (hi == r.second) break;
                    lo = hi + 1;
                }
            }
            return mkpw(s, 1, a.id, out);
        }
        auto rng = [&](const Val& v, u64& lo, u64& hi) { lo = ~0ull; hi = 0; for (auto& p : v.x->p) { u64 x = p.aff ? p.lo + p.v : p.v, y = p.aff ? p.hi + p.v : p.v; lo = std::min(lo, x); hi = std::max(hi, y); } };
        u64 al, ah, bl, bh;
        rng(a, al, ah); rng(b, bl, bh);
        bool sg = CmpInst::isSigned((CmpInst::Predicate)pr);
        if (!sg || (ah <= mask(w) >> 1 && bh <= mask(w) >> 1)) {
            if (ah < bl || bh < al) return I(cmp(pr, al, bl, w), 1);
        }
        u64 na = dsize(dom(s, a.id)), nb = dsize(dom(s, b.id));
        if (std::min(na, nb) <= 300) throw concretise(s, nb <= na ? b : a, 300);
        // two wide symbols: split both at the boundaries of the other
        broken("comparison of two wide symbols");
    }
    broken("comparison of kinds " + std::to_string(a.k) + "," + std::to_string(b.k));
}
// decides a condition, or asks for a partition
static bool truth(State& s, const Val& v0)
{
    Val v = materialise(s, v0);
    if (v.k == INT) return v.u;
    if (v.k == UNDEF) throw Ub{"uninitialised", "branch on an undefined value"};
    if (v.k == PTR || v.k == FN) return true;
    throw concretise(s, v);
}

// ---------------------------------------------------------------- memory
static Region& wr(State& s, uint32_t id)
{
    auto& r = s.mem[id];
    if (r.use_count() > 1) r = std::make_shared<Region>(*r);
    return *r;
}
static uint32_t new_region(State& s, u64 n, uint8_t kind, const char* name)
{
    if (n > (64u << 20)) throw Ub{"allocation", "allocation of " + std::to_string(n) + " bytes"};
    auto r = std::make_shared<Region>();
    r->b.resize(n); r->kind = kind; r->name = name;
    s.mem.push_back(r);
    return s.mem.size() - 1;
}
static const char* kindname(uint8_t k) { return k == 0 ? "global" : k == 1 ? "heap object" : k == 2 ? "local object" : "input"; }
static void access(State& s, const Val& p, u64 n, bool write)
{
    string what = write ? "write of " : "read of ";
    what += std::to_string(n) + " bytes ";
    if (p.k == INT) throw Ub{"null", what + "through " + (p.u ? "an invalid pointer" : "a null pointer")};
    if (p.k == UNDEF) throw Ub{"uninitialised", what + "through an undefined pointer"};
    if (p.k != PTR) broken("access through kind " + std::to_string(p.k));
    auto& r = *s.mem[p.id];
    if (!r.live) throw Ub{"lifetime", what + "of a dead " + kindname(r.kind)};
    if (p.u > r.b.size() || n > r.b.size() - p.u) {
        if (r.kind == 0 && r.b.empty()) broken(string("unknown global ") + r.name);
        throw Ub{"out-of-bounds", what + "at offset " + std::to_string((i64)p.u) + " of a " + kindname(r.kind) + " of " + std::to_string(r.b.size()) + " bytes"};
    }
    if (write && r.ro) throw Ub{"read-only", what + "to a constant"};
}
static Val load_scalar(State& s, const Val& p, unsigned w)
{
    unsigned n = (w + 7) / 8;
    access(s, p, n, false);
    Val v = from_bytes(s, s.mem[p.id]->b.data() + p.u, n, w % 8 ? n * 8 : w);
    if (w % 8) { if (v.k == UNDEF) { v.w = w; return v; } v = trunc_to(s, v, w); }
    return v;
}
static Val load(State& s, const Val& p, Type* t)
{
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        auto x = std::make_shared<Ext>();
        for (unsigned i = 0; i < st->getNumElements(); ++i) { Val q = p; q.u += sl->getElementOffset(i); x->agg.push_back(load(s, q, st->getElementType(i))); }
        Val v; v.k = AGG; v.x = x;
        return v;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        auto x = std::make_shared<Ext>();
        u64 es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); ++i) { Val q = p; q.u += i * es; x->agg.push_back(load(s, q, at->getElementType())); }
        Val v; v.k = AGG; v.x = x;
        return v;
    }
    return load_scalar(s, p, DL->getTypeSizeInBits(t));
}
static void store_bytes(State& s, const Val& p, const vector<Byte>& b)
{
    access(s, p, b.size(), true);
    auto& r = wr(s, p.id);
    std::copy(b.begin(), b.end(), r.b.begin() + p.u);
}
static void store(State& s, const Val& p, const Val& v, Type* t)
{
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) { Val q = p; q.u += sl->getElementOffset(i); store(s, q, v.k == AGG ? v.x->agg[i] : Val{}, st->getElementType(i)); }
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); ++i) { Val q = p; q.u += i * es; store(s, q, v.k == AGG ? v.x->agg[i] : Val{}, at->getElementType()); }
        return;
    }
    unsigned w = DL->getTypeSizeInBits(t), n = (w + 7) / 8;
    vector<Byte> b;
    to_bytes(s, v, n, b);
    store_bytes(s, p, b);
}

// ---------------------------------------------------------------- functions
static std::unordered_map<const Function*, std::unique_ptr<FnInfo>> fns;
static FnInfo* info(Function* f)
{
    auto& e = fns[f];
    if (e) return e.get();
    e.reset(new FnInfo);
    auto& F = *e;
    F.f = f;
    int n = 0;
    for (auto& a : f->args()) F.reg[&a] = n++;
    for (auto& b : *f) for (auto& i : b) if (!i.getType()->isVoidTy()) F.reg[&i] = n++;
    F.nregs = n;
    for (auto& b : *f) { int k = F.bidx.size(); F.bidx[&b] = k; }
    for (auto& b : *f) {
        vector<Inst> v;
        for (auto& i : b) {
            if (isa<DbgInfoIntrinsic>(i)) continue;
            Inst t;
            t.i = &i;
            t.dst = i.getType()->isVoidTy() ? -1 : F.reg[&i];
            for (auto& o : i.operands()) {
                Value* x = o.get();
                auto it = F.reg.find(x);
                if (it != F.reg.end()) t.ops.push_back(it->second);
                else if (auto* c = dyn_cast<Constant>(x)) {
                    auto pi = pool_ix.find(c);
                    if (pi == pool_ix.end()) { pool.push_back(cval(c)); pi = pool_ix.emplace(c, (int)pool.size() - 1).first; }
                    t.ops.push_back(~pi->second);
                } else t.ops.push_back(~0);
            }
            v.push_back(std::move(t));
        }
        F.blocks.push_back(std::move(v));
    }
    return e.get();
}
static const string& pretty(const Function* f)
{
    static std::unordered_map<const Function*, string> names;
    auto it = names.find(f);
    if (it == names.end()) it = names.emplace(f, demangle(f->getName().str())).first;
    return it->second;
}
static string where(const State& s)
{
    string first;
    for (size_t k = s.st.size(); k-- > 0;) {
        auto& f = s.st[k];
        auto& b = f.f->blocks[f.blk];
        int ip = std::min<int>(f.ip, b.size() - 1);
        if (ip < 0) continue;
        const DebugLoc& d = b[ip].i->getDebugLoc();
        if (!d) continue;
        for (const DILocation* l = d.get(); l; l = l->getInlinedAt()) {
            string fn = l->getFilename().str() + ":" + std::to_string(l->getLine());
            if (first.empty()) first = fn;
            if (fn.find("include/arg_router") != string::npos) return fn.substr(fn.find("include/arg_router")) + " in " + pretty(f.f->f).substr(0, 160);
        }
    }
    return first;
}

// ---------------------------------------------------------------- exceptions
static vector<string> bases_of(const string& ti)
{
    static const std::map<string, string> lib = {
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
        {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
        {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
        {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
    vector<string> r;
    auto it = lib.find(ti);
    if (it != lib.end()) { r.push_back(it->second); return r; }
    if (auto* g = M->getGlobalVariable(ti, true)) if (g->hasInitializer()) if (auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()))
        for (unsigned i = 2; i < cs->getNumOperands(); ++i) if (auto* b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) if (b->getName().starts_with("_ZTI")) r.push_back(b->getName().str());
    return r;
}
static bool derives(const string& d, const string& b)
{
    if (d == b) return true;
    for (auto& x : bases_of(d)) if (derives(x, b)) return true;
    return false;
}
static string exc_type(const Exc& e) { return e.ti ? e.ti->getName().str() : e.ext; }
static std::map<string, int> ti_ids;
static int ti_id(const string& n) { auto it = ti_ids.find(n); if (it == ti_ids.end()) it = ti_ids.emplace(n, (int)ti_ids.size() + 1).first; return it->second; }

static void emit_end(const State& s, const string& end, const string& detail);
struct Done {};

static void kill_frame(State& s)
{
    for (auto a : s.st.back().allocas) { wr(s, a).live = false; }
    s.st.pop_back();
}
static const CallBase* cur_call(const State& s)
{
    auto& f = s.st.back();
    return cast<CallBase>(f.f->blocks[f.blk][f.ip].i);
}
static Val& reg(State& s, int r) { return s.st.back().regs[r]; }
static const Val& opv(const State& s, const Inst& t, unsigned k)
{
    int r = t.ops[k];
    return r >= 0 ? s.st.back().regs[r] : pool[~r];
}
static bool jump(State& s, int to)
{
    auto& f = s.st.back();
    f.prev = f.blk;
    const BasicBlock* from = nullptr;
    f.blk = to;
    f.ip = 0;
    auto& b = f.f->blocks[to];
    if (b.empty() || !isa<PHINode>(b[0].i)) return true;
    vector<std::pair<int, Val>> upd;
    for (auto& t : b) {
        auto* ph = dyn_cast<PHINode>(t.i);
        if (!ph) break;
        bool found = false;
        for (unsigned k = 0; k < ph->getNumIncomingValues(); ++k)
            if (f.f->bidx[ph->getIncomingBlock(k)] == f.prev) { upd.push_back({t.dst, opv(s, t, k)}); found = true; break; }
        if (!found) broken("phi");
        ++f.ip;
    }
    for (auto& u : upd) f.regs[u.first] = u.second;
    (void)from;
    return true;
}
// unwinds s.cur; ends the path if nothing catches
static void unwind(State& s)
{
    while (!s.st.empty()) {
        auto& f = s.st.back();
        if (f.kind == 2) throw Broken{"summary-throw"};
        auto* c = dyn_cast<InvokeInst>(f.f->blocks[f.blk][f.ip].i);
        if (c) { jump(s, f.f->bidx[c->getUnwindDest()]); return; }
        kill_frame(s);
    }
    emit_end(s, "uncaught", exc_type(s.cur));
    throw Done{};
}
static void throw_lib(State& s, const string& ti)
{
    auto e = std::make_shared<Ev>();
    e->prev = s.tr; e->tag = "libthrow:" + ti + " at " + where(s);
    s.tr = e;
    s.cur = Exc{};
    s.cur.ext = ti;
    s.cur.obj = P(new_region(s, 64, 1, "exception"), 0);
    unwind(s);
}
static void finish_call(State& s, const Val& ret)
{
    auto& f = s.st.back();
    auto& t = f.f->blocks[f.blk][f.ip];
    if (t.dst >= 0) f.regs[t.dst] = ret;
    if (auto* inv = dyn_cast<InvokeInst>(t.i)) jump(s, f.f->bidx[inv->getNormalDest()]);
    else ++f.ip;
}
static void enter(State& s, Function* fn, const vector<Val>& args, const CallBase* c)
{
    if (s.st.size() > 4000) throw Ub{"recursion", "unbounded recursion"};
    seen_fns.insert(fn);
    Frame f;
    f.f = info(fn);
    f.regs.resize(f.f->nregs);
    for (size_t i = 0; i < args.size() && i < fn->arg_size(); ++i) {
        f.regs[i] = args[i];
        if (c && c->paramHasAttr(i, Attribute::ByVal)) {
            Type* t = c->getParamByValType(i);
            u64 n = DL->getTypeAllocSize(t);
            access(s, args[i], n, false);
            uint32_t r = new_region(s, n, 2, "byval");
            s.mem[r]->b.assign(s.mem[args[i].id]->b.begin() + args[i].u, s.mem[args[i].id]->b.begin() + args[i].u + n);
            f.allocas.push_back(r);
            f.regs[i] = P(r, 0);
        }
    }
    s.st.push_back(std::move(f));
    // entry block has no phis
}
static void log_ev(State& s, string tag, vector<Val> v)
{
    auto e = std::make_shared<Ev>();
    e->prev = s.tr; e->tag = std::move(tag); e->v = std::move(v);
    s.tr = e;
}
static string cstr(State& s, const Val& p)
{
    string r;
    for (u64 i = 0;; ++i) { Val q = p; q.u += i; Val b = load_scalar(s, q, 8); if (b.k != INT) broken("tag"); if (!b.u) return r; r.push_back(b.u); }
}

// external functions; returns false if unknown
static bool external(State& s, StringRef n, const vector<Val>& a, Val& ret, const CallBase* c)
{
    auto num = [&](unsigned i) { return need(s, a[i], "argument"); };
    unsigned rw = c->getType()->isIntegerTy() ? c->getType()->getIntegerBitWidth() : 64;
    if (n.starts_with("_Znw") || n.starts_with("_Zna") || n == "malloc") { u64 k = num(0); ret = P(new_region(s, k, 1, "heap"), 0); return true; }
    if (n.starts_with("_Zdl") || n.starts_with("_Zda") || n == "free") {
        if (a[0].k == INT && a[0].u == 0) return true;
        if (a[0].k != PTR) throw Ub{"free", "of something that is no object"};
        auto& r = *s.mem[a[0].id];
        if (!r.live || r.kind != 1 || a[0].u != 0) throw Ub{"free", string("of a ") + (r.live ? "" : "dead ") + kindname(r.kind)};
        auto& w = wr(s, a[0].id); w.live = false; w.b.clear(); w.b.shrink_to_fit();
        return true;
    }
    if (n == "memcmp" || n == "bcmp" || n == "strncmp" || n == "strcmp") {
        bool str = n[0] == 's';
        u64 k = n == "strcmp" ? 1 << 20 : num(2);
        for (u64 i = 0; i < k; ++i) {
            Val p = a[0], q = a[1];
            if (p.k == PTR) p.u += i;
            if (q.k == PTR) q.u += i;
            if (!str && i == 0) { access(s, p, k, false); access(s, q, k, false); }
            Val x = load_scalar(s, p, 8), y = load_scalar(s, q, 8);
            if (x.k == UNDEF || y.k == UNDEF) throw Ub{"uninitialised", "comparison of undefined bytes"};
            x = materialise(s, x); y = materialise(s, y);
            if (x.k == PW && y.k == PW && x.id == y.id && x.x->p.size() == y.x->p.size() && x.x->p.size() == 1 && x.x->p[0].v == y.x->p[0].v) continue;
            bool ne = truth(s, icmp(s, CmpInst::ICMP_NE, x, y, 8));
            if (ne) {
                Val lt = icmp(s, CmpInst::ICMP_ULT, x, y, 8);
                if (lt.k == INT) ret = I(lt.u ? -1 : 1, 32);
                else { vector<Piece> o; for (auto& t : lt.x->p) o.push_back({t.lo, t.hi, false, t.v ? 0xffffffffull : 1}); ret = mkpw(s, 32, lt.id, o); }
                return true;
            }
            if (str && x.k == INT && x.u == 0) break;
            if (str && x.k == PW && truth(s, icmp(s, CmpInst::ICMP_EQ, x, I(0, 8), 8))) break;
        }
        ret = I(0, 32);
        return true;
    }
    if (n == "strlen") {
        for (u64 i = 0;; ++i) {
            Val p = a[0];
            if (p.k == PTR) p.u += i;
            Val x = load_scalar(s, p, 8);
            if (x.k == UNDEF) throw Ub{"uninitialised", "strlen"};
            if (truth(s, icmp(s, CmpInst::ICMP_EQ, x, I(0, 8), 8))) { ret = I(i, 64); return true; }
        }
    }
    if (n == "memchr") {
        u64 k = num(2); u64 ch = num(1) & 0xff;
        for (u64 i = 0; i < k; ++i) {
            Val p = a[0];
            if (p.k == PTR) p.u += i;
            Val x = load_scalar(s, p, 8);
            if (truth(s, icmp(s, CmpInst::ICMP_EQ, x, I(ch, 8), 8))) { ret = p; return true; }
        }
        ret = I(0, 64);
        return true;
    }
    if (n == "memcpy" || n == "memmove") { 
        u64 k = num(2); ret = a[0];
        if (k) { access(s, a[1], k, false); vector<Byte> b(s.mem[a[1].id]->b.begin() + a[1].u, s.mem[a[1].id]->b.begin() + a[1].u + k); store_bytes(s, a[0], b); }
        return true;
    }
    if (n == "memset") { u64 k = num(2); vector<Byte> one; to_bytes(s, trunc_to(s, a[1], 8), 1, one); vector<Byte> b(k, one[0]); if (k) store_bytes(s, a[0], b); ret = a[0]; return true; }
    if (n == "__cxa_guard_acquire") { Val b = load_scalar(s, a[0], 8); ret = I(b.k == INT && b.u ? 0 : 1, rw); return true; }
    if (n == "__cxa_guard_release") { store(s, a[0], I(1, 8), Type::getInt8Ty(M->getContext())); return true; }
    if (n == "__cxa_guard_abort") return true;
    if (n == "__cxa_atexit" || n == "__cxa_thread_atexit" || n == "atexit") { ret = I(0, rw); return true; }
    if (n == "__cxa_allocate_exception") { ret = P(new_region(s, num(0), 1, "exception"), 0); return true; }
    if (n == "__cxa_free_exception") { wr(s, a[0].id).live = false; return true; }
    if (n == "__cxa_begin_catch") { s.caught.push_back(s.cur); ret = s.caught.back().obj; return true; }
    if (n == "__cxa_get_exception_ptr") { ret = a[0]; return true; }
    if (n == "ev_choice") {
        u64 k = num(0);
        // a choice of the harness is a symbol of its own, told apart at once
        if (s.choices < forced.size() && forced[s.choices] >= k) throw Done{};
        if (s.choices < forced.size()) { log_ev(s, "choice", {I(forced[s.choices], 32)}); ret = I(forced[s.choices++], rw); return true; }
        uint32_t sym = new_sym(s, {{0, k - 1}});
        if (k > 1) {
            // remember it in the frame, so that the partitions find it
            auto& f = s.st.back();
            if (f.summary == 0) { f.summary = sym + 1; throw concretise(s, sym_val(s, sym, 32)); }
            s.dom.pop_back();
            sym = f.summary - 1;
            f.summary = 0;
        }
        u64 v = dom(s, sym)[0].first;
        ++s.choices;
        log_ev(s, "choice", {I(v, 32)});
        ret = I(v, rw);
        return true;
    }
    if (n == "ev_sym") { uint32_t sym = new_sym(s, {{num(0), num(1)}}); log_ev(s, "sym", {I(sym, 32)}); ret = sym_val(s, sym, 64); return true; }
    if (n == "ev_bytes") {  // (p, n, lo, hi): input bytes
        u64 k = num(1), lo = num(2), hi = num(3);
        vector<Byte> b;
        vector<Val> ids;
        for (u64 i = 0; i < k; ++i) { uint32_t sym = new_sym(s, {{lo, hi}}); ids.push_back(I(sym, 32)); to_bytes(s, sym_val(s, sym, 8), 1, b); }
        store_bytes(s, a[0], b);
        log_ev(s, "bytes", ids);
        return true;
    }
    if (n == "ev_alloc") { ret = P(new_region(s, num(0), 3, "input"), 0); return true; }  // exact input buffer
    if (n == "ev_ro") { wr(s, a[0].id).ro = true; return true; }
    if (n == "ev_rw") { wr(s, a[0].id).ro = false; return true; }
    if (n == "ev_log") { vector<Val> v; for (size_t i = 1; i < a.size(); ++i) v.push_back(nrm(s, a[i])); log_ev(s, cstr(s, a[0]), v); return true; }
    if (n == "ev_str") {  // (tag, p, n)
        vector<Val> v;
        u64 k = num(2);
        for (u64 i = 0; i < k; ++i) { Val p = a[1]; if (p.k == PTR) p.u += i; v.push_back(nrm(s, load_scalar(s, p, 8))); }
        log_ev(s, cstr(s, a[0]) + "$", v);
        return true;
    }
    if (n == "_ZNSt9exceptionD2Ev" || n == "_ZNSt9exceptionD1Ev") return true;
    if (n == "ev_end") { emit_end(s, "end", ""); throw Done{}; }
    if (n == "ev_assume") { if (!truth(s, a[0])) throw Done{}; return true; }
    if (n == "abort" || n == "_ZSt9terminatev") { emit_end(s, "terminate", where(s)); throw Done{}; }
    if (n == "__assert_fail" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") throw Ub{"assertion", "a library assertion fails"};
    if (n == "__errno_location") { static uint32_t dummy = 0; (void)dummy; ret = P(new_region(s, 4, 1, "errno"), 0); store(s, ret, I(0, 32), Type::getInt32Ty(M->getContext())); return true; }
    return false;
}
static const std::map<string, string> lib_throws = {
    {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"},
    {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"},
    {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"},
    {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"}, {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"},
    {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}, {"_ZSt27__throw_bad_optional_accessv", "_ZTISt19bad_optional_access"},
    {"_ZSt26__throw_bad_variant_accessPKc", "_ZTISt18bad_variant_access"}, {"_ZSt26__throw_bad_variant_accessb", "_ZTISt18bad_variant_access"}};

static Val gep(State& s, const Inst& t)
{
    auto* g = cast<GetElementPtrInst>(t.i);
    Val b = opv(s, t, 0);
    i64 off = 0;
    Val symoff;
    bool has = false;
    unsigned k = 1;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++k) {
        if (StructType* st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(g->getOperand(k))->getZExtValue()); continue; }
        u64 es = DL->getTypeAllocSize(it.getIndexedType());
        Val ix = opv(s, t, k);
        if (ix.k == UNDEF) throw Ub{"uninitialised", "index"};
        unsigned w = g->getOperand(k)->getType()->getIntegerBitWidth();
        u64 v = need(s, ix, "index");
        off += sx(v, w) * (i64)es;
    }
    (void)symoff; (void)has;
    if (b.k == PTR) { b.u += off; return b; }
    if (b.k == INT) return I(b.u + off, 64);
    if (b.k == UNDEF) return b;
    if (b.k == FN && off == 0) return b;
    broken("gep on kind " + std::to_string(b.k));
}

static bool same_val(const Val& a, const Val& b);
static bool same_bytes(const Byte& a, const Byte& b) { return a.k == b.k && a.c == b.c && a.idx == b.idx && (a.v == b.v || (a.v && b.v && same_val(*a.v, *b.v))); }
static bool same_val(const Val& a, const Val& b)
{
    if (a.k != b.k || a.w != b.w || a.id != b.id || a.u != b.u) return false;
    if (a.x == b.x) return true;
    if (!a.x || !b.x) return false;
    auto &x = *a.x, &y = *b.x;
    if (x.p.size() != y.p.size() || x.bits.size() != y.bits.size() || x.bytes.size() != y.bytes.size() || x.agg.size() != y.agg.size()) return false;
    for (size_t i = 0; i < x.p.size(); ++i) if (memcmp(&x.p[i], &y.p[i], sizeof(Piece))) { auto &p = x.p[i], &q = y.p[i]; if (p.lo != q.lo || p.hi != q.hi || p.aff != q.aff || p.v != q.v) return false; }
    for (size_t i = 0; i < x.bits.size(); ++i) if (x.bits[i].sym != y.bits[i].sym || x.bits[i].k != y.bits[i].k || x.bits[i].b != y.bits[i].b) return false;
    for (size_t i = 0; i < x.bytes.size(); ++i) if (!same_bytes(x.bytes[i], y.bytes[i])) return false;
    for (size_t i = 0; i < x.agg.size(); ++i) if (!same_val(x.agg[i], y.agg[i])) return false;
    return true;
}

static void run_state(vector<State>& work, vector<State>* returned);
static std::set<const Function*> no_summary;
static u64 n_summaries;
static std::set<string> sum_fns;
// A call of a scalar function of one symbol: analyse its partitions, and join them to one piecewise value.
static bool summarise(State& s, Function* fn, const vector<Val>& args, const CallBase* c, Val& ret)
{
    if (no_summary.count(fn) || !fn->getReturnType()->isIntegerTy() || fn->getReturnType()->getIntegerBitWidth() > 64) return false;
    uint32_t sym = ~0u;
    for (auto& v : args) {
        if (v.k == PW) { if (sym != ~0u && sym != v.id) return false; sym = v.id; }
        else if (v.k != INT && v.k != PTR && v.k != FN) return false;
    }
    if (sym == ~0u) return false;
    State q = s;
    Frame root;
    root = q.st.back();
    enter(q, fn, args, c);
    q.st.back().kind = 2;
    vector<State> work, done;
    work.push_back(std::move(q));
    try {
        run_state(work, &done);
    } catch (Broken&) { no_summary.insert(fn); return false; } catch (Ub&) { no_summary.insert(fn); return false; } catch (Done&) { no_summary.insert(fn); return false; }
    vector<Piece> out;
    for (auto& d : done) {
        bool ok = d.dom.size() == s.dom.size() && d.tr == s.tr && d.caught.size() == s.caught.size();
        for (size_t i = 0; ok && i < s.dom.size(); ++i) if (i != sym && d.dom[i] != s.dom[i]) ok = false;
        for (size_t i = 0; ok && i < s.mem.size(); ++i) if (d.mem[i] != s.mem[i]) ok = false;
        for (size_t i = s.mem.size(); ok && i < d.mem.size(); ++i) if (d.mem[i]->live) ok = false;
        const Val& r = d.cur.obj;  // the returned value
        if (ok && r.k == INT) for (auto& p : dom(d, sym)) out.push_back({p.first, p.second, false, r.u});
        else if (ok && r.k == PW && r.id == sym) { Val t = nrm(d, r); for (auto& p : dom(d, sym)) { if (t.k == INT) { out.push_back({p.first, p.second, false, t.u}); continue; } for (auto& x : t.x->p) { u64 lo = std::max(x.lo, p.first), hi = std::min(x.hi, p.second); if (lo <= hi) out.push_back({lo, hi, x.aff, x.v}); } } }
        else ok = false;
        if (!ok) { no_summary.insert(fn); return false; }
    }
    if (done.empty()) { no_summary.insert(fn); return false; }
    std::sort(out.begin(), out.end(), [](auto& x, auto& y) { return x.lo < y.lo; });
    ret = mkpw(s, fn->getReturnType()->getIntegerBitWidth(), sym, out);
    ++n_summaries;
    sum_fns.insert(pretty(fn).substr(0, 120));
    n_joined += done.size() - 1;
    return true;
}

static void do_call(State& s, const Inst& t)
{
    auto* c = cast<CallBase>(t.i);
    Val cal;
    if (auto* f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) { cal.k = FN; cal.u = (u64)f; }
    else cal = t.ops.back() >= 0 ? s.st.back().regs[t.ops.back()] : pool[~t.ops.back()];
    if (auto* inv = dyn_cast<InvokeInst>(c)) {  // operands: args, normal, unwind, callee
        if (!dyn_cast<Function>(inv->getCalledOperand()->stripPointerCasts())) cal = opv(s, t, t.ops.size() - 1);
    }
    if (cal.k == INT && cal.u == 0) throw Ub{"null", "call through a null pointer"};
    if (cal.k == UNDEF) throw Ub{"uninitialised", "call through an undefined pointer"};
    if (cal.k != FN) broken("call through kind " + std::to_string(cal.k));
    auto* fn = (Function*)cal.u;
    StringRef n = fn->getName();
    vector<Val> a;
    for (unsigned i = 0; i < c->arg_size(); ++i) a.push_back(opv(s, t, i));
    if (fn->isIntrinsic()) {
        unsigned w = t.i->getType()->isIntegerTy() ? t.i->getType()->getIntegerBitWidth() : 64;
        Val r;
        auto choose = [&](unsigned pr) { Val cnd = icmp(s, pr, a[0], a[1], w); return truth(s, cnd) ? a[0] : a[1]; };
        switch (fn->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: external(s, "memcpy", a, r, c); break;
        case Intrinsic::memset: external(s, "memset", a, r, c); break;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: break;
        case Intrinsic::stacksave: r = I(0, 64); break;
        case Intrinsic::expect: r = a[0]; break;
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: r = a[0]; break;
        case Intrinsic::umin: r = choose(CmpInst::ICMP_ULT); break;
        case Intrinsic::umax: r = choose(CmpInst::ICMP_UGT); break;
        case Intrinsic::smin: r = choose(CmpInst::ICMP_SLT); break;
        case Intrinsic::smax: r = choose(CmpInst::ICMP_SGT); break;
        case Intrinsic::abs: r = truth(s, icmp(s, CmpInst::ICMP_SLT, a[0], I(0, w), w)) ? binop(s, Instruction::Sub, I(0, w), a[0], w) : a[0]; break;
        case Intrinsic::is_constant: r = I(0, 1); break;
        case Intrinsic::objectsize: r = I(~0ull, w); break;
        case Intrinsic::ctpop: r = I(__builtin_popcountll(need(s, a[0], "ctpop")), w); break;
        case Intrinsic::ctlz: { u64 v = need(s, a[0], "ctlz"); r = I(v ? __builtin_clzll(v) - (64 - w) : w, w); break; }
        case Intrinsic::cttz: { u64 v = need(s, a[0], "cttz"); r = I(v ? __builtin_ctzll(v) : w, w); break; }
        case Intrinsic::fshl: { u64 x = need(s, a[0], "fshl"), y = need(s, a[1], "fshl"), z = need(s, a[2], "fshl") % w; r = I(z ? (x << z) | (y >> (w - z)) : x, w); break; }
        case Intrinsic::fshr: { u64 x = need(s, a[0], "fshr"), y = need(s, a[1], "fshr"), z = need(s, a[2], "fshr") % w; r = I(z ? (x << (w - z)) | (y >> z) : y, w); break; }
        case Intrinsic::usub_sat: r = truth(s, icmp(s, CmpInst::ICMP_UGE, a[0], a[1], w)) ? binop(s, Instruction::Sub, a[0], a[1], w) : I(0, w); break;
        case Intrinsic::eh_typeid_for: {
            auto* ti = cast<Constant>(c->getArgOperand(0)->stripPointerCasts());
            r = I(ti_id(ti->getName().str()), 32);
            break;
        }
        case Intrinsic::trap: case Intrinsic::ubsantrap: throw Ub{"trap", ""};
        case Intrinsic::uadd_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
            unsigned bw = cast<StructType>(t.i->getType())->getElementType(0)->getIntegerBitWidth();
            Val x = nrm(s, a[0]), y = nrm(s, a[1]);
            unsigned op = fn->getIntrinsicID() == Intrinsic::uadd_with_overflow || fn->getIntrinsicID() == Intrinsic::sadd_with_overflow ? Instruction::Add : fn->getIntrinsicID() == Intrinsic::umul_with_overflow || fn->getIntrinsicID() == Intrinsic::smul_with_overflow ? Instruction::Mul : Instruction::Sub;
            bool sg = fn->getIntrinsicID() == Intrinsic::sadd_with_overflow || fn->getIntrinsicID() == Intrinsic::smul_with_overflow || fn->getIntrinsicID() == Intrinsic::ssub_with_overflow;
            auto full = [&](u64 p, u64 q) -> bool {  // overflows?
                __int128 A = sg ? (__int128)sx(p, bw) : (__int128)p, B = sg ? (__int128)sx(q, bw) : (__int128)q;
                __int128 R = op == Instruction::Add ? A + B : op == Instruction::Sub ? A - B : A * B;
                if (sg) return R < -((__int128)1 << (bw - 1)) || R >= ((__int128)1 << (bw - 1));
                return R < 0 || R >= ((__int128)1 << bw);
            };
            u64 p = need(s, x, "overflow"), q = need(s, y, "overflow");
            auto e = std::make_shared<Ext>();
            e->agg = {I(arith(op, p, q, bw), bw), I(full(p, q), 1)};
            r.k = AGG; r.x = e;
            break;
        }
        default: broken("intrinsic " + n.str());
        }
        finish_call(s, r);
        return;
    }
    {   // a function of the standard library that the harness describes itself
        static std::unordered_map<const Function*, Function*> stubs;
        auto it = stubs.find(fn);
        if (it == stubs.end()) it = stubs.emplace(fn, M->getFunction("stub." + fn->getName().str())).first;
        if (it->second) { seen_calls.insert(t.i); enter(s, it->second, a, nullptr); return; }
    }
    if (!fn->isDeclaration()) {
        for (auto& cut : cuts) if (pretty(fn).find(cut) != string::npos) { emit_end(s, "cut", cut); throw Done{}; }
        Val r;
        if (summarise(s, fn, a, c, r)) { seen_calls.insert(t.i); finish_call(s, r); return; }
        seen_calls.insert(t.i);
        enter(s, fn, a, c);
        return;
    }
    Val r;
    r.w = 64;
    if (n == "__cxa_throw") {
        s.cur = Exc{};
        s.cur.obj = a[0];
        auto* ti = dyn_cast<GlobalVariable>(c->getArgOperand(1)->stripPointerCasts());
        if (!ti) broken("thrown type");
        s.cur.dtor = dyn_cast<Function>(c->getArgOperand(2)->stripPointerCasts());
        if (ti->isDeclaration()) s.cur.ext = ti->getName().str(); else s.cur.ti = ti;
        log_ev(s, "throw:" + ti->getName().str() + " at " + where(s), {});
        return unwind(s);
    }
    if (n == "__cxa_rethrow") { if (s.caught.empty()) throw Ub{"rethrow", "without exception"}; s.caught.back().rethrown = true; s.cur = s.caught.back(); s.cur.rethrown = false; return unwind(s); }
    auto lt = lib_throws.find(n.str());
    if (lt != lib_throws.end()) return throw_lib(s, lt->second);
    if (n == "__clang_call_terminate") { emit_end(s, "terminate", where(s)); throw Done{}; }
    if (n == "__cxa_end_catch") {
        if (s.caught.empty()) broken("end_catch");
        Exc e = s.caught.back();
        s.caught.pop_back();
        finish_call(s, r);
        if (e.rethrown || e.obj.k != PTR) return;
        if (e.dtor && !e.dtor->isDeclaration()) { enter(s, e.dtor, {e.obj}, nullptr); s.st.back().kind = 4; }
        return;
    }
    if (!external(s, n, a, r, c)) broken("unknown function " + demangle(n.str()));
    finish_call(s, r);
}

static void step(State& s)
{
    auto& f = s.st.back();
    const Inst& t = f.f->blocks[f.blk][f.ip];
    Instruction* i = t.i;
    unsigned w = i->getType()->isIntegerTy() ? i->getType()->getIntegerBitWidth() : 64;
    auto set = [&](Val v) { auto& g = s.st.back(); g.regs[t.dst] = std::move(v); ++g.ip; };
    switch (i->getOpcode()) {
    case Instruction::Alloca: {
        auto* a = cast<AllocaInst>(i);
        u64 n = DL->getTypeAllocSize(a->getAllocatedType()) * need(s, opv(s, t, 0), "alloca");
        // one region per execution
        uint32_t r = new_region(s, n, 2, "local");
        s.st.back().allocas.push_back(r);
        return set(P(r, 0));
    }
    case Instruction::Load: return set(load(s, opv(s, t, 0), i->getType()));
    case Instruction::Store: store(s, opv(s, t, 1), nrm(s, opv(s, t, 0)), i->getOperand(0)->getType()); ++s.st.back().ip; return;
    case Instruction::GetElementPtr: return set(gep(s, t));
    case Instruction::Br: {
        auto* b = cast<BranchInst>(i);
        if (b->isUnconditional()) { jump(s, f.f->bidx[b->getSuccessor(0)]); return; }
        bool c = truth(s, opv(s, t, 0));
        jump(s, s.st.back().f->bidx[b->getSuccessor(c ? 0 : 1)]);
        return;
    }
    case Instruction::Switch: {
        auto* b = cast<SwitchInst>(i);
        u64 v;
        Val c = materialise(s, opv(s, t, 0));
        if (c.k == PW) {  // one partition per case
            unsigned cw = b->getCondition()->getType()->getIntegerBitWidth();
            std::map<const BasicBlock*, vector<u64>> by;
            for (auto& cs : b->cases()) {
                Val e = icmp(s, CmpInst::ICMP_EQ, c, I(cs.getCaseValue()->getZExtValue(), cw), cw);
                if (e.k == INT && e.u) { jump(s, s.st.back().f->bidx[cs.getCaseSuccessor()]); return; }
                if (e.k == PW) throw concretise(s, e);
            }
            jump(s, s.st.back().f->bidx[b->getDefaultDest()]);
            return;
        }
        v = need(s, c, "switch");
        for (auto& cs : b->cases()) if (cs.getCaseValue()->getZExtValue() == v) { jump(s, f.f->bidx[cs.getCaseSuccessor()]); return; }
        jump(s, f.f->bidx[b->getDefaultDest()]);
        return;
    }
    case Instruction::Ret: {
        Val r;
        if (i->getNumOperands()) r = nrm(s, opv(s, t, 0));
        if (f.kind == 2) { s.cur.obj = r; s.st.back().kind = 3; for (auto a : f.allocas) wr(s, a).live = false; return; }
        bool after = f.kind == 4;  // runs between two instructions of the caller
        kill_frame(s);
        if (s.st.empty()) { emit_end(s, "return", ""); throw Done{}; }
        if (after) return;
        finish_call(s, r);
        return;
    }
    case Instruction::Call: case Instruction::Invoke: return do_call(s, t);
    case Instruction::ICmp: {
        Type* ot = i->getOperand(0)->getType();
        return set(icmp(s, cast<ICmpInst>(i)->getPredicate(), opv(s, t, 0), opv(s, t, 1), ot->isIntegerTy() ? ot->getIntegerBitWidth() : 64));
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl:
    case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        return set(binop(s, i->getOpcode(), opv(s, t, 0), opv(s, t, 1), w));
    case Instruction::ZExt: {
        Val v = nrm(s, opv(s, t, 0));
        unsigned sw = i->getOperand(0)->getType()->getIntegerBitWidth();
        if ((v.k == BYTES || v.k == UNDEF) && sw % 8 == 0) { vector<Byte> b; to_bytes(s, v, sw / 8, b); Byte z; z.k = 1; b.resize(w / 8, z); return set(from_bytes(s, b.data(), b.size(), w)); }
        if (v.k == BITS) { auto b = v.x->bits; b.resize(w, Bit{0, 0, 0}); return set(from_bits(b)); }
        if (v.k == INT) return set(I(v.u, w));
        v.w = w;
        return set(v);
    }
    case Instruction::SExt: {
        Val v = nrm(s, opv(s, t, 0));
        unsigned sw = i->getOperand(0)->getType()->getIntegerBitWidth();
        if (v.k == INT) return set(I((u64)sx(v.u, sw), w));
        if (v.k == UNDEF) { v.w = w; return set(v); }
        if (v.k != PW) v = materialise(s, v);
        if (v.k == INT) return set(I((u64)sx(v.u, sw), w));
        vector<Piece> out;
        for (auto& p : v.x->p) {
            if (!p.aff) { out.push_back({p.lo, p.hi, false, (u64)sx(p.v, sw) & mask(w)}); continue; }
            u64 sb = mask(sw) >> 1, a = p.lo + p.v, b = p.hi + p.v, add = (mask(w) & ~mask(sw));
            if (b <= sb) out.push_back(p);
            else if (a > sb) add_aff(out, p.lo, p.hi, p.v + add, w);
            else { u64 m = sb - p.v; out.push_back({p.lo, m, true, p.v}); add_aff(out, m + 1, p.hi, p.v + add, w); }
        }
        return set(mkpw(s, w, v.id, out));
    }
    case Instruction::Trunc: return set(trunc_to(s, opv(s, t, 0), w));
    case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::Freeze: return set(opv(s, t, 0));
    case Instruction::Select: {
        Val c = materialise(s, opv(s, t, 0)), a = nrm(s, opv(s, t, 1)), b = nrm(s, opv(s, t, 2));
        if (c.k == PW && (a.k == INT || (a.k == PW && a.id == c.id)) && (b.k == INT || (b.k == PW && b.id == c.id))) {
            vector<Piece> out;
            for (auto& r : dom(s, c.id)) for (auto& p : c.x->p) {
                u64 lo = std::max(r.first, p.lo), hi = std::min(r.second, p.hi);
                if (lo > hi) continue;
                const Val& x = p.v ? a : b;
                if (x.k == INT) { out.push_back({lo, hi, false, x.u}); continue; }
                for (auto& q : x.x->p) { u64 l = std::max(lo, q.lo), h = std::min(hi, q.hi); if (l <= h) out.push_back({l, h, q.aff, q.v}); }
            }
            std::sort(out.begin(), out.end(), [](auto& x, auto& y) { return x.lo < y.lo; });
            return set(mkpw(s, std::max(a.w, b.w), c.id, out));
        }
        return set(truth(s, c) ? opv(s, t, 1) : opv(s, t, 2));
    }
    case Instruction::ExtractValue: {
        Val v = opv(s, t, 0);
        for (unsigned ix : cast<ExtractValueInst>(i)->indices()) { if (v.k == UNDEF) break; if (v.k != AGG) broken("extractvalue"); Val n = v.x->agg[ix]; v = n; }
        return set(v);
    }
    case Instruction::InsertValue: {
        auto* iv = cast<InsertValueInst>(i);
        std::function<Val(Val, Type*, unsigned)> ins = [&](Val v, Type* ty, unsigned d) -> Val {
            if (d == iv->getNumIndices()) return opv(s, t, 1);
            auto x = std::make_shared<Ext>();
            unsigned n = isa<StructType>(ty) ? cast<StructType>(ty)->getNumElements() : cast<ArrayType>(ty)->getNumElements();
            if (v.k == AGG) x->agg = v.x->agg; else x->agg.resize(n);
            unsigned ix = iv->getIndices()[d];
            x->agg[ix] = ins(x->agg[ix], isa<StructType>(ty) ? cast<StructType>(ty)->getElementType(ix) : cast<ArrayType>(ty)->getElementType(), d + 1);
            Val r; r.k = AGG; r.x = x;
            return r;
        };
        return set(ins(opv(s, t, 0), i->getType(), 0));
    }
    case Instruction::LandingPad: {
        auto* lp = cast<LandingPadInst>(i);
        string et = exc_type(s.cur);
        int sel = 0;
        bool hit = lp->isCleanup();
        for (unsigned k = 0; k < lp->getNumClauses(); ++k) {
            if (!lp->isCatch(k)) { broken("filter clause"); }
            auto* cl = lp->getClause(k);
            if (isa<ConstantPointerNull>(cl)) { sel = 9999; hit = true; break; }
            string ct = cl->stripPointerCasts()->getName().str();
            if (derives(et, ct)) { sel = ti_id(ct); hit = true; break; }
        }
        if (!hit) {  // goes on unwinding
            kill_frame(s);
            return unwind(s);
        }
        auto x = std::make_shared<Ext>();
        x->agg = {s.cur.obj, I(sel, 32)};
        Val v; v.k = AGG; v.x = x;
        return set(v);
    }
    case Instruction::Resume: kill_frame(s); return unwind(s);
    case Instruction::Unreachable: throw Ub{"unreachable", "control reaches a point that must not be reached"};
    case Instruction::Fence: ++f.ip; return;
    case Instruction::AtomicRMW: {
        auto* a = cast<AtomicRMWInst>(i);
        Val p = opv(s, t, 0), o = load(s, p, i->getType());
        unsigned op = a->getOperation() == AtomicRMWInst::Add ? Instruction::Add : a->getOperation() == AtomicRMWInst::Sub ? Instruction::Sub : 0;
        if (!op) broken("atomic");
        store(s, p, binop(s, op, o, opv(s, t, 1), w), i->getType());
        return set(o);
    }
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FMul: case Instruction::FDiv: case Instruction::FAdd: case Instruction::FSub: case Instruction::FCmp: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc:
        broken("floating point arithmetic");
    default: broken(string("instruction ") + i->getOpcodeName());
    }
}

// ---------------------------------------------------------------- results
static string js(const string& s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static string jv(const State& s, const Val& v0)
{
    Val v = nrm(s, v0);
    switch (v.k) {
    case INT: return std::to_string(v.u);
    case UNDEF: return "\"undef\"";
    case PTR: return "\"ptr\"";
    case FN: return js("fn:" + ((Function*)v.u)->getName().str());
    case PW: {
        string r = "{\"s\":" + std::to_string(v.id) + ",\"p\":[";
        bool c = false;
        if (v.x->p.size() == 1 && v.x->p[0].aff && v.x->p[0].v == 0) return "{\"s\":" + std::to_string(v.id) + "}";
        for (auto& p : v.x->p) { r += string(c ? "," : "") + "[" + std::to_string(p.lo) + "," + std::to_string(p.hi) + "," + std::to_string(p.aff) + "," + std::to_string((i64)p.v) + "]"; c = true; }
        return r + "]}";
    }
    case BITS: {
        string r = "{\"b\":[";
        bool c = false;
        for (auto& b : v.x->bits) { r += string(c ? "," : "") + (b.k == 2 ? "[" + std::to_string(b.sym) + "," + std::to_string(b.b) + "]" : std::to_string(b.k)); c = true; }
        return r + "]}";
    }
    case BYTES: {
        vector<Bit> b;
        try { if (as_bits(s, v, b)) return jv(s, from_bits(b)); } catch (Ub&) {}
        return "\"bytes\"";
    }
    default: return "\"agg\"";
    }
}
static void emit_end(const State& s, const string& end, const string& detail)
{
    ++n_paths;
    if (n_paths > max_paths) broken("too many partitions");
    string o = "{\"end\":" + js(end) + ",\"detail\":" + js(detail) + ",\"trace\":[";
    vector<const Ev*> t;
    for (auto* e = s.tr.get(); e; e = e->prev.get()) t.push_back(e);
    bool c = false;
    for (size_t i = t.size(); i-- > 0;) {
        o += string(c ? "," : "") + "[" + js(t[i]->tag);
        for (auto& v : t[i]->v) o += "," + jv(s, v);
        o += "]";
        c = true;
    }
    o += "],\"dom\":[";
    for (size_t i = 0; i < s.dom.size(); ++i) {
        o += i ? ",[" : "[";
        bool d = false;
        for (auto& p : *s.dom[i]) { o += string(d ? "," : "") + "[" + std::to_string(p.first) + "," + std::to_string(p.second) + "]"; d = true; }
        o += "]";
    }
    // heap objects that are still alive
    u64 leak = 0;
    for (size_t i = ginit.size(); i < s.mem.size(); ++i) if (s.mem[i]->live && s.mem[i]->kind == 1 && strcmp(s.mem[i]->name, "heap") == 0) ++leak;
    o += "],\"leak\":" + std::to_string(leak) + ",\"steps\":" + std::to_string(s.steps) + "}\n";
    fwrite(o.data(), 1, o.size(), stdout);
}

static void run_state(vector<State>& work, vector<State>* returned)
{
    while (!work.empty()) {
        State s = std::move(work.back());
        work.pop_back();
        try {
            for (;;) {
                if ((++n_steps & 0xfffff) == 0) {
                    if (n_steps > max_steps) broken("step limit");
                    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget_s) broken("time limit");
                }
                if (++s.steps > 30000000) throw Ub{"divergence", "no end in sight"};
                if (s.st.back().kind == 3) { s.st.pop_back(); returned->push_back(std::move(s)); break; }
                step(s);
            }
        } catch (ForkReq& f) {
            ++n_forks;
            if (f.parts.empty()) broken("empty partition");
            // the partitions that come first in order are explored first
            for (size_t k = f.parts.size(); k-- > 0;) {
                State q = k ? s : std::move(s);
                q.dom[f.sym] = std::make_shared<const Dom>(f.parts[k]);
                work.push_back(std::move(q));
            }
        } catch (Done&) {
            if (returned) throw;  // inside a function that is being summarised
        } catch (Ub& u) {
            if (returned) throw;
            emit_end(s, "ub:" + u.kind, u.msg + " at " + where(s));
        } catch (Broken& b) {
            if (returned) throw;
            throw Broken{b.msg + " at " + where(s)};
        }
    }
}

int main(int argc, char** argv)
{
    t0 = std::chrono::steady_clock::now();
    vector<string> pos;
    for (int i = 1; i < argc; ++i) {
        string a = argv[i];
        if (a.rfind("--cut=", 0) == 0) cuts.push_back(a.substr(6));
        else if (a.rfind("--choices=", 0) == 0) {
            prefixes.emplace_back();
            for (size_t p = 10; p < a.size();) {
                size_t q = a.find_first_of(",;", p);
                if (q == string::npos) q = a.size();
                prefixes.back().push_back(std::stoull(a.substr(p, q - p)));
                if (q < a.size() && a[q] == ';') prefixes.emplace_back();
                p = q + 1;
            }
        }
        else if (a.rfind("--steps=", 0) == 0) max_steps = std::stoull(a.substr(8));
        else if (a.rfind("--seconds=", 0) == 0) budget_s = std::stod(a.substr(10));
        else pos.push_back(a);
    }
    if (pos.size() != 2) { fprintf(stderr, "usage: absint FILE.bc ENTRY\n"); return 2; }
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(pos[0], err, ctx);
    if (!m) { err.print("absint", errs()); return 2; }
    M = m.get();
    DL = &M->getDataLayout();
    try {
        for (auto& g : M->globals()) { greg[&g] = gval.size(); gval.push_back(&g); }
        for (auto* gv : gval) {
            auto* g = cast<GlobalVariable>(gv);
            auto r = std::make_shared<Region>();
            string* nm = new string(g->getName().str());
            r->name = nm->c_str();
            ginit.push_back(r);
            if (g->hasInitializer()) r->b.resize(DL->getTypeAllocSize(g->getValueType()));
        }
        State s;
        s.mem = ginit;
        pool.reserve(1 << 20);
        pool.push_back(Val{});
        for (auto* gv : gval) {
            auto* g = cast<GlobalVariable>(gv);
            if (!g->hasInitializer() || g->getName().starts_with("llvm.")) continue;
            auto& r = *s.mem[greg[g]];
            put_const(r.b, 0, g->getInitializer());
            r.ro = g->isConstant();
        }
        auto* fn = M->getFunction(pos[1]);
        if (!fn || fn->isDeclaration()) broken("no entry " + pos[1]);
        vector<State> work;
        // dynamic initialisers first
        vector<Function*> ctors;
        if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& o : ca->operands()) ctors.push_back(cast<Function>(cast<ConstantStruct>(o)->getOperand(1)));
        for (auto* c : ctors) {
            State q = s;
            enter(q, c, {}, nullptr);
            q.st.back().kind = 2;
            vector<State> w, d;
            w.push_back(std::move(q));
            run_state(w, &d);
            if (d.size() != 1) broken("initialiser");
            s = std::move(d[0]);
        }
        enter(s, fn, {}, nullptr);
        if (prefixes.empty()) prefixes.emplace_back();
        for (auto& p : prefixes) {
            forced = p;
            work.clear();
            work.push_back(s);
            try {
                run_state(work, nullptr);
            } catch (Broken& b) {
                string c;
                for (u64 x : p) c += (c.empty() ? "" : ",") + std::to_string(x);
                printf("{\"undecided\":%s}\n", js(b.msg + " (choices " + c + ")").c_str());
                if (b.msg.rfind("time limit", 0) == 0 || b.msg.rfind("step limit", 0) == 0) break;
            }
        }
    } catch (Broken& b) {
        printf("{\"broken\":%s}\n", js(b.msg).c_str());
        return 3;
    } catch (Ub& u) {
        printf("{\"broken\":%s}\n", js("initialiser: " + u.msg).c_str());
        return 3;
    }
    vector<string> fl;
    for (auto* f : seen_fns) { string d = pretty(f); if (d.find("arg_router") != string::npos) fl.push_back(d); }
    printf("{\"stats\":{\"steps\":%llu,\"partitions\":%llu,\"ends\":%llu,\"summaries\":%llu,\"joined\":%llu,\"functions\":%zu,\"library_functions\":%zu,\"call_sites\":%zu,\"seconds\":%.1f}}\n", (unsigned long long)n_steps, (unsigned long long)n_forks, (unsigned long long)n_paths,
           (unsigned long long)n_summaries, (unsigned long long)n_joined, seen_fns.size(), fl.size(), seen_calls.size(), std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
    return 0;
}
