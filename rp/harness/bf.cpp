// Harness for C11: random histories of operations of the BF layer against truth tables, with garbage collections,
// variable reorderings, copies, moves, assignments and destructions in between.  usage: bf <seed> <number of histories>
#include "BF.h"
#include <cuddInt.h>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <cmath>
typedef std::vector<bool> Tab;
static std::mt19937_64 R;
static unsigned rnd(unsigned n) { return R() % n; }
static std::string trace;
static void log(const char *fmt, int a = 0, int b = 0, int c = 0) { char buf[200]; snprintf(buf, sizeof buf, fmt, a, b, c); trace += buf; trace += ";"; }
struct Slot { BF *bf; Tab t; };
static unsigned n, N;
static Tab quant(const Tab &t, const std::vector<int> &q, bool ex) {
    Tab r = t;
    for (int k : q) { Tab s(N); for (unsigned i = 0; i < N; i++) { bool a = r[i & ~(1u << k)], b = r[i | (1u << k)]; s[i] = ex ? (a || b) : (a && b); } r = s; }
    return r;
}
static bool eval(DdManager *mgr, DdNode *f, unsigned i, const std::vector<int> &index) {
    std::vector<int> in(mgr->size, 0); for (unsigned k = 0; k < n; k++) in[index[k]] = (i >> k) & 1;
    return Cudd_Eval(mgr, f, in.data()) == Cudd_ReadOne(mgr);
}
static int fails(const char *what) { printf("FAIL %s; history: %s\n", what, trace.size() > 3000 ? trace.substr(trace.size() - 3000).c_str() : trace.c_str()); return 0; }
static int history(long &nontrivial) {
    trace.clear(); n = 2 + rnd(6); N = 1u << n;
    BFManager *m = new BFManager(64 + rnd(64), 1.2f); DdManager *mgr = m->getMgr();
    m->setAutomaticOptimisation(rnd(2)); if (rnd(2)) Cudd_SetNextReordering(mgr, 14 + rnd(60));
    const char *err = 0; int reord = 0;
    {
        std::vector<BF> v; std::vector<int> index; for (unsigned i = 0; i < n; i++) { v.push_back(m->newVariable()); index.push_back(v[i].readNodeIndex()); }
        std::vector<Tab> vt; for (unsigned k = 0; k < n; k++) { Tab t(N); for (unsigned i = 0; i < N; i++) t[i] = (i >> k) & 1; vt.push_back(t); }
        std::vector<Slot> S; int slots = 4 + rnd(6);
        for (int i = 0; i < slots; i++) { int k = rnd(n); S.push_back({new BF(v[k]), vt[k]}); log("s%d=v%d", i, k); }
        auto check = [&](int i, const char *op) { for (unsigned x = 0; x < N; x++) if (eval(mgr, S[i].bf->getCuddNode(), x, index) != S[i].t[x]) { err = op; return; } };
        auto subset = [&]() { std::vector<int> q; for (unsigned k = 0; k < n; k++) if (rnd(2)) q.push_back(k); for (size_t i = q.size(); i > 1; i--) std::swap(q[i - 1], q[rnd(i)]); return q; };
        auto cubeOf = [&](std::vector<int> &q) { std::vector<BF> b; for (int k : q) b.push_back(v[k]); return m->computeCube(b); };
        int steps = 30 + rnd(120);
        for (int st = 0; st < steps && !err; st++) {
            int a = rnd(slots), b = rnd(slots), d = rnd(slots); Tab ta = S[a].t, tb = S[b].t, t(N); unsigned op = rnd(31); const char *nm = "?";
            BF &A = *S[a].bf, &B = *S[b].bf; bool put = true; BF r;
            auto z = [&](bool (*f)(bool, bool)) { for (unsigned i = 0; i < N; i++) t[i] = f(ta[i], tb[i]); };
            switch (op) {
            case 0: case 1: nm = "operator&"; r = A & B; z([](bool x, bool y) { return x && y; }); break;
            case 2: case 3: nm = "operator|"; r = A | B; z([](bool x, bool y) { return x || y; }); break;
            case 4: nm = "operator!"; r = !A; z([](bool x, bool) { return !x; }); break;
            case 5: case 6: nm = "operator^"; r = A ^ B; z([](bool x, bool y) { return x != y; }); break;
            case 7: nm = "operator-"; r = A - B; z([](bool x, bool y) { return x && !y; }); break;
            case 8: nm = "Implies"; r = A.Implies(B); z([](bool x, bool y) { return !x || y; }); break;
            case 9: { nm = "ExistAbstract"; auto q = subset(); r = A.ExistAbstract(cubeOf(q)); t = quant(ta, q, true); break; }
            case 10: { nm = "UnivAbstract"; auto q = subset(); r = A.UnivAbstract(cubeOf(q)); t = quant(ta, q, false); break; }
            case 11: { nm = "AndAbstract"; auto q = subset(); r = A.AndAbstract(B, cubeOf(q)); z([](bool x, bool y) { return x && y; }); t = quant(t, q, true); break; }
            case 12: { nm = "ExistAbstractSingleVar"; int k = rnd(n); r = A.ExistAbstractSingleVar(v[k]); t = quant(ta, {k}, true); break; }
            case 13: { nm = "UnivAbstractSingleVar"; int k = rnd(n); r = A.UnivAbstractSingleVar(v[k]); t = quant(ta, {k}, false); break; }
            case 14: case 15: {
                nm = "SwapVariables"; std::vector<int> p; for (unsigned k = 0; k < n; k++) p.push_back(k); for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[rnd(i)]);
                int w = rnd(n / 2 + 1); std::vector<BF> x, y; std::vector<int> perm(n); for (unsigned k = 0; k < n; k++) perm[k] = k;
                for (int i = 0; i < w; i++) { x.push_back(v[p[2 * i]]); y.push_back(v[p[2 * i + 1]]); perm[p[2 * i]] = p[2 * i + 1]; perm[p[2 * i + 1]] = p[2 * i]; }
                BFVarVector vx = m->computeVarVector(x), vy = m->computeVarVector(y); BFVarVector vz; if (rnd(2)) { vz = vx; BFVarVector c(vz); if (c.size() != w || vx.size() != w) { err = "vector size"; break; } r = A.SwapVariables(c, vy); } else r = A.SwapVariables(vx, vy);
                for (unsigned i = 0; i < N; i++) { unsigned j = 0; for (unsigned k = 0; k < n; k++) if ((i >> perm[k]) & 1) j |= 1u << k; t[i] = ta[j]; } break; }
            case 16: { nm = "operator&="; log("s%d&=s%d", a, b); { BF x = (A &= B); for (unsigned i = 0; i < N; i++) S[a].t[i] = ta[i] && tb[i]; if (!(x == A)) err = "value of operator&="; } check(a, nm); put = false; break; }
            case 17: { nm = "operator|="; log("s%d|=s%d", a, b); { BF x = (A |= B); for (unsigned i = 0; i < N; i++) S[a].t[i] = ta[i] || tb[i]; if (!(x == A)) err = "value of operator|="; } check(a, nm); put = false; break; }
            case 18: { nm = "copy/assignment"; log("s%d=copy s%d", d, a); BF x(A); BF y; y = x; x = std::move(y); *S[d].bf = x; S[d].t = ta; *S[d].bf = *S[d].bf; check(d, nm); put = false; break; }
            case 19: { nm = "move"; BF x(A); BF y(std::move(x)); if (x.isValid()) err = "moved-from function still valid"; delete S[d].bf; S[d].bf = new BF(std::move(y)); S[d].t = ta; log("s%d=move s%d", d, a); check(d, nm); put = false; break; }
            case 20: { nm = "destruction"; BF *x = new BF(A); BF y(*x); delete x; y = BF(); put = false; break; }
            case 21: { nm = "comparison"; bool eq = true, le = true, ge = true; for (unsigned i = 0; i < N; i++) { if (ta[i] != tb[i]) eq = false; if (ta[i] && !tb[i]) le = false; if (tb[i] && !ta[i]) ge = false; }
                log("cmp s%d s%d", a, b);
                if ((A == B) != eq || (A != B) == eq || (A.getHashCode() == B.getHashCode()) != eq || A.ReachedGratestFixedPoint(B) != eq || A.ReachedLeastFixedPoint(B) != eq) err = "operator==/!=";
                if ((bool)(A <= B) != le || (bool)(A >= B) != ge || (bool)(A < B) != (le && !eq) || (bool)(A > B) != (ge && !eq)) err = "ordering tests";
                put = false; break; }
            case 22: { nm = "constants"; if (rnd(2)) { r = m->constantTrue(); t.assign(N, true); } else { r = m->constantFalse(); t.assign(N, false); }
                bool all = true, none = true; for (unsigned i = 0; i < N; i++) { if (ta[i]) none = false; else all = false; }
                log("isconst s%d", a); if (A.isTrue() != all || A.isFalse() != none || A.isConstant() != (all || none)) err = "isTrue/isFalse/isConstant"; break; }
            case 23: { nm = "getNofSatisfyingAssignments"; auto q = subset(); Tab e = quant(ta, q, true); std::set<int> qs(q.begin(), q.end()); std::vector<int> rest; for (unsigned k = 0; k < n; k++) if (!qs.count(k)) rest.push_back(k);
                double c = 0; for (unsigned i = 0; i < N; i++) if (e[i]) c++; c /= (1u << q.size());
                BF x = A.ExistAbstract(cubeOf(q)); BFVarCube cr = cubeOf(rest); log("count s%d", a); if (x.getNofSatisfyingAssignments(cr) != c) err = "getNofSatisfyingAssignments"; if (cr.size() != (int)rest.size()) err = "cube size"; put = false; break; }
            case 24: { nm = "multiAnd"; std::vector<BF> ps; t.assign(N, true); for (int i = 0, e = rnd(4); i < e; i++) { int k = rnd(slots); ps.push_back(*S[k].bf); for (unsigned j = 0; j < N; j++) t[j] = t[j] && S[k].t[j]; } r = m->multiAnd(ps); break; }
            case 25: { nm = "multiOr"; std::vector<BF> ps; t.assign(N, false); for (int i = 0, e = rnd(4); i < e; i++) { int k = rnd(slots); ps.push_back(*S[k].bf); for (unsigned j = 0; j < N; j++) t[j] = t[j] || S[k].t[j]; } r = m->multiOr(ps); break; }
            case 26: { nm = "optimizeRestrict/minimizeUsingCareSet"; bool none = true; for (unsigned i = 0; i < N; i++) if (tb[i]) none = false; if (none) { put = false; break; }
                r = rnd(2) ? A.optimizeRestrict(B) : A.minimizeUsingCareSet(B); for (unsigned i = 0; i < N; i++) { t[i] = eval(mgr, r.getCuddNode(), i, index); if (tb[i] && t[i] != ta[i]) err = nm; } break; }
            case 27: log("reorder"); Cudd_ReduceHeap(mgr, rnd(2) ? CUDD_REORDER_SIFT : CUDD_REORDER_RANDOM, 0); reord++; put = false; break;
            case 28: log("gc"); cuddGarbageCollect(mgr, 1); put = false; break;
            case 29: { nm = "computeCube with phases"; std::vector<BF> vs; std::vector<int> ph; auto q = subset(); t.assign(N, true); for (int k : q) { vs.push_back(v[k]); ph.push_back(rnd(2)); for (unsigned i = 0; i < N; i++) if (((i >> k) & 1) != (unsigned)ph.back()) t[i] = false; }
                BFVarCube c1 = m->computeCube(vs.data(), ph.data(), vs.size()), c2; c2 = c1; BFVarCube c3(c2); if (c3.size() != (int)q.size()) err = "cube size"; put = false; break; }
            case 30: { nm = "minterm enumeration"; std::vector<BF> pr, se; int half = n / 2; if (half == 0) { put = false; break; } for (int k = 0; k < half; k++) { pr.push_back(v[k]); se.push_back(v[half + k]); }
                std::vector<int> q; for (unsigned k = half; k < n; k++) q.push_back(k); Tab f = quant(ta, q, true), care = quant(tb, q, true);
                BF F = A.ExistAbstract(cubeOf(q)), C = B.ExistAbstract(cubeOf(q)); log("minterms s%d care s%d", a, b);
                BFMintermEnumerator e(F, C, pr, se); Tab cov(N, false); int cnt = 0;
                while (e.hasNextMinterm() && !err) { std::vector<int> mt; e.getNextMinterm(mt); if ((int)mt.size() != half) { err = "minterm length"; break; } if (++cnt > (1 << (2 * half))) { err = "minterm enumeration does not end"; break; }
                    bool inter = false; for (unsigned i = 0; i < N; i++) { bool in = true; for (int k = 0; k < half; k++) if (mt[k] && ((int)((i >> k) & 1) * 2 - 1) != mt[k]) in = false; if (in) { cov[i] = true; if (care[i]) inter = true; if (!f[i]) err = "minterm outside of the function"; } } if (!inter && !err) err = "minterm without a point of the care set"; }
                for (unsigned i = 0; i < N && !err; i++) if (f[i] && care[i] && !cnt) err = "no minterm although the function is not empty on the care set";
                put = false; break; }
            }
            if (put && !err) { log("s%d=op%d(s%d)", d, op, a); log("(s%d)", b); if (rnd(2)) *S[d].bf = r; else *S[d].bf = std::move(r); S[d].t = t; check(d, nm); }
            if (!err && st % 7 == 0) { int k = rnd(slots); check(k, "a held function changed its meaning"); }
        }
        if (!err) for (int i = 0; i < slots && !err; i++) check(i, "a held function changed its meaning");
        if (!err) for (int i = 0; i < slots; i++) for (int j = 0; j < slots; j++) if ((*S[i].bf == *S[j].bf) != (S[i].t == S[j].t)) err = "equal functions do not compare equal";
        if (!err && rnd(4) == 0) {
            int k = rnd(slots); std::string p = "bdd.tmp";
            std::vector<std::string> names; for (unsigned i = 0; i < n; i++) names.push_back("v" + std::to_string(i));
            log("write/read s%d", k); m->writeBDDToFile(p.c_str(), "", *S[k].bf, v, names);
            BF x = m->readBDDFromFile(p.c_str(), v); if (!(x == *S[k].bf)) err = "saving and reloading changed the function";
        }
        for (auto &s : S) delete s.bf;
        if (reord) nontrivial++;
        if (!err && Cudd_DebugCheck(mgr)) err = "CUDD's internal consistency check fails";
    }
    if (!err) { int left = Cudd_CheckZeroRef(mgr); if (left) err = "references are left after everything was destroyed"; }
    if (err) return fails(err);
    delete m;
    return 1;
}
int main(int argc, char **argv) {
    unsigned long seed = strtoul(argv[1], 0, 10); int cases = atoi(argv[2]); long nontrivial = 0;
    for (int c = 0; c < cases; c++) { R.seed(seed * 1000003 + c); try { if (!history(nontrivial)) return 0; } catch (const char *e) { trace += e; fails("exception"); return 0; } }
    printf("OK %d %ld\n", cases, nontrivial);
    return 0;
}
