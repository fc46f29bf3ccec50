// Harness for C21: the real GR1Context::determinize / determinizeRandomized on random and enumerated sets,
// compared with truth tables.  usage: choice <seed> <number of cases>
#include <sstream>
#include <set>
#include <vector>
#include <map>
#include <list>
#include <string>
#include <iostream>
#define protected public
#include "gr1context.hpp"
#undef protected
#include <cstdio>
#include <random>
typedef std::vector<bool> Tab;
static std::mt19937_64 R;
static unsigned rnd(unsigned n) { return R() % n; }
static BF build(BFManager &m, std::vector<BF> &v, const Tab &t) {
    BF r = m.constantFalse();
    for (size_t i = 0; i < t.size(); i++) if (t[i]) { BF c = m.constantTrue(); for (size_t k = 0; k < v.size(); k++) c &= ((i >> k) & 1) ? v[k] : !v[k]; r |= c; }
    return r;
}
int main(int argc, char **argv) {
    unsigned long seed = strtoul(argv[1], 0, 10); int cases = atoi(argv[2]); long nontrivial = 0, splits = 0;
    R.seed(seed); srand(seed * 7919 + 13);
    for (int c = 0; c < cases; c++) {
        BFManager m; unsigned n = 1 + rnd(6); std::vector<BF> v;
        for (unsigned i = 0; i < n; i++) v.push_back(m.newVariable());
        unsigned dens = 1 + rnd(9); Tab t(1u << n); bool any = false;
        for (size_t i = 0; i < t.size(); i++) { t[i] = rnd(10) < dens; if (rnd(12) == 0 && dens < 3) t[i] = false; any = any || t[i]; }
        if (rnd(15) == 0) { for (size_t i = 0; i < t.size(); i++) t[i] = false; any = false; }
        if (rnd(10) == 0) { for (size_t i = 0; i < t.size(); i++) t[i] = false; t[rnd(t.size())] = true; any = true; }
        std::vector<int> idx; for (unsigned i = 0; i < n; i++) if (rnd(4)) idx.push_back(i);
        for (size_t i = idx.size(); i > 1; i--) std::swap(idx[i - 1], idx[rnd(i)]);
        std::vector<BF> vars; for (int i : idx) vars.push_back(v[i]);
        BF in = build(m, v, t);
        for (int mode = 0; mode < 2; mode++) {
            BF out = mode ? GR1Context::determinizeRandomized(in, vars) : GR1Context::determinize(in, vars);
            const char *what = 0;
            if (!(out <= in)) what = "the result is not contained in the set";
            else if (any && out.isFalse()) what = "the result is empty although the set is not";
            else for (int i : idx) if (!(out <= v[i]) && !(out <= !v[i])) what = "the result leaves a variable of the vector open";
            if (what) {
                printf("FAIL %s: %s; set=", mode ? "determinizeRandomized" : "determinize", what); for (size_t i = 0; i < t.size(); i++) putchar(t[i] ? '1' : '0');
                printf(" vars="); for (int i : idx) printf("%d,", i); printf("\n"); return 0;
            }
        }
        if (any && idx.size() > 1) nontrivial++;
        splits += idx.size();
    }
    printf("OK %d %ld\n", cases, nontrivial);
    return 0;
}
