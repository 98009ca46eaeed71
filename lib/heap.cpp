// Rounds of everything one can do with a generated expression; after the first rounds live heap memory must not move any more,
// and when expressions and variables are gone nothing may be left.
#include "heapcount.hpp"
#include "loop.hpp"
namespace vf {
static void trial(const Case& c, ref::Rng& r, int rounds, long t) {
    (void)t; heap::Mark before; uint64_t dig = 0; long total0 = 0, total1 = 0; double v0 = 0; long ev = 0; bool bad = false; long d[3] = {0, 0, 0};
    {
        Env e(c, r); dig = e.digest(); bool opeq = false; for (auto& i : c.in) opeq |= i.role == OPEQ;
        bool nb = c.flags & F_NOBOUND;
        auto ex = c.make(e.in); size_t nv, na; ex->sizes(nv, na); Buf bv(nv, r), ba(na, r), cv(nv, r), ca(na, r); fill(bv, 0, r); fill(ba, 0, r); fill(cv, 0, r); fill(ca, 0, r);
        double *ov, *oa; ex->bind(bv.p, ba.p, ov, oa); if (!nb) ex->mkbound();
        Mat seed = draw_seed(e, r);
        auto snap = e.snap();
        auto again = [&] { e.restore(snap); };                            // the values of a round, adjoints from zero
        // one round; kind selects what is exercised so that a growing operation can be named
        auto round = [&](int kind) {
            if (kind == 0) { again(); Mat v = ex->feval(); ex->beval(seed); v0 = v.d.empty() ? 0 : v.d[0]; ev += 1; }
            if (kind == 1) { ex->bind(cv.p, ca.p, ov, oa); again(); ex->feval(); ex->beval(seed); ex->bind(bv.p, ba.p, ov, oa); ev += 1; }
            if (kind == 2) { auto k = ex->clone(); k->bind(cv.p, ca.p, ov, oa); again(); k->feval(); k->beval(seed); ev += 1; }
            if (kind == 3) { auto k = c.make(e.in); size_t a, b; k->sizes(a, b); k->bind(cv.p, ca.p, ov, oa); again(); k->autodiff(&seed); ev += 1; }
            if (kind == 4 && !nb) { again(); ex->bound(0, &seed); again(); ex->bound(1, &seed); again(); ex->bound(2, &seed); again(); if (!opeq) ex->bound(3, &seed); again(); ex->bound(4, &seed); ex->mkbound(); ev += 5; }
            if (kind == 5) { again(); if (!opeq) { ex->feval(); ex->feval(); } ex->feval(); if (!(c.flags & F_ASSIGN)) ex->beval(seed); ex->beval(seed); ev += 2; }
            if (kind == 6) { e.redraw(r, true); ex->feval(); ex->beval(seed); ev += 1; }              // other values, some of them outside a domain
            if (kind == 7) { again(); ex->feval(); ev += 1; }                                        // forwards only
        };
        static const char* nm[] = {"evaluating and back-evaluating", "binding again", "copying", "building", "binding, copying and destroying bound expressions", "evaluating several times", "evaluating at new values", "evaluating forwards only"};
        for (int k = 0; k < 8; ++k) { round(k); round(k); }
        total0 = heap::total;
        for (int k = 0; k < 8 && !bad; ++k) {
            round(k); int grew = 0;                                       // something allocated lazily, once, is not growth
            for (int rep = 0; rep < 5 && grew + 1 >= rep && (rep < 1 || grew); ++rep) {
                heap::Mark m;
                for (int i = 0; i < rounds; ++i) round(k);
                if (heap::bytes - m.by > 0 || heap::blocks - m.bl > 0) { ++grew; d[0] = heap::bytes - m.by; d[1] = heap::blocks - m.bl; d[2] = k; }
            }
            bad = grew >= 4;
        }
        total1 = heap::total;
        if (bad) { fail("GROWTH", "%s %d times left %ld bytes in %ld blocks more than before", nm[d[2]], rounds, d[0], d[1]); return; }
    }
    heap::Mark after; bool left = after.by != before.by || after.bl != before.bl;
    if (left) fail("LEFT", "%ld bytes in %ld blocks are left after the expression and its variables are gone", after.by - before.by, after.bl - before.bl);
    g_cmp["GROWTH"] += 8; ++g_cmp["LEFT"]; g_evals += ev; g_seen["allocations observed"] += total1 - total0; g_distinct.insert(dig);
    if (g_samples.size() < 3 && r.chance(.05)) g_samples.push_back(std::string(c.name) + ": value[0] " + std::to_string(v0) + ", " + std::to_string(total1 - total0) + " allocations in " + std::to_string(rounds) + " rounds of each kind, all returned");
}
} // namespace vf
int main(int argc, char** argv) { return vf::loop(argc, argv, vf::trial); }
