// C07: a rule describes what it was told
#include "vrule.h"
using namespace vpr;

static size_t any_loc() { return any_u64("loc", 1, 237, 237); }
static size_t any_scal() { return any_u64("scal", 1, 239, 239); }

// rules as the constructors make them, with what they were told
static Rule* start(size_t which, Told& g, bool& full)
{
    vp_static_init();
    g.index();
    full = which != 1 && which != 3;
    if (which == 0) { g.defaults(); return new Rule(true, true); }
    if (which == 1) { g.defaults(); g.extras(); return new Rule(false, true, true); }
    if (which == 2) { g.extras(); return new Rule(true, false, true); }
    return new Rule(false, false);
}

VP_CONTRACT(constructed)
{
    vp_static_init();
    const bool full = vp_case("full", 2), def = vp_case("def", 2), ext = vp_case("ext", 2);
    const size_t extra = vp_case("list", 4);
    Told g;
    g.index();
    std::vector<Meta> l;
    if (extra == 1) l = {PIOL_META_il};
    if (extra == 2) l = {PIOL_META_COPY, PIOL_META_xSrc, PIOL_META_xl, PIOL_META_xSrc, PIOL_META_dsdr};
    if (extra == 3) l = {PIOL_META_WtrDepRcv, PIOL_META_Tic, PIOL_META_WtrDepSrc, PIOL_META_ltn};
    for (auto m : l) g.learn(m);
    if (def) g.defaults();
    if (ext) g.extras();
    Rule* r = extra ? new Rule(l, full, def, ext) : new Rule(full, def, ext);
    REACHABLE("pre");
    is(r, g, full);
    delete r;
}

// a rule made of a map of entries of its own
VP_CONTRACT(from_map)
{
    const bool full = vp_case("full", 2);
    Told g;
    Rule::RuleMap t;
    const size_t a = any_loc(), b = any_loc(), c = any_loc(), d = any_loc(), s = any_scal();
    t[PIOL_META_il] = new SEGYLongRuleEntry(0, a);
    g.put(PIOL_META_il, T_LONG, a);
    t[PIOL_META_ltn] = new SEGYIndexRuleEntry(0);
    g.put(PIOL_META_ltn, T_INDEX);
    t[PIOL_META_xl] = new SEGYLongRuleEntry(1, b);
    g.put(PIOL_META_xl, T_LONG, b);
    t[PIOL_META_ns] = new SEGYShortRuleEntry(0, c);
    g.put(PIOL_META_ns, T_SHORT, c);
    t[PIOL_META_xSrc] = new SEGYFloatRuleEntry(0, d, s);
    g.put(PIOL_META_xSrc, T_FLOAT, d, s);
    if (vp_case("copy", 2)) {
        t[PIOL_META_COPY] = new SEGYCopyRuleEntry();
        g.put(PIOL_META_COPY, T_COPY);
    }
    Rule* r = new Rule(t, full);
    REACHABLE("pre");
    is(r, g, full);
    delete r;
}

// one change of any entry
static void change(Rule* r, Told& g, size_t what, size_t m)
{
    if (what == 0) { const size_t l = any_loc(); r->addLong(m, l); g.put(m, T_LONG, l); }
    if (what == 1) { const size_t l = any_loc(); r->addShort(m, l); g.put(m, T_SHORT, l); }
    if (what == 2) { const size_t l = any_loc(), s = any_scal(); r->addSEGYFloat(m, l, s); g.put(m, T_FLOAT, l, s); }
    if (what == 3) { r->addIndex(m); g.put(m, T_INDEX); }
    if (what == 4) { r->rmRule(m); g.put(m, ABSENT); }
    if (what == 5) {
        const bool had = g.type[m] != ABSENT, can = g.learn(m);
        const bool ok = r->addRule(Meta(m));
        ENSURES(ok == (!had && can), "adding an entry says whether it was added");
    }
    if (what == 6) { r->addCopy(); if (g.type[PIOL_META_COPY] == ABSENT) g.put(PIOL_META_COPY, T_COPY); }
}
static void one(size_t what, size_t from)
{
    Told g;
    bool full;
    Rule* r = start(from, g, full);
    // the entry for a copy of the header is only made by addCopy
    const size_t m = what == 6 ? 0 : what >= 4 ? vp_case("meta", METAS) : 1 + vp_case("meta", METAS - 1);
    REACHABLE("pre");
    change(r, g, what, m);
    is(r, g, full);
    delete r;
}
VP_CONTRACT(long_0) { one(0, 0); }
VP_CONTRACT(long_1) { one(0, 1); }
VP_CONTRACT(long_2) { one(0, 2); }
VP_CONTRACT(long_3) { one(0, 3); }
VP_CONTRACT(short_0) { one(1, 0); }
VP_CONTRACT(short_1) { one(1, 1); }
VP_CONTRACT(short_2) { one(1, 2); }
VP_CONTRACT(short_3) { one(1, 3); }
VP_CONTRACT(float_0) { one(2, 0); }
VP_CONTRACT(float_1) { one(2, 1); }
VP_CONTRACT(float_2) { one(2, 2); }
VP_CONTRACT(float_3) { one(2, 3); }
VP_CONTRACT(index_0) { one(3, 0); }
VP_CONTRACT(index_1) { one(3, 1); }
VP_CONTRACT(index_2) { one(3, 2); }
VP_CONTRACT(index_3) { one(3, 3); }
VP_CONTRACT(remove_0) { one(4, 0); }
VP_CONTRACT(remove_1) { one(4, 1); }
VP_CONTRACT(remove_2) { one(4, 2); }
VP_CONTRACT(remove_3) { one(4, 3); }
VP_CONTRACT(add_0) { one(5, 0); }
VP_CONTRACT(add_1) { one(5, 1); }
VP_CONTRACT(add_2) { one(5, 2); }
VP_CONTRACT(add_3) { one(5, 3); }
VP_CONTRACT(copy_0) { one(6, 0); }
VP_CONTRACT(copy_1) { one(6, 1); }
VP_CONTRACT(copy_3) { one(6, 3); }

// three changes of two entries
static void seq(size_t first, size_t from)
{
    Told g;
    bool full;
    Rule* r = start(from, g, full);
    REACHABLE("pre");
    for (size_t i = 0; i < 3; i++) {
        const size_t k = i == 0 ? first : vp_case("op", 11);
        const size_t m = k < 5 ? PIOL_META_xl : PIOL_META_xSrc;
        change(r, g, k == 10 ? 6 : k % 5, m);
        if (vp_case("look", 2)) r->extent();
    }
    is(r, g, full);
    delete r;
}
VP_CONTRACT(seq_0) { seq(0, 3); }
VP_CONTRACT(seq_1) { seq(1, 3); }
VP_CONTRACT(seq_2) { seq(2, 3); }
VP_CONTRACT(seq_3) { seq(3, 3); }
VP_CONTRACT(seq_4) { seq(4, 3); }
VP_CONTRACT(seq_5) { seq(5, 3); }
VP_CONTRACT(seq_6) { seq(6, 3); }
VP_CONTRACT(seq_7) { seq(7, 3); }
VP_CONTRACT(seq_8) { seq(8, 3); }
VP_CONTRACT(seq_9) { seq(9, 3); }
VP_CONTRACT(seq_10) { seq(10, 3); }

// a rule told everything another one knows
static void merge(size_t a, size_t b)
{
    Told g, h;
    bool full, other;
    Rule* r = start(a, g, full);
    Rule* q = start(b, h, other);
    change(r, g, 2 * vp_case("mine", 3), PIOL_META_xSrc);
    change(q, h, vp_case("theirs", 5), PIOL_META_xSrc);
    if (vp_case("copy", 2)) change(q, h, 6, 0);
    REACHABLE("pre");
    r->addRule(*q);
    for (size_t m = 0; m < METAS; m++) if (g.type[m] == ABSENT) g.put(m, h.type[m], h.loc[m], h.scal[m]);
    is(r, g, full);
    is(q, h, other);
    delete r;
    delete q;
}
VP_CONTRACT(merge_0) { merge(0, 1); }
VP_CONTRACT(merge_1) { merge(3, 0); }
VP_CONTRACT(merge_2) { merge(2, 3); }

VP_CONTRACT(entries)
{
    const size_t l = any_loc(), s = any_scal(), n = any_u64("n", 0, 1000, 1000);
    REACHABLE("pre");
    SEGYLongRuleEntry a(n, l);
    ENSURES(a.num == n && a.loc == l && a.min() == l && a.max() == l + 4, "a 32 bit entry has four bytes");
    SEGYShortRuleEntry b(n, l);
    ENSURES(b.num == n && b.loc == l && b.min() == l && b.max() == l + 2, "a 16 bit entry has two bytes");
    SEGYFloatRuleEntry c(n, l, s);
    ENSURES(c.num == n && c.loc == l && c.scalLoc == s, "a coordinate is where it was told");
    ENSURES(c.min() == (s < l ? s : l) && c.max() == (s + 2 > l + 4 ? s + 2 : l + 4), "a coordinate has its own bytes and those of its scalar");
}
