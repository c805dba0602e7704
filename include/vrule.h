// What a rule has been told, written down independently: the specification of Rule.
#pragma once
#include "ExSeisDat/PIOL/Rule.hh"
#include "ExSeisDat/PIOL/SEGYRuleEntry.hh"
#include "vp.h"
extern "C" void vp_static_init();

namespace vpr {
using namespace exseis::PIOL;
using Type = RuleEntry::MdType;
static const size_t METAS = 35, ABSENT = 99, T_LONG = 0, T_SHORT = 1, T_FLOAT = 2, T_INDEX = 3, T_COPY = 4;

struct Told {
    size_t type[METAS], loc[METAS], scal[METAS];
    Told() { for (size_t m = 0; m < METAS; m++) type[m] = ABSENT, loc[m] = scal[m] = 0; }
    void put(size_t m, size_t t, size_t l = 0, size_t s = 0) { type[m] = t, loc[m] = l, scal[m] = s; }
    // the places of the SEG-Y standard; true if there is one
    bool standard(size_t m)
    {
        switch (m) {
            case PIOL_META_WtrDepSrc: put(m, T_FLOAT, 61, 69); break;
            case PIOL_META_WtrDepRcv: put(m, T_FLOAT, 65, 69); break;
            case PIOL_META_xSrc: put(m, T_FLOAT, 73, 71); break;
            case PIOL_META_ySrc: put(m, T_FLOAT, 77, 71); break;
            case PIOL_META_xRcv: put(m, T_FLOAT, 81, 71); break;
            case PIOL_META_yRcv: put(m, T_FLOAT, 85, 71); break;
            case PIOL_META_xCmp: put(m, T_FLOAT, 181, 71); break;
            case PIOL_META_yCmp: put(m, T_FLOAT, 185, 71); break;
            case PIOL_META_il: put(m, T_LONG, 189); break;
            case PIOL_META_xl: put(m, T_LONG, 193); break;
            case PIOL_META_Offset: put(m, T_LONG, 37); break;
            case PIOL_META_tn: put(m, T_LONG, 5); break;
            case PIOL_META_COPY: put(m, T_COPY); break;
            case PIOL_META_tnl: put(m, T_LONG, 1); break;
            case PIOL_META_tnr: put(m, T_LONG, 13); break;
            case PIOL_META_tne: put(m, T_LONG, 25); break;
            case PIOL_META_SrcNum: put(m, T_LONG, 17); break;
            case PIOL_META_Tic: put(m, T_SHORT, 29); break;
            case PIOL_META_VStack: put(m, T_SHORT, 31); break;
            case PIOL_META_HStack: put(m, T_SHORT, 33); break;
            case PIOL_META_RGElev: put(m, T_FLOAT, 41, 69); break;
            case PIOL_META_SSElev: put(m, T_FLOAT, 45, 69); break;
            case PIOL_META_SDElev: put(m, T_FLOAT, 49, 69); break;
            case PIOL_META_ns: put(m, T_SHORT, 115); break;
            case PIOL_META_inc: put(m, T_SHORT, 117); break;
            case PIOL_META_ShotNum: put(m, T_FLOAT, 197, 201); break;
            case PIOL_META_TraceUnit: put(m, T_SHORT, 203); break;
            case PIOL_META_TransUnit: put(m, T_SHORT, 211); break;
            default: return false;
        }
        return true;
    }
    bool learn(size_t m) { return type[m] == ABSENT && standard(m); }
    void index() { put(PIOL_META_gtn, T_INDEX), put(PIOL_META_ltn, T_INDEX); }
    void defaults()
    {
        const size_t l[] = {PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv, PIOL_META_xCmp, PIOL_META_yCmp, PIOL_META_Offset, PIOL_META_il, PIOL_META_xl, PIOL_META_tn};
        for (size_t i = 0; i < 10; i++) learn(l[i]);
    }
    void extras()
    {
        const size_t l[] = {PIOL_META_tnl, PIOL_META_tnr, PIOL_META_tne, PIOL_META_SrcNum, PIOL_META_Tic, PIOL_META_VStack, PIOL_META_HStack, PIOL_META_RGElev, PIOL_META_SSElev, PIOL_META_SDElev, PIOL_META_ns, PIOL_META_inc, PIOL_META_ShotNum, PIOL_META_TraceUnit, PIOL_META_TransUnit};
        for (size_t i = 0; i < 15; i++) learn(l[i]);
    }
    size_t count(size_t t) const
    {
        size_t n = 0;
        for (size_t m = 0; m < METAS; m++) n += type[m] == t;
        return n;
    }
};

static inline size_t kind(RuleEntry* e)
{
    switch (e->type()) {
        case Type::Long: return T_LONG;
        case Type::Short: return T_SHORT;
        case Type::Float: return T_FLOAT;
        case Type::Index: return T_INDEX;
        case Type::Copy: return T_COPY;
    }
    return ABSENT;
}

// the rule is what it was told
static inline void is(Rule* r, const Told& g, bool full)
{
    bool used[5][METAS];
    for (size_t t = 0; t < 5; t++) for (size_t m = 0; m < METAS; m++) used[t][m] = false;
    ENSURES(r->extent() == r->end - r->start, "the extent is that of the bytes from start to end");
    ENSURES(r->start <= r->end && r->end <= 240, "the extent does not leave the trace header");
    if (full) ENSURES(r->start == 0 && r->end == 240, "the full extent is the trace header");
    ENSURES(r->numLong == g.count(T_LONG) && r->numShort == g.count(T_SHORT) && r->numFloat == g.count(T_FLOAT)
              && r->numIndex == g.count(T_INDEX) && r->numCopy == g.count(T_COPY),
            "there are as many slots of a type as entries");
    size_t known = 0;
    for (size_t m = 0; m < METAS; m++) {
        RuleEntry* e = r->getEntry(m);
        if (g.type[m] == ABSENT) {
            ENSURES(e == nullptr, "what the rule was not told is not there");
            continue;
        }
        known++;
        ENSURES(e != nullptr, "what the rule was told is there");
        ENSURES(kind(e) == g.type[m], "an entry has the type it was told");
        if (g.type[m] == T_COPY) {
            ENSURES(r->start == 0 && r->end == 240, "a copy covers the trace header");
            continue;
        }
        ENSURES(e->num < g.count(g.type[m]) && !used[g.type[m]][e->num], "the slots of a type are numbered without gaps or sharing");
        used[g.type[m]][e->num] = true;
        if (g.type[m] == T_INDEX) continue;
        ENSURES(e->loc == g.loc[m], "an entry is where it was told");
        const size_t sz = g.type[m] == T_SHORT ? 2 : 4;
        ENSURES(r->start + 1 <= e->loc && e->loc - 1 + sz <= r->end, "the extent covers every entry");
        if (g.type[m] == T_FLOAT) {
            const size_t s = static_cast<SEGYFloatRuleEntry*>(e)->scalLoc;
            ENSURES(s == g.scal[m], "the scalar is where it was told");
            ENSURES(r->start + 1 <= s && s - 1 + 2 <= r->end, "the extent covers every scalar");
        }
    }
    ENSURES(r->translate.size() == known, "the rule has no other entries");
    // entries without bytes of the header, or none at all, do not need any
    ENSURES(r->paramMem() == 8 * r->numLong + 2 * r->numShort + 8 * r->numFloat + 8 * r->numIndex + (r->numCopy ? 240 : 0), "the memory of the parameters is that of the slots");
}
}  // namespace vpr
