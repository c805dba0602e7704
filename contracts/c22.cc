// C22: the log never loses an error
#include "ExSeisDat/PIOL/Logger.hh"
#include "vp.h"
#include <iostream>
#include <string>
using exseis::PIOL::Logger;
using exseis::PIOL::Verbosity;

// any text
static std::string any_text(const char* name)
{
    const size_t n = any_u64("len", 0, 1 << 20, 40);
    const char* c  = any_ints<char>(name, n + 1);
    return std::string(c, n);
}
static Logger::Status any_status() { return Logger::Status(any_u64("stat", 0, size_t(Logger::Status::Request), 4)); }
static Logger::Layer any_layer() { return Logger::Layer(any_u64("layer", 0, size_t(Logger::Layer::API), 9)); }
static Verbosity any_verbosity(const char* n) { return Verbosity(any_u64(n, 0, 15, 15)); }
static bool same(const std::string& a, const char* b, size_t n)
{
    return a.size() == n && memcmp(a.data(), b, n) == 0;
}

// A log in any state: some first item, behind which there may be anything (no call of record has any business there).
struct AnyLog {
    Logger* l;
    Logger::Status first;
    std::_Fwd_list_node_base* head;
    Verbosity max;
    bool err;
    AnyLog()
    {
        max = any_verbosity("max");
        l   = new Logger(max);
        if (vp_bool("some")) {
            first = any_status();
            l->loglist_.push_front({"f", any_layer(), first, "m", max});
            head       = l->loglist_._M_impl._M_head._M_next;
            char* gone = new char[1];
            delete[] gone;
            head->_M_next = reinterpret_cast<std::_Fwd_list_node_base*>(gone);
        }
        else head = nullptr;
        err      = vp_bool("err");
        l->error = err;
    }
    std::_Fwd_list_node_base* top() const { return l->loglist_._M_impl._M_head._M_next; }
};

// record, from every state: the error is remembered whatever its verbosity, nothing else changes the
// state of the error, and what is within the verbosity is in front of what was there.
static void one(bool conditional)
{
    AnyLog a;
    const auto lay = any_layer();
    const auto st  = any_status();
    const auto vb  = any_verbosity("vb");
    const size_t nf = any_u64("nf", 0, 1 << 20, 40), nm = any_u64("nm", 0, 1 << 20, 40);
    const char* f = any_ints<char>("f", nf + 1);
    const char* m = any_ints<char>("m", nm + 1);
    const bool c  = !conditional || vp_bool("c");
    REACHABLE("pre");
    if (conditional) a.l->record(std::string(f, nf), lay, st, std::string(m, nm), vb, c);
    else a.l->record(std::string(f, nf), lay, st, std::string(m, nm), vb);
    ENSURES(a.l->isErr() == (a.err || (c && st == Logger::Status::Error)), "an error is reported exactly when one has been recorded");
    if (c && vb <= a.max) {
        ENSURES(a.top() != nullptr && a.top() != a.head, "what is within the verbosity is stored");
        const auto& it = a.l->loglist_.front();
        ENSURES(it.stat == st && it.layer == lay && it.vrbsy == vb, "the item stored is the one recorded");
        ENSURES(it.file.size() == nf && it.msg.size() == nm, "the texts stored are as long as the ones recorded");
        FORALL(i, nf) ENSURES(it.file[i] == f[i], "the file stored is the one recorded");
        FORALL(i, nm) ENSURES(it.msg[i] == m[i], "the message stored is the one recorded");
        ENSURES(a.top()->_M_next == a.head, "what was recorded before is still there, behind it");
    }
    else ENSURES(a.top() == a.head, "what is not to be stored does not change the list");
    ENSURES(a.l->maxLevel == a.max, "the verbosity does not change");
    if (a.head && a.l->loglist_.begin() != a.l->loglist_.end()) {
        const auto& h = static_cast<std::_Fwd_list_node<Logger::Item>*>(a.head)->_M_storage._M_ptr();
        ENSURES(h->stat == a.first, "items recorded before are not changed");
    }
}
VP_CONTRACT(record) { one(false); }
VP_CONTRACT(record_if) { one(true); }

VP_CONTRACT(fresh)
{
    const auto max = any_verbosity("max");
    Logger* l      = new Logger(max);
    REACHABLE("pre");
    ENSURES(!l->isErr() && l->maxLevel == max && l->loglist().empty(), "a new log has no error");
    Logger* d = new Logger();
    ENSURES(!d->isErr() && d->loglist().empty(), "a new log has no error");
}

// is there an error: neither asking nor processing hides or invents one. Bounded: lists of up to three items.
VP_CONTRACT(process)
{
#ifdef VP_NATIVE
    std::cerr.rdbuf(nullptr);
#endif
    const auto max = any_verbosity("max");
    Logger* l      = new Logger(max);
    l->error       = vp_bool("err");
    bool err       = l->error;
    const size_t n = vp_case("items", 4);
    size_t cnt[5]  = {0, 0, 0, 0, 0};
    for (size_t i = 0; i < n; i++) {
        const auto st = any_status();
        const auto vb = any_verbosity("vb");
        l->record("file", any_layer(), st, "message", vb);
        for (size_t s = 0; s < 5; s++) cnt[s] += (vb <= max && size_t(st) == s);
        err = err || st == Logger::Status::Error;
    }
    REACHABLE("pre");
    ENSURES(l->isErr() == err, "an error is reported exactly when one has been recorded");
    const size_t q = any_u64("q", 0, 4, 4);
    size_t want = 0;
    for (size_t s = 0; s < 5; s++) if (q == s) want = cnt[s];
    ENSURES(l->numStat(Logger::Status(q)) == want, "the items of a status are counted");
    ENSURES(l->isErr() == err, "counting does not change the error");
    l->procLog();
    ENSURES(l->isErr() == err, "processing neither hides nor invents an error");
    ENSURES(l->loglist().empty(), "what has been processed is not in the list any more");
    ENSURES(l->numStat(Logger::Status(q)) == 0, "what has been processed is not counted any more");
    l->record("file", any_layer(), Logger::Status::Error, "message", any_verbosity("vb"));
    ENSURES(l->isErr(), "an error after the processing is reported");
}
