// C17: inc_stack is a stack of numbers; its iterators walk and skip by elements
#include "vc.h"
#include <cassert>
#include "ron/inc_stack.hpp"
using S = inc_stack<uint32_t>;

// an arbitrary valid stack: n spans, cum(k) elements before span k (by definition cum(0)=0, cum(k+1)=cum(k)+size(k), hence monotone)
static uint32_t* g_b; static size_t g_n; static uint64_t g_total;
static uint64_t val(uint64_t k) { return g_b[2 * k]; }
static uint64_t len(uint64_t k) { return g_b[2 * k + 1]; }
static uint64_t cum(uint64_t k) { return vc_uf1("cum", k); }
static void arbitrary(S& s, size_t n) {
    g_n = n;
#ifdef VC_NATIVE
    const uint32_t* in = (const uint32_t*)vc_buf("spans", (n + 1) * 8);
    static std::vector<S::span_t> keep;
    s.spans_.clear(); s.spans_.reserve(n + 1);
    uint64_t tot = 0;
    for (size_t k = 0; k < n; ++k) {
        S::span_t sp{in[2 * k]}; sp.size = in[2 * k + 1];
        vc_assume(sp.size > 0 && (uint64_t)sp.value + sp.size <= (1u << 30) && (k == 0 || in[2 * k - 2] + in[2 * k - 1] != sp.value));
        s.spans_.push_back(sp); tot += sp.size;
    }
    vc_assume(tot <= (1u << 30));
    s.size_ = g_total = tot;
    g_b = (uint32_t*)s.spans_.data();
#else
    g_b = (uint32_t*)vc_new(4); vc_havoc_obj(g_b, 4);      // n arbitrary spans and room to push
    uint64_t k = vc_any("span");
    vc_forall(k >= n || (len(k) > 0 && len(k) <= (1u << 30) && val(k) <= (1u << 30) && val(k) + len(k) <= (1u << 30)));
    vc_forall(k >= n || k == 0 || val(k - 1) + len(k - 1) != val(k));      // adjacent numbers share a span
    vc_forall(k >= n || cum(k + 1) == cum(k) + len(k));
    vc_assume(cum(0) == 0);
    g_total = cum(n);
    vc_forall(k > n || cum(k) <= g_total);
    vc_assume(g_total <= (1u << 30));
    s.spans_ = std::vector<S::span_t>(std::vector<S::span_t>::vc_raw{}, (S::span_t*)g_b, n);
    s.size_ = g_total;
#endif
}
static uint64_t before(uint64_t k) {
#ifdef VC_NATIVE
    uint64_t r = 0; for (uint64_t i = 0; i < k; ++i) r += len(i); return r;
#else
    return cum(k);
#endif
}
static uint64_t at(const S::const_iterator& i) { return vc_quot((const char*)&*i.i_ - (const char*)g_b, 8); }
static uint64_t pos(const S& s, S::const_iterator i) { uint64_t k = at(i); vc_assert(k <= g_n, "an iterator stays within the stack"); return before(k) + i.off_; }

PROVE(C17, push) {
    S s; size_t n = vc_u32("n"); vc_assume(n <= (1u << 29)); arbitrary(s, n);
    uint32_t x = vc_u32("x"); vc_assume(x < (1u << 30));
    uint64_t k = vc_u32("k"); vc_assume(k < n);
    uint64_t v = val(k), z = len(k), ends = n ? val(n - 1) + len(n - 1) : 0;
    S t = s;
    bool joined = n && ends == x;
    t.push_back(x);
    vc_assert(t.size() == s.size() + 1 && !t.empty(), "pushing adds one element");
    vc_assert(t.span_size() == n + (joined ? 0 : 1), "only a number following the last one joins its span");
    vc_assert(t.back() == x, "the pushed number is the last");
    vc_assert(t.spans_[k].value == v && t.spans_[k].size == z + (joined && k == n - 1 ? 1 : 0), "pushing keeps the other elements");
    vc_assert(t.front() == (n ? s.front() : x), "pushing keeps the first element");
    vc_cover("push end");
}
PROVE(C17, push_first) {
    S s; uint32_t x = vc_u32("x"), y = vc_u32("y");
    vc_assert(s.empty() && s.size() == 0 && s.begin() == s.end(), "a new stack is empty");
    s.push_back(x);
    vc_assert(s.size() == 1 && s.front() == x && s.back() == x && *s.begin() == x, "the first number is first and last");
    s.push_back(y);
    vc_assert(s.size() == 2 && s.front() == x && s.back() == y && s.span_size() == (y == x + 1 ? 1 : 2), "the second number is last");
    S::const_iterator i = s.begin(); ++i;
    vc_assert(*i == y && i != s.end(), "iteration reaches the second number");
    ++i;
    vc_assert(i == s.end(), "iteration ends after the last number");
    s.pop_back();
    vc_assert(s.size() == 1 && s.back() == x && s.front() == x, "popping removes the last number");
    s.pop_back();
    vc_assert(s.empty() && s.begin() == s.end(), "popping the last number empties the stack");
    vc_cover("push_first end");
}
PROVE(C17, pop) {
    S s; size_t n = vc_u32("n"); vc_assume(n >= 1 && n <= (1u << 29)); arbitrary(s, n);
    uint64_t k = vc_u32("k"); vc_assume(k < n);
    vc_assume(g_total >= before(k) + len(k));
    uint64_t v = val(k), z = len(k), last = len(n - 1);
    uint32_t was = s.size();
    s.pop_back();
    vc_assert(s.size() == was - 1, "popping removes one element");
    vc_assert(s.span_size() == n - (last == 1 ? 1 : 0), "popping drops an emptied span");
    if (k + 1 < n) vc_assert(s.spans_[k].value == v && s.spans_[k].size == z, "popping keeps the other spans");
    else if (last > 1) vc_assert(s.spans_[k].value == v && s.spans_[k].size == z - 1, "popping shortens the last span by one");
    vc_assert(s.empty() == (was == 1), "a stack is empty when nothing is left");
    vc_cover("pop end");
}
PROVE(C17, push_pop) {
    S s; size_t n = vc_u32("n"); vc_assume(n <= (1u << 29)); arbitrary(s, n);
    uint32_t x = vc_u32("x"); vc_assume(x < (1u << 30));
    uint64_t k = vc_u32("k"); vc_assume(k < n);
    uint64_t v = val(k), z = len(k);
    uint32_t was = s.size();
    s.push_back(x); s.pop_back();
    vc_assert(s.size() == was && s.span_size() == n && s.spans_[k].value == v && s.spans_[k].size == z, "popping undoes pushing");
    vc_cover("push_pop end");
}
static S::const_iterator arbitrary_iterator(S& s, uint64_t k, uint64_t off) {
    S::const_iterator i = s.begin();
    i.i_ = s.spans_.begin() + k; i.off_ = off;
    return i;
}
PROVE(C17, step) {
    S s; size_t n = vc_u32("n"); vc_assume(n >= 1 && n <= (1u << 29)); arbitrary(s, n);
    uint64_t k = vc_u32("k"), off = vc_u32("off"); vc_assume(k < n && off < len(k));
    S::const_iterator i = arbitrary_iterator(s, k, off);
    uint64_t p = pos(s, i);
    vc_assert(*i == val(k) + off, "an iterator denotes its element");
    S::const_iterator j = i; ++j;
    vc_assert(pos(s, j) == p + 1 && (j == s.end() || j.off_ < j.i_->size), "incrementing moves to the next element");
    vc_assert((j == s.end()) == (p + 1 == g_total), "incrementing reaches the end after the last element");
    S::const_iterator m = i;
    uint32_t mx = vc_u32("max"); vc_assume(mx > 0 && mx <= (1u << 30));
    uint32_t skipped = m.skip_span(mx);
    vc_assert(pos(s, m) == p + skipped && skipped == (len(k) - off < mx ? len(k) - off : mx), "skipping a span moves to its end or by the limit");
    vc_assert(m == s.end() || m.off_ < m.i_->size, "skipping leaves a valid iterator");
    vc_cover("step end");
}

static S::const_iterator* g_i; static uint64_t g_goal;
extern "C" bool inv_C17_at(uint32_t adv) {
    uint64_t k = at(*g_i);
    return k <= g_n && (k == g_n ? g_i->off_ == 0 : g_i->off_ < len(k)) && cum(k) + g_i->off_ + adv == g_goal;
}
PROVE(C17, advance) {
    S s; size_t n = vc_u32("n"); vc_assume(n >= 1 && n <= (1u << 29)); arbitrary(s, n);
    uint64_t k = vc_u32("k"), off = vc_u32("off"); vc_assume(k < n && off < len(k));
    static S::const_iterator i = arbitrary_iterator(s, k, off);
#ifdef VC_NATIVE
    i = arbitrary_iterator(s, k, off);
#endif
    uint64_t p = pos(s, i);
    uint32_t adv = vc_u32("advance"); vc_assume(p + adv <= g_total);
    g_i = &i; g_goal = p + adv;
    i += adv;
    vc_assert(pos(s, i) == p + adv && (i == s.end() || i.off_ < i.i_->size), "advancing moves by that many elements");
    vc_cover("advance end");
}
