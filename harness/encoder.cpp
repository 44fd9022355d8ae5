#include "net.h"
#include "PetriEngine/Structures/AlignedEncoder.h"
#include "PetriEngine/Structures/StateSet.h"
#include <cstring>
using namespace PetriEngine::Structures;
// args: places, number of symbolic positions, max value (0 = 2^32-2), number of base positions..., i.e. arg(3..) positions
static uint32_t hi() { return sym_arg(2) ? sym_arg(2) : 0xfffffffeu; }
static void vals(std::vector<uint32_t>& m, const char* nm) { uint32_t k = sym_arg(1); for (uint32_t i = 0; i < k; ++i) m[sym_arg(3 + i)] = sym_range(nm, 0, hi()); }
static std::unique_ptr<PetriNet> flat(uint32_t n) {
    static shared_string_set names; PetriNetBuilder b(names);
    for (uint32_t i = 0; i < n; ++i) { char t[8] = {'p', (char)('0' + i / 10000 % 10), (char)('0' + i / 1000 % 10), (char)('0' + i / 100 % 10), (char)('0' + i / 10 % 10), (char)('0' + i % 10), 0}; b.addPlace(std::string(t), 0, 0, 0); }
    return std::unique_ptr<PetriNet>(b.makePetriNet(false));
}
// Raw encoder: decode(encode(m)) == m and size() is the written length, for every marking with the given support.
ENTRY(enc_roundtrip) {
    uint32_t n = sym_arg(0); std::vector<uint32_t> m(n), d(n, 77); vals(m, "m"); for (uint32_t i = 0; i < sym_arg(10); ++i) { uint32_t p = sym_arg(11) + i * (uint32_t)sym_arg(13); if (p < n) m[p] = sym_arg(12); } // concrete fill: count, start, value, stride
    uint32_t sum = 0, pwt = 0, val = 0; bool same = true, first = true;
    AlignedEncoder enc(n, 0);
    for (uint32_t i = 0; i < n; ++i) { sum += m[i]; if (m[i]) { ++pwt; if (!first && val != m[i]) same = false; if (first || m[i] > val) val = m[i]; first = false; } }
    uint8_t t = enc.getType(sum, pwt, same, val);
    size_t len = enc.encode(m.data(), t);
    sym_assert(len <= enc.scratchpad().size(), "encoding fits the scratchpad");
    sym_assert(enc.size(enc.scratchpad().const_raw()) == len, "size() is the encoded length");
    enc.decode(d.data(), enc.scratchpad().const_raw());
    bool ok = true; for (uint32_t i = 0; i < n; ++i) ok &= d[i] == m[i];
    sym_assert(ok, "decode(encode(m)) == m"); sym_observe("len", len);
}
template <typename S> static void identity(uint32_t kb) {
    uint32_t n = sym_arg(0), k = sym_arg(1); auto net = flat(n);
    std::vector<uint32_t> a(n), b(n); vals(a, "a"); vals(b, "b");
    S set(*net, kb); State s; s.setMarking(new MarkVal[n]);
    bool eq = true; for (uint32_t i = 0; i < k; ++i) eq &= a[sym_arg(3 + i)] == b[sym_arg(3 + i)];
    auto put = [&](const std::vector<uint32_t>& m) { for (uint32_t i = 0; i < n; ++i) s.marking()[i] = m[i]; };
    auto is = [&](const std::vector<uint32_t>& m) { bool r = true; for (uint32_t i = 0; i < n; ++i) r &= s.marking()[i] == m[i]; return r; };
    auto rejected = [&](const std::pair<bool, size_t>& r) { return (r.first == false) & (r.second == std::numeric_limits<size_t>::max()); };
    bool oa = false, ob = false;
    if (kb) { uint32_t sa = 0, sb = 0; for (uint32_t i = 0; i < k; ++i) { sa += a[sym_arg(3 + i)]; sb += b[sym_arg(3 + i)]; } oa = sa > kb; ob = sb > kb; }
    put(a); auto ra = set.add(s); sym_assert(rejected(ra) == oa, "a marking is rejected exactly when it exceeds the token bound");
    if (rejected(ra)) { sym_reach("rejected"); sym_assert(set.size() == 0, "a rejected marking is not stored"); return; }
    sym_assert(ra.first, "a marking stored for the first time is new"); sym_assert(is(a), "adding leaves the marking alone");
    put(b); auto lb = set.lookup(s); sym_assert(lb.first == eq, "lookup finds exactly the stored markings");
    put(b); auto rb = set.add(s); sym_assert(rejected(rb) == ob, "a marking is rejected exactly when it exceeds the token bound"); if (rejected(rb)) return;
    sym_assert(rb.first == !eq, "a second marking is new iff it differs"); sym_assert((rb.second == ra.second) == eq, "equal markings and only they share an id");
    sym_assert(set.size() == 2 - (size_t)eq, "one entry per distinct marking");
    set.decode(s, ra.second); sym_assert(is(a), "decode returns the stored marking (first)");
    set.decode(s, rb.second); sym_assert(is(b), "decode returns the stored marking (second)");
    put(a); sym_assert(set.lookup(s) == std::make_pair(true, ra.second), "lookup returns the id of the stored marking"); put(a); auto r2 = set.add(s); sym_assert(!r2.first & (r2.second == ra.second), "re-adding yields the old id");
    for (uint32_t i = 0; i < k; ++i) { uint32_t p = sym_arg(3 + i), x = a[p], y = b[p]; uint32_t mx = set.maxPlaceBound()[p]; sym_assert((mx >= x) & (mx >= y) & ((mx == x) | (mx == y)), "reported place bound is the largest token count seen"); }
    sym_reach(eq ? "equal" : "different"); sym_observe("new", rb.first);
}
ENTRY(set_identity) { identity<StateSet>(0); }
ENTRY(set_identity_trace) { identity<TracableStateSet>(0); }
ENTRY(set_kbound) { identity<StateSet>(sym_range("k", 1, 0xffff)); }
// The parent/transition recorded for a marking is the one the trace printer gets back.
ENTRY(set_history) {
    uint32_t n = sym_arg(0); auto net = flat(n); std::vector<uint32_t> a(n), b(n); vals(a, "a"); vals(b, "b"); bool eq = true; for (uint32_t i = 0; i < n; ++i) eq &= a[i] == b[i]; sym_assume(!eq);
    TracableStateSet set(*net, 0); State s; s.setMarking(new MarkVal[n]);
    uint32_t t0 = sym_range("t", 0, 0xfffffffe), t1 = sym_range("t", 0, 0xfffffffe);
    for (uint32_t i = 0; i < n; ++i) s.marking()[i] = a[i]; auto ra = set.add(s); set.setHistory(ra.second, t0);
    set.decode(s, ra.second); for (uint32_t i = 0; i < n; ++i) s.marking()[i] = b[i]; auto rb = set.add(s); sym_assert(rb.first, "distinct marking is new"); set.setHistory(rb.second, t1);
    auto h = set.getHistory(rb.second); sym_assert((h.first == ra.second) & (h.second == t1), "history of a marking is its parent and the transition that produced it");
    auto h0 = set.getHistory(ra.second); sym_assert(h0.second == t0, "history of the earlier marking is kept");
}
