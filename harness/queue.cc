// LINK: -Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_cond_wait,--wrap=pthread_cond_signal,--wrap=pthread_cond_broadcast
// Monitors for the blocking queue: recorded histories checked offline against a bounded FIFO.
#include "perturb.h"
#include <thread>
#include <mutex>
#include <semaphore.h>
#include "sol/util/block_queue.h"
using namespace hv;
typedef long* P;                       // elements are tagged pointers with unique values; null is a value of its own
static P mk(long v) { return (P)(v * 8); }
static long un(P p) { return long(p) / 8; }
typedef sol::BlockQueue<P> Q;

struct Op { int kind; long call, ret; std::vector<long> vals; int thread; int want; };  // kind 0 enq, 1 deq, 2 try(empty), 3 bulk enq, 4 bulk deq
static std::atomic<long> g_clock{0};
static bool g_record = true;
static long tick() { return g_record ? g_clock.fetch_add(1) : 0; }

static S show_ops(const std::vector<Op>& h) { S s; for (auto& o : h) { s += fmt("T%d:%s[%ld,%ld](", o.thread, o.kind == 0 ? "enq" : o.kind == 1 ? "deq" : o.kind == 2 ? "tryempty" : o.kind == 3 ? "benq" : "bdeq", o.call, o.ret); for (size_t i = 0; i < o.vals.size() && i < 8; ++i) s += fmt("%ld ", o.vals[i]); s += ") "; if (s.size() > 1500) { s += "..."; break; } } return s; }

// Wing-Gong search for small histories of atomic single operations on a FIFO of capacity cap
struct Lin {
  std::vector<Op> ops; int cap; std::set<std::pair<uint64_t, std::vector<long>>> seen; long budget = 200000;
  int rec(uint64_t done, std::vector<long>& q) {
    if (done == (ops.size() == 64 ? ~0ull : (1ull << ops.size()) - 1)) return 1;
    if (--budget < 0) return -1;
    if (!seen.insert(std::make_pair(done, q)).second) return 0;
    long minret = 1L << 60; for (size_t i = 0; i < ops.size(); ++i) if (!(done >> i & 1)) minret = std::min(minret, ops[i].ret);
    int res = 0;
    for (size_t i = 0; i < ops.size(); ++i) if (!(done >> i & 1) && ops[i].call < minret) {
      const Op& o = ops[i]; std::vector<long> q2 = q;
      if (o.kind == 0) { if ((int)q2.size() >= cap) continue; q2.push_back(o.vals[0]); }
      else if (o.kind == 2) { if (!q2.empty()) continue; }
      else { bool ok = q2.size() >= o.vals.size(); for (size_t k = 0; ok && k < o.vals.size(); ++k) ok = q2[k] == o.vals[k]; if (!ok) continue;
        if (o.kind == 4 && (int)o.vals.size() < o.want && q2.size() > o.vals.size()) continue;  // a bulk transfer takes what is there
        q2.erase(q2.begin(), q2.begin() + o.vals.size()); }
      int r = rec(done | 1ull << i, q2); if (r == 1) return 1; if (r < 0) res = -1;
    }
    return res;
  }
};

static void check_history(const std::vector<Op>& h, int cap, const S& what) {
  std::map<long, std::pair<long, long>> enq, deq; std::map<long, int> bulkof; S hs = what + " " + show_ops(h);
  for (auto& o : h) for (long v : o.vals) {
    auto& m = (o.kind == 0 || o.kind == 3) ? enq : deq;
    if (m.count(v)) { viol(o.kind == 0 || o.kind == 3 ? "c05.harness" : "c05.duplicate", fmt("value %ld twice; ", v) + hs); return; }
    m[v] = std::make_pair(o.call, o.ret);
  }
  for (auto& d : deq) if (!enq.count(d.first)) { viol("c05.invented", fmt("value %ld dequeued, never enqueued; ", d.first) + hs); return; }
  if (enq.size() != deq.size()) { viol("c05.lost", fmt("%zu enqueued, %zu dequeued; ", enq.size(), deq.size()) + hs); return; }
  for (auto& d : deq) if (d.second.second < enq[d.first].first) { viol("c05.early", fmt("value %ld dequeued before enqueued; ", d.first) + hs); return; }
  // FIFO order of non-overlapping operations (n log n sweep: enqueues by return, max dequeue-call so far)
  { std::vector<std::pair<long, long>> byret, bycall; for (auto& e : enq) { byret.push_back(std::make_pair(e.second.second, e.first)); bycall.push_back(std::make_pair(e.second.first, e.first)); }
    std::sort(byret.begin(), byret.end()); std::sort(bycall.begin(), bycall.end()); size_t i = 0; long maxcall = -1, who = 0;
    for (auto& b : bycall) { while (i < byret.size() && byret[i].first < b.first) { long dc = deq[byret[i].second].first; if (dc > maxcall) { maxcall = dc; who = byret[i].second; } ++i; }
      if (maxcall > deq[b.second].second) { viol("c05.order", fmt("value %ld was enqueued before %ld but dequeued after it; ", who, b.second) + hs); return; } } }
  // order inside one bulk operation
  for (auto& o : h) if (o.kind == 3) { long prev = -1; (void)prev; for (size_t k = 1; k < o.vals.size(); ++k) if (deq[o.vals[k]].second < deq[o.vals[k - 1]].first) { viol("c05.order_bulk_enq", hs); return; } }
  // capacity: enqueues returned minus dequeues called
  { std::vector<std::pair<long, int>> ev; for (auto& e : enq) ev.push_back(std::make_pair(e.second.second, 1)); for (auto& d : deq) ev.push_back(std::make_pair(d.second.first, -1));
    std::sort(ev.begin(), ev.end()); int held = 0, mx = 0; for (auto& e : ev) { held += e.second; mx = std::max(mx, held); } if (mx > cap) { viol("c05.capacity", fmt("%d elements held by a queue of capacity %d; ", mx, cap) + hs); return; } }
  for (auto& o : h) if (o.kind == 2) for (auto& e : enq) if (e.second.second < o.call && deq[e.first].first > o.ret) { viol("c05.falseempty", fmt("reported empty while it held %ld; ", e.first) + hs); return; }
  bool atomic = true; for (auto& o : h) if (o.kind == 3) atomic = false;
  if (atomic && h.size() <= 40) { Lin l; l.ops = h; l.cap = cap; std::vector<long> q; int r = l.rec(0, q); if (r == 0) viol("c05.linearizable", hs); else if (r < 0) inconclusive("lin_budget"); else count("histories_linearized"); }
  count("operations", h.size());
}

static void run_mix(Rng& r, bool small) {
  int np = r.range(1, 4), nc = r.range(1, 4), cap = r.chance(0.4) ? 1 : r.range(2, small ? 4 : 9); int per = small ? r.range(1, 4) : r.range(5, 120); if (!small && r.chance(0.06)) { if (r.chance(0.5)) cap = r.range(10, 300); if (r.chance(0.5)) per = r.range(120, 900); if (r.chance(0.4)) { np = r.range(4, 9); nc = r.range(4, 9); per = std::min(per, 150); } count("large_runs"); }
  bool bulk = r.chance(small ? 0.3 : 0.5), tries = r.chance(0.4), force = bulk && r.chance(0.4); bool bulkdeq = r.chance(0.4);
  int mode = r.below(4), sp = r.chance(0.6) ? r.range(5, 60) : 0; uint64_t seed = r.u64();
  int total = np * per; Q q(cap); std::vector<std::vector<Op>> hist(np + nc); std::atomic<int> left{total}; std::atomic<int> ready{0};
  g_clock = 0; sched::begin(seed, mode, sp);
  std::vector<std::thread> th; std::vector<uint64_t> seeds; for (int i = 0; i < np + nc; ++i) seeds.push_back(r.u64());
  // quotas for consumers so that the run ends without sentinels
  std::vector<int> quota(nc, 0); for (int i = 0; i < total; ++i) ++quota[r.below(nc)];
  for (int t = 0; t < np; ++t) th.emplace_back([&, t] {
    Rng rr(seeds[t]); ++ready; while (ready < np + nc) sched_yield();
    for (int i = 0; i < per;) {
      Op o; o.thread = t;
      if (bulk && rr.chance(0.5)) { int k = std::min(per - i, rr.range(1, cap + 3)); std::vector<P> b; for (int j = 0; j < k; ++j) { b.push_back(mk(1 + t * 10000 + i + j)); o.vals.push_back(1 + t * 10000 + i + j); } o.kind = 3; o.call = tick(); q.Enqueue(b.data(), k); o.ret = tick(); i += k; }
      else { long v = 1 + t * 10000 + i; o.kind = 0; o.vals.push_back(v); o.call = tick(); q.Enqueue(mk(v)); o.ret = tick(); ++i; }
      if (rr.chance(0.1)) { int s = q.size(); if (s < 0 || s > q.capacity()) viol("c05.size", fmt("size %d capacity %d", s, q.capacity())); }
      hist[t].push_back(o);
    }
  });
  for (int t = 0; t < nc; ++t) th.emplace_back([&, t] {
    Rng rr(seeds[np + t]); int need = quota[t]; ++ready; while (ready < np + nc) sched_yield(); int miss = 0;
    while (need > 0) {
      Op o; o.thread = np + t;
      if (bulkdeq && rr.chance(0.5)) { int k = rr.range(1, std::min(need, cap + 3)); bool f = force && rr.chance(0.5); std::vector<P> b(k, (P)8); o.kind = 4; o.want = k; o.call = tick(); int n = q.Dequeue(b.data(), k, f); o.ret = tick();
        if (n < 1 || n > k || (f && n != k)) { viol("c05.bulkcount", fmt("Dequeue(%d, force=%d) returned %d", k, f, n)); n = std::max(0, std::min(n, k)); }
        if (f) { o.kind = 5; }
        for (int j = 0; j < n; ++j) o.vals.push_back(un(b[j])); need -= n; }
      else if (tries && rr.chance(0.5)) { P p = nullptr; o.call = tick(); bool ok = q.TryDequeue(p); o.ret = tick(); if (ok) { o.kind = 1; o.vals.push_back(un(p)); --need; } else { o.kind = 2; if (++miss > (small ? 3 : 200)) continue; } }
      else { o.kind = 1; o.call = tick(); P p = q.Dequeue(); o.ret = tick(); o.vals.push_back(un(p)); --need; }
      if (g_record || rr.chance(0.1)) { int s = q.size(); (void)q.empty(); if (s < 0 || s > q.capacity()) viol("c05.size", fmt("size %d capacity %d", s, q.capacity())); }
      hist[np + t].push_back(o);
    }
  });
  for (auto& t : th) t.join();
  uint64_t h = sched::end(); nontrivial(h);
  S what = fmt("np=%d nc=%d cap=%d per=%d bulk=%d bulkdeq=%d force=%d mode=%d spurious=%d", np, nc, cap, per, bulk, bulkdeq, force, mode, sp);
  if (q.size() != 0 || !q.empty()) viol("c05.notempty", what + fmt(" size %d after everything was dequeued", q.size()));
  if (q.capacity() != cap) viol("c05.capval", what);
  std::vector<Op> all; bool forced = false; for (auto& v : hist) for (auto& o : v) { if (o.kind == 5) { forced = true; Op c = o; c.kind = 4; c.want = (int)o.vals.size(); all.push_back(c); } else all.push_back(o); }
  if (g_record) {
    std::sort(all.begin(), all.end(), [](const Op& a, const Op& b) { return a.call < b.call; });
    if (forced) { for (auto& o : all) if (o.kind == 4 && o.vals.size() > 1) { std::vector<long> v = o.vals; (void)v; } // a forced transfer may wait half-way: split into single dequeues, order kept inside
      std::vector<Op> sp2; for (auto& o : all) if (o.kind == 4) { for (long v : o.vals) { Op s = o; s.kind = 1; s.vals.assign(1, v); sp2.push_back(s); } } else sp2.push_back(o); all = sp2; }
    check_history(all, cap, what);
  } else { std::multiset<long> a; size_t ne = 0; for (auto& o : all) for (long v : o.vals) { if (o.kind == 0 || o.kind == 3) ++ne; else a.insert(v); } std::set<long> u(a.begin(), a.end()); if (u.size() != ne || a.size() != ne) viol("c05.exactlyonce", what); count("operations", all.size()); }
  count("histories"); if (wants_sample()) sample(what + fmt(" schedule=%llx ", (unsigned long long)h) + show_ops(all).substr(0, 250));
}
static void c05_small(Rng& r) { g_record = true; run_mix(r, true); }
static void c05_big(Rng& r) { g_record = true; run_mix(r, false); }
static void c05_race(Rng& r) { g_record = false; run_mix(r, r.chance(0.3)); }

// blocking conditions and bulk contiguity
static void c05_blocking(Rng& r) {
  int cap = r.range(1, 6); Q q(cap); sched::begin(r.u64(), r.below(4), r.chance(0.5) ? r.range(10, 60) : 0);
  int which = r.below(8);
  if (which == 6) {   // several blocked producers: every single removal, by whatever operation, lets at least one of them in
    int w = r.range(1, 5); for (int i = 0; i < cap; ++i) q.Enqueue(mk(i + 1));
    std::vector<std::thread> th; std::atomic<int> started{0}; sem_t in; sem_init(&in, 0, 0); for (int t = 0; t < w; ++t) th.emplace_back([&, t] { ++started; q.Enqueue(mk(100 + t)); sem_post(&in); });
    while (started < w) sched_yield(); sched::nap(r.range(50, 400));
    for (int i = 0; i < w; ++i) { int k = r.below(4); P p = nullptr, b[1] = {nullptr}; if (k == 0) p = q.Dequeue(); else if (k == 1) { if (!q.TryDequeue(p)) viol("c05.falseempty", "TryDequeue of a full queue"); } else { if (q.Dequeue(b, 1, k == 3) != 1) viol("c05.bulkcount", "bulk of one"); p = b[0]; } if (i < cap && un(p) != i + 1) viol("c05.order", fmt("element %d is %ld", i, un(p))); while (sem_wait(&in)) {} if (q.size() > cap) viol("c05.capacity", "size beyond capacity"); }
    for (auto& t : th) t.join(); if (q.size() != cap) viol("c05.size", fmt("size %d expected %d", q.size(), cap)); count("blocked_producers", w);
  } else if (which == 7) {   // several blocked consumers: every single element lets at least one of them go on
    int w = r.range(1, 5); std::vector<std::thread> th; std::atomic<int> started{0}; sem_t out; sem_init(&out, 0, 0); std::atomic<long> sum{0}; std::vector<int> kind; for (int t = 0; t < w; ++t) kind.push_back(r.below(3));
    for (int t = 0; t < w; ++t) th.emplace_back([&, t] { ++started; P b[1]; P p; if (kind[t] == 0) p = q.Dequeue(); else { if (q.Dequeue(b, 1, kind[t] == 2) != 1) viol("c05.bulkcount", "bulk of one"); p = b[0]; } sum += un(p); sem_post(&out); });
    while (started < w) sched_yield(); sched::nap(r.range(50, 400));
    long want = 0; for (int i = 0; i < w; ++i) { want += 3 + i; if (r.chance(0.5)) q.Enqueue(mk(3 + i)); else { P b[1] = {mk(3 + i)}; q.Enqueue(b, 1); } while (sem_wait(&out)) {} }
    for (auto& t : th) t.join(); if (sum != want || q.size() != 0) viol("c05.lost", "blocked consumers received other elements"); count("blocked_consumers", w);
  } else if (which == 0) {   // filling up to the capacity never blocks; one more blocks until a dequeue
    for (int i = 0; i < cap; ++i) q.Enqueue(mk(i + 1));
    std::atomic<int> done{0}; std::atomic<int> started{0}; bool bulk = r.chance(0.5);
    std::thread t([&] { started = 1; if (bulk) { P b[2] = {mk(100), mk(101)}; q.Enqueue(b, 2); } else q.Enqueue(mk(100)); done = 1; });
    while (!started) sched_yield(); for (int i = 0; i < 20; ++i) { sched::nap(100); if (done) break; }
    if (done) viol("c05.enq_on_full", fmt("enqueue returned on a full queue of capacity %d", cap));
    if (q.size() > cap) viol("c05.capacity", "size beyond capacity");
    P p = q.Dequeue(); if (un(p) != 1) viol("c05.order", "first element expected"); if (bulk) { if (cap > 1 || true) { p = q.Dequeue(); if (un(p) != (cap == 1 ? 100 : 2)) viol("c05.order", "second element expected"); } }
    t.join(); int n = q.size(); int want = cap + (bulk ? 2 : 1) - (bulk ? 2 : 1); if (n != want) viol("c05.size", fmt("size %d expected %d", n, want)); count("blocked_enqueue");
  } else if (which == 1) {  // dequeue from an empty queue waits for an enqueue
    std::atomic<int> done{0}, started{0}; P got = nullptr; bool bulk = r.chance(0.5), force = r.chance(0.5); int n = 1;
    std::thread t([&] { started = 1; if (bulk) { P b[3]; n = q.Dequeue(b, force ? 1 : 3, force); got = b[0]; } else got = q.Dequeue(); done = 1; });
    while (!started) sched_yield(); for (int i = 0; i < 20; ++i) { sched::nap(100); if (done) break; }
    if (done) viol("c05.deq_on_empty", "dequeue returned from an empty queue");
    q.Enqueue(mk(7)); t.join(); if (un(got) != 7 || n != 1) viol("c05.deq_value", fmt("got %ld n=%d", un(got), n)); count("blocked_dequeue");
  } else if (which == 2) {  // bulk enqueues into ample room stay contiguous
    int np = r.range(2, 4), k = r.range(2, 12); Q big(np * k + r.below(3)); std::vector<std::thread> th; std::atomic<int> rdy{0};
    for (int t = 0; t < np; ++t) th.emplace_back([&, t] { std::vector<P> b; for (int j = 0; j < k; ++j) b.push_back(mk(1 + t * 100 + j)); ++rdy; while (rdy < np) sched_yield(); big.Enqueue(b.data(), k); });
    for (auto& t : th) t.join(); std::vector<P> out(np * k + 5, nullptr); int n = big.Dequeue(out.data(), np * k + 5); if (n != np * k) viol("c05.bulkcount", fmt("%d of %d elements present returned", n, np * k));
    for (int i = 0; i < np * k && i < n; i += k) for (int j = 1; j < k && i + j < n; ++j) if (un(out[i + j]) != un(out[i]) + j) { viol("c05.contiguous_enq", "a bulk enqueue with room for all its elements was interleaved"); i = np * k; break; }
    count("contiguity_runs");
  } else if (which == 3) {  // bulk dequeues of a filled queue take contiguous runs
    int nc = r.range(2, 4), n = r.range(nc * 3, 60); Q big(n); for (int i = 0; i < n; ++i) big.Enqueue(mk(1 + i)); std::vector<std::thread> th; std::vector<std::vector<std::vector<long>>> got(nc); std::atomic<int> rdy{0}; std::atomic<int> left{n};
    int k = r.range(2, 5);
    for (int t = 0; t < nc; ++t) th.emplace_back([&, t] { ++rdy; while (rdy < nc) sched_yield(); while (left.fetch_sub(k) - k >= 0) { std::vector<P> b(k); int m = big.Dequeue(b.data(), k); std::vector<long> v; for (int j = 0; j < m; ++j) v.push_back(un(b[j])); got[t].push_back(v); } });
    for (auto& t : th) t.join(); std::set<long> all; for (auto& g : got) for (auto& v : g) { if ((int)v.size() != k) viol("c05.bulkcount", fmt("asked %d of plenty, got %zu", k, v.size())); for (size_t j = 0; j < v.size(); ++j) { if (j && v[j] != v[j - 1] + 1) viol("c05.contiguous_deq", "run not contiguous"); if (!all.insert(v[j]).second) viol("c05.duplicate", "element twice"); } }
    if ((int)all.size() != n / k * k) viol("c05.lost", fmt("%zu of %d elements", all.size(), n / k * k)); count("contiguity_runs");
  } else if (which == 4) {  // forced bulk dequeue collects across several enqueues and stops after a null element
    int n = r.range(2, 12); bool nul = r.chance(0.5); int at = r.below(n); std::vector<P> b(n, (P)8); int got = 0;
    std::thread t([&] { got = q.Dequeue(b.data(), n, true); });
    int sent = nul ? at + 1 : n; for (int i = 0; i < sent; ++i) { q.Enqueue(nul && i == at ? nullptr : mk(i + 1)); if (r.chance(0.3)) sched::nap(50); }
    t.join(); if (got != sent) viol("c05.force", fmt("forced dequeue of %d returned %d after %d elements (null=%d)", n, got, sent, nul));
    for (int i = 0; i < got && i < n; ++i) if (un(b[i]) != (nul && i == at ? 0 : i + 1)) { viol("c05.order", "forced bulk dequeue out of order"); break; } count("forced_dequeues");
  } else {   // several waiters, one multi-element enqueue: all can proceed
    int w = r.range(2, 5); Q big(w + r.below(3)); std::vector<std::thread> th; std::atomic<long> sum{0}; std::atomic<int> started{0};
    for (int t = 0; t < w; ++t) th.emplace_back([&] { ++started; P p = big.Dequeue(); sum += un(p); });
    while (started < w) sched_yield(); if (r.chance(0.7)) sched::nap(200);
    long exp = 0; if (r.chance(0.5)) { std::vector<P> b; for (int i = 0; i < w; ++i) { b.push_back(mk(1 + i * i)); exp += 1 + i * i; } big.Enqueue(b.data(), w); } else for (int i = 0; i < w; ++i) { big.Enqueue(mk(1 + i * i)); exp += 1 + i * i; }
    for (auto& t : th) t.join(); if (sum != exp) viol("c05.lost", "waiters received other elements"); count("multi_waiters");
    // the reverse: several blocked producers, one bulk dequeue
    Q one(w); for (int i = 0; i < w; ++i) one.Enqueue(mk(1)); std::vector<std::thread> pr; started = 0; for (int t = 0; t < w; ++t) pr.emplace_back([&] { ++started; one.Enqueue(mk(2)); });
    while (started < w) sched_yield(); if (r.chance(0.7)) sched::nap(200); std::vector<P> b(w); int n = 0; while (n < w) n += one.Dequeue(b.data(), w - n); for (auto& t : pr) t.join(); if (one.size() != w) viol("c05.size", "after blocked producers resumed");
  }
  uint64_t h = sched::end(); nontrivial(h ^ which); count("blocking_cases");
}
// sequential: the queue agrees with a deque for any operation sequence that does not block
static void c05_seq(Rng& r) {
  int cap = r.chance(0.05) ? r.range(10, 2000) : r.range(1, 9); Q q(cap); std::vector<long> m; long next = 1; S tr;
  int n = r.chance(0.03) ? r.range(120, 3000) : r.range(5, 120);
  for (int i = 0; i < n; ++i) {
    int op = r.below(5);
    if (op == 0 && (int)m.size() < cap) { q.Enqueue(mk(next)); m.push_back(next++); tr += "e"; }
    else if (op == 1 && !m.empty()) { long v = un(q.Dequeue()); if (v != m[0]) viol("c05.seq.value", tr + fmt(" got %ld expected %ld", v, m[0])); m.erase(m.begin()); tr += "d"; }
    else if (op == 2) { int room = cap - (int)m.size(); if (room > 0) { int k = r.chance(0.05) ? 0 : r.range(1, room); std::vector<P> b; for (int j = 0; j < k; ++j) { b.push_back(mk(next)); m.push_back(next++); } q.Enqueue(b.data(), k); tr += fmt("E%d", k); } }
    else if (op == 3 && !m.empty()) { int k = r.chance(0.05) ? 0 : r.range(1, cap + 2); bool f = k <= (int)m.size() && r.chance(0.3); std::vector<P> b(k, (P)8); int g = q.Dequeue(b.data(), k, f); int want = std::min<int>(k, m.size()); tr += fmt("D%d", k); if (g != want) { viol("c05.seq.bulk", tr + fmt(" returned %d expected %d", g, want)); return; } for (int j = 0; j < g; ++j) if (un(b[j]) != m[j]) { viol("c05.seq.bulkvalue", tr); return; } m.erase(m.begin(), m.begin() + g); }
    else if (op == 4) { P p = mk(77777); bool ok = q.TryDequeue(p); tr += "t"; if (ok != !m.empty()) { viol("c05.seq.try", tr); return; } if (ok) { if (un(p) != m[0]) viol("c05.seq.tryvalue", tr); m.erase(m.begin()); } }
    if (q.size() != (int)m.size() || q.empty() != m.empty() || q.capacity() != cap) { viol("c05.seq.size", tr + fmt(" size %d expected %zu", q.size(), m.size())); return; }
  }
  nontrivial(hash_str(tr, cap)); count("sequential_ops", n);
  // a queue that owns its elements frees those left in it
  { sol::BlockQueue<int*, sol::QueueType::Element> own(3); own.Enqueue(new int(1)); own.Enqueue(new int(2)); delete own.Dequeue(); own.Enqueue(new int(3)); own.Enqueue(new int(4)); if (r.chance(0.5)) delete own.Dequeue(); }
  { sol::BlockQueue<int*, sol::QueueType::Array> own(2); own.Enqueue(new int[3]); own.Enqueue(nullptr); }
  if (__lsan_do_recoverable_leak_check && core().idx % 200 == 0) { if (__lsan_do_recoverable_leak_check()) viol("c05.owned_leak", "elements left in an owning queue were leaked"); count("leak_checks"); }
}
int main(int argc, char** argv) { return run_main(argc, argv, {{"c05_small", c05_small}, {"c05_big", c05_big}, {"c05_race", c05_race}, {"c05_blocking", c05_blocking}, {"c05_seq", c05_seq}}); }
