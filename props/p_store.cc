// C23 hash table, C24 object pools
#include <limits.h>
#include <algorithm>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include "gen.h"
#include "hashtable.h"
#include "pool.h"

using pbt::Case;

namespace {
// A key type whose hash is chosen by the test: keys may collide although they differ
struct CollKey { int id; int h; bool operator==(const CollKey &o) const { return id == o.id; } };
inline int32_t hash(const CollKey &k) { return k.h; }

const std::vector<int> kCaps{1, 2, 3, 4, 5, 6, 11, 12, 17, 18, 36, 37, 60, 67, 100, 131, 200, 257, 300, 521, 1024, 2000, 2053, 4000};

int Prime(int cap) { for (int i = 0; i < 32; ++i) if (pocketkaldi::gPrimeNumbers[i] >= cap) return pocketkaldi::gPrimeNumbers[i]; return 2; }

std::vector<int> KeyUniverse(Case &c, int cap, std::string *kind) {
  std::vector<int> u; int n = c.range(1, 60);
  int k = c.weighted({2, 3, 3, 2, 2});
  int p = Prime(cap);
  if (k == 0) { *kind = "dense"; int base = c.range(-5, 100); for (int i = 0; i < n; ++i) u.push_back(base + i); }
  else if (k == 1) { *kind = "congruent"; int r = c.range(0, p - 1), s = c.flip() ? -1 : 1; for (int i = 0; i < n; ++i) { long v = r + static_cast<long>(s) * i * p; if (v > INT_MIN && v < INT_MAX) u.push_back(v); } }
  else if (k == 2) { *kind = "congruent-later-size"; int q = Prime(p * 2); int r = c.range(0, 50); for (int i = 0; i < n; ++i) u.push_back(r + i * q); }
  else if (k == 3) { *kind = "random"; for (int i = 0; i < n; ++i) u.push_back(static_cast<int>(c.upto(0xffffffffu))); }
  else { *kind = "extreme"; u = {0, 1, -1, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, p, -p, p * 2, 65536, -65536}; }
  return u;
}
}  // namespace

PROPERTY("C23", hashtable_int_model, 12000, 200000, 20) {
  int cap = c.pick(kCaps); std::string kind;
  std::vector<int> u = KeyUniverse(c, cap, &kind);
  int ops = c.range(1, 150);
  pocketkaldi::HashTable<int, int> t(cap); std::unordered_map<int, int> m;
  c.label(kind); c.note(pbt::strf("cap %d, %s keys (%zu), %d ops", cap, kind.c_str(), u.size(), ops));
  int maxsize = 0, clears = 0;
  for (int i = 0; i < ops; ++i) {
    int k = c.pick(u);
    switch (c.weighted({10, 8, 1})) {
      case 0: { int v = c.range(0, 1000); t.Insert(k, v); m[k] = v; break; }
      case 1: { int got = t.Find(k, -7), exp = m.count(k) ? m[k] : -7; REQUIRE(got == exp, "after %d ops Find(%d) = %d, expected %d", i, k, got, exp); break; }
      default: if (c.chance(1, 4)) { t.Clear(); m.clear(); ++clears; }
    }
    maxsize = std::max<int>(maxsize, m.size());
  }
  for (int k : u) { int got = t.Find(k, -7), exp = m.count(k) ? m[k] : -7; REQUIRE(got == exp, "finally Find(%d) = %d, expected %d", k, got, exp); }
  if (maxsize >= 3) c.nontrivial();
  if (maxsize * 2 > Prime(cap)) c.label("grown"); if (clears) c.label("cleared");
}

PROPERTY("C23", hashtable_collisions, 8000, 120000, 20) {
  int cap = c.pick(kCaps); int nk = c.range(1, 120), nh = c.range(1, 6); std::vector<int> hs;
  for (int i = 0; i < nh; ++i) hs.push_back(c.chance(1, 3) ? static_cast<int>(c.upto(0xffffffffu)) : c.range(-3, 40));
  std::vector<CollKey> u; for (int i = 0; i < nk; ++i) u.push_back(CollKey{i, hs[c.upto(nh - 1)]});
  pocketkaldi::HashTable<CollKey, int> t(cap); std::map<int, int> m; int ops = c.range(1, 250);
  c.note(pbt::strf("cap %d, %d keys on %d hash values, %d ops", cap, nk, nh, ops));
  for (int i = 0; i < ops; ++i) {
    CollKey k = c.pick(u);
    if (c.weighted({3, 2}) == 0) { t.Insert(k, i); m[k.id] = i; }
    else { int got = t.Find(k, -7), exp = m.count(k.id) ? m[k.id] : -7; REQUIRE(got == exp, "Find(key %d) = %d, expected %d", k.id, got, exp); }
    if (c.chance(1, 80)) { t.Clear(); m.clear(); c.label("cleared"); }
  }
  for (auto &k : u) { int got = t.Find(k, -7), exp = m.count(k.id) ? m[k.id] : -7; REQUIRE(got == exp, "finally Find(key %d) = %d, expected %d", k.id, got, exp); }
  if (m.size() >= 4) c.nontrivial();
}

PROPERTY("C23", hashtable_large, 160, 3000, 60) {
  int cap = c.pick(kCaps), n = c.chance(1, 20) ? c.range(100000, 400000) : c.range(500, 40000), stride = c.pick(std::vector<int>{1, 2, 3, 31, 961, 1024, 4096});
  pbt::Rng r(c.seed()); int base = r.range(-100000, 100000);
  pocketkaldi::HashTable<int, int> t(cap); std::unordered_map<int, int> m; int rounds = c.range(1, 3);
  c.note(pbt::strf("cap %d, %d keys, stride %d, %d rounds", cap, n, stride, rounds)); c.nontrivial();
  for (int q = 0; q < rounds; ++q) {
    for (int i = 0; i < n; ++i) { int k = base + static_cast<int>(r.upto(n)) * stride, v = r.range(0, 1 << 30); t.Insert(k, v); m[k] = v; }
    for (int i = 0; i <= n; ++i) { int k = base + i * stride; auto it = m.find(k); int e = it == m.end() ? -1 : it->second, g = t.Find(k, -1); REQUIRE(g == e, "Find(%d) = %d, expected %d", k, g, e); }
    if (c.flip()) { t.Clear(); m.clear(); REQUIRE(t.Find(base, -1) == -1, "found after Clear()"); }
  }
}

// ---------------------------------------------------------------- C24

namespace {
std::unordered_map<const void *, long> g_live; long g_ctor, g_dtor; const char *g_err;
struct Tracked {
  long v; std::string payload;
  explicit Tracked(long x): v(x), payload(24, 'a' + x % 26) { ++g_ctor; if (g_live.count(this)) g_err = "object constructed over a live one"; g_live[this] = x; }
  ~Tracked() { ++g_dtor; auto it = g_live.find(this); if (it == g_live.end()) { g_err = "object destroyed twice or never constructed"; return; } g_live.erase(it); v = -1; }
};
struct Plain { long v; explicit Plain(long x): v(x) {} };

template <typename T, int B> void PoolModel(Case &c, bool tracked) {
  g_live.clear(); g_ctor = g_dtor = 0; g_err = nullptr;
  typedef pocketkaldi::Pool<T, B> P;
  std::vector<std::pair<T *, long>> live; std::unordered_set<const void *> addr; long next = 1; size_t maxlive = 0; int clears = 0;
  {
    P pool; int ops = c.range(1, 40);
    c.note(pbt::strf("block %d, %d ops", B, ops));
    for (int i = 0; i < ops; ++i) {
      int k = c.weighted({8, 5, 1, 3});
      if (k == 0 || k == 3) {
        int n = k == 0 ? 1 : c.range(1, 2 * B + 3);
        for (int q = 0; q < n; ++q) {
          T *p = pool.Alloc(next);
          REQUIRE(addr.insert(p).second, "Alloc() returned the address of a live object");
          REQUIRE(reinterpret_cast<uintptr_t>(p) % alignof(T) == 0, "misaligned object");
          live.emplace_back(p, next++);
        }
      } else if (k == 1 && !live.empty()) {
        int n = c.range(1, 4);
        for (int q = 0; q < n && !live.empty(); ++q) { size_t at = c.upto(live.size() - 1); pool.Dealloc(live[at].first); addr.erase(live[at].first); live[at] = live.back(); live.pop_back(); }
      } else if (k == 2) { pool.Clear(); live.clear(); addr.clear(); ++clears; }
      maxlive = std::max(maxlive, live.size());
      for (auto &l : live) REQUIRE(l.first->v == l.second, "live object %ld reads %ld after op %d", l.second, l.first->v, i);
      REQUIRE(pool.allocated_nodes() == static_cast<int>(live.size()), "allocated_nodes() = %d, %zu objects are live", pool.allocated_nodes(), live.size());
      REQUIRE(pool.free_nodes() >= 0, "free_nodes() = %d", pool.free_nodes());
      if (tracked) {
        REQUIRE(g_err == nullptr, "%s (op %d)", g_err, i);
        REQUIRE(g_live.size() == live.size(), "%zu objects constructed and not destroyed, %zu are live", g_live.size(), live.size());
      }
    }
  }
  if (tracked) { REQUIRE(g_err == nullptr, "%s (destruction of the pool)", g_err); REQUIRE(g_live.empty() && g_ctor == g_dtor, "%zu objects never destroyed", g_live.size()); }
  if (maxlive > static_cast<size_t>(B)) { c.nontrivial(); c.label("several-blocks"); } else if (clears) c.nontrivial();
  if (clears > 1) c.label("several-clears");
}
}  // namespace

PROPERTY("C24", pool_model, 10000, 150000) {
  switch (c.upto(4)) {
    case 0: PoolModel<Tracked, 1>(c, true); break;
    case 1: PoolModel<Tracked, 4>(c, true); break;
    case 2: PoolModel<Tracked, 16>(c, true); break;
    case 3: PoolModel<Plain, 4>(c, false); break;
    default: PoolModel<Plain, 16>(c, false); break;
  }
}

namespace {
struct Node : public pocketkaldi::Collectable {
  Node *prev; long v; std::string payload; int *collected;
  Node(Node *p, long x, int *col): prev(p), v(x), payload(20 + x % 40, 'n'), collected(col) { ++g_ctor; if (g_live.count(this)) g_err = "node constructed over a live one"; g_live[this] = x; }
  ~Node() { ++g_dtor; auto it = g_live.find(this); if (it == g_live.end()) { g_err = "node destroyed twice"; return; } g_live.erase(it); }
  Node *previous() const { return prev; }
  void OnCollect() override { ++*collected; if (!g_live.count(this)) g_err = "OnCollect() on a destroyed node"; prev = nullptr; v = -2; }
};

template <int B> void GcModel(Case &c) {
  g_live.clear(); g_ctor = g_dtor = 0; g_err = nullptr;
  struct M { Node *p; long v; int parent; };      // parent: index in `m`, -1 none
  std::map<long, std::pair<Node *, long>> m;      // id -> (node, parent id or 0)
  long next = 1; int collected = 0, gcs = 0; size_t maxlive = 0; long reclaimed = 0;
  {
    pocketkaldi::GCPool<Node, B> pool; int ops = c.range(1, 40);
    c.note(pbt::strf("block %d, %d ops", B, ops));
    auto verify = [&](int i) {
      REQUIRE(g_err == nullptr, "%s (op %d)", g_err, i);
      REQUIRE(g_live.size() == m.size(), "%zu nodes exist, the model has %zu (op %d)", g_live.size(), m.size(), i);
      for (auto &kv : m) {
        Node *n = kv.second.first;
        REQUIRE(g_live.count(n) && !n->is_freed(), "live node %ld was freed (op %d)", kv.first, i);
        REQUIRE(n->v == kv.first, "live node %ld reads %ld (op %d)", kv.first, n->v, i);
        Node *ep = kv.second.second ? m[kv.second.second].first : nullptr;
        REQUIRE(n->prev == ep, "live node %ld lost its predecessor (op %d)", kv.first, i);
      }
      REQUIRE(pool.allocated_nodes() == static_cast<int>(m.size()), "allocated_nodes() = %d, %zu nodes are live", pool.allocated_nodes(), m.size());
    };
    for (int i = 0; i < ops; ++i) {
      int k = c.weighted({6, 4, 3, 1});
      if (k <= 1) {
        int n = k == 0 ? 1 : c.range(1, std::min(B, 16) + 3); long last = 0; bool chain = c.flip();
        for (int q = 0; q < n; ++q) {
          long parent = 0;
          if (chain && last) parent = last;
          else if (!m.empty() && c.chance(3, 4)) { auto it = m.lower_bound(m.begin()->first + static_cast<long>(c.upto(m.rbegin()->first - m.begin()->first))); parent = it->first; }
          Node *p = pool.Alloc(parent ? m[parent].first : nullptr, next, &collected);
          m[next] = std::make_pair(p, parent); last = next++;
        }
      } else if (k == 2) {
        std::vector<Node *> roots; std::set<long> keep;
        std::vector<long> ids; for (auto &kv : m) ids.push_back(kv.first);
        int nr = ids.empty() ? 0 : c.range(0, 4);
        for (int q = 0; q < nr; ++q) {
          long id = c.flip() ? ids[ids.size() - 1 - c.upto(std::min<size_t>(ids.size() - 1, 3))] : ids[c.upto(ids.size() - 1)];
          roots.push_back(m[id].first);
          for (long x = id; x; x = m[x].second) keep.insert(x);
        }
        if (c.chance(1, 6) && !roots.empty()) roots.push_back(roots[0]);
        int before = collected; size_t dead = m.size() - keep.size();
        pool.GC(roots); ++gcs;
        std::map<long, std::pair<Node *, long>> nm; for (auto &kv : m) if (keep.count(kv.first)) nm.insert(kv);
        m.swap(nm); reclaimed += dead;
        REQUIRE(collected - before == static_cast<int>(dead), "GC with %zu roots collected %d nodes, %zu are unreachable (op %d)", roots.size(), collected - before, dead, i);
      } else {
        // Free explicitly a node nobody refers to
        std::set<long> referred; for (auto &kv : m) referred.insert(kv.second.second);
        std::vector<long> leaf; for (auto &kv : m) if (!referred.count(kv.first)) leaf.push_back(kv.first);
        if (!leaf.empty()) { long id = leaf[c.upto(leaf.size() - 1)]; Node *p = m[id].first; m.erase(id); pool.Dealloc(p); c.label("explicit-dealloc"); }
      }
      maxlive = std::max(maxlive, m.size());
      verify(i);
    }
  }
  REQUIRE(g_err == nullptr, "%s (destruction of the pool)", g_err);
  REQUIRE(g_live.empty() && g_ctor == g_dtor, "%zu nodes never destroyed", g_live.size());
  if (gcs >= 2 && reclaimed > 0) c.nontrivial();
  c.label(gcs >= 3 ? "gc>=3" : gcs ? "gc1-2" : "gc0"); if (maxlive > static_cast<size_t>(B)) c.label("several-blocks");
}
}  // namespace

PROPERTY("C24", gcpool_model, 10000, 150000) {
  switch (c.upto(3)) { case 0: GcModel<2>(c); break; case 1: GcModel<5>(c); break; case 2: GcModel<16>(c); break; default: GcModel<4096>(c); }
}

// Sizes as in decoding: hundreds of thousands of nodes, chains as long as an utterance
PROPERTY("C24", gcpool_large, 40, 700, 120) {
  struct N : public pocketkaldi::Collectable { N *prev; int id; std::vector<char> *dead; N(N *p, int i, std::vector<char> *d): prev(p), id(i), dead(d) {} N *previous() const { return prev; } void OnCollect() override { ++(*dead)[id]; } };
  pbt::Rng g(c.seed()); int rounds = c.range(1, 8), per = c.chance(1, 4) ? c.range(20000, 100000) : c.range(10, 10000), heads = c.range(1, 400); bool chain = c.flip(); std::vector<char> dead; std::vector<int> parent, inmem; std::vector<N *> ptr; std::vector<int> live;   // ids that exist
  pocketkaldi::GCPool<N, 4096> pool; std::vector<int> front; c.note(pbt::strf("%d rounds of %d nodes, %d heads%s", rounds, per, heads, chain ? ", one long chain" : "")); c.nontrivial(); dead.reserve(static_cast<size_t>(rounds) * per + 1);
  for (int q = 0; q < rounds; ++q) {
    for (int i = 0; i < per; ++i) { int id = parent.size(), p = -1; if (!live.empty()) p = chain ? live.back() : g.upto(9) ? live[live.size() - 1 - g.upto(std::min<size_t>(live.size() - 1, heads))] : -1; parent.push_back(p); dead.push_back(0); ptr.push_back(pool.Alloc(p < 0 ? nullptr : ptr[p], id, &dead)); live.push_back(id); }
    std::vector<N *> roots; std::set<int> keep; int nr = g.upto(heads); for (int i = 0; i < nr; ++i) { int id = live[live.size() - 1 - g.upto(std::min<size_t>(live.size() - 1, 2 * heads))]; roots.push_back(ptr[id]); for (int x = id; x >= 0 && keep.insert(x).second; x = parent[x]) {} }
    pool.GC(roots); std::vector<int> next; for (int id : live) { bool k = keep.count(id); REQUIRE(dead[id] == !k, "node %d is %s and was collected %d times", id, k ? "reachable" : "unreachable", dead[id]); if (k) next.push_back(id); } live.swap(next);
    REQUIRE(pool.allocated_nodes() == static_cast<int>(live.size()), "allocated_nodes() = %d, %zu are live", pool.allocated_nodes(), live.size()); for (int id : live) { N *n = ptr[id]; REQUIRE(!n->is_freed() && n->id == id && n->prev == (parent[id] < 0 ? nullptr : ptr[parent[id]]), "live node %d is damaged", id); }
  }
}
