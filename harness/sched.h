// Interposed on Kokkos' parallel loops of the code under test (forced include).
// mode 0: hand over to Kokkos
// mode 1: one thread, iterations in a chosen order (forward, reversed, shuffled, strided);
//         reductions are folded in several partial results joined in that order
// mode 2: every iteration is run alone from the state before the loop, and once more from the
//         state left by all the others: its write set, the values, its atomic additions and its
//         dependence on other iterations are recorded (Schedule.tla gives the meaning)
#ifndef VT_SCHED_H
#define VT_SCHED_H
#include <Kokkos_Core.hpp>
#include <Kokkos_Random.hpp>
#include <Kokkos_DualView.hpp>
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <cxxabi.h>
#include <map>
#include <random>
#include <set>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <vector>
extern "C" char __data_start, _end;

namespace vts
{
struct Reg
{
  std::string       name;
  char *            p;
  size_t            n;
  std::vector<char> pre, post;
};
struct W
{
  int      reg;
  size_t   off;
  uint64_t val;
};
struct Shared
{
  std::string reg;
  size_t      off;
  struct By
  {
    long     it;
    char     k;
    uint64_t v;
  };
  std::vector<By> by;
};
struct Loop
{
  long                            runs = 0, n = 0, writes = 0, adds = 0;
  std::vector<Shared>             shared; // addresses with several writers
  int                             nbad = 0, nok = 0;
  std::vector<std::pair<long, std::pair<std::string, size_t>>> dep;
};
struct Red
{
  std::string         name;
  long                n = 0;
  std::vector<double> contrib;
  double              result = 0;
  long                notfold = 0, writes = 0;
};
struct Ctl
{
  int                                                  mode = 0, order = 0;
  unsigned                                             seed = 1;
  long                                                 cur = -1;
  bool                                                 rec = false;
  std::vector<std::pair<void *, double>>               adds;
  std::map<char *, std::pair<std::string, size_t>>     live;
  std::map<std::string, Loop>                          loops;
  std::vector<Red>                                     reds;
  unsigned                                             nloop = 0;
};
inline Ctl &
ctl()
{
  static Ctl * c = new Ctl;
  return *c;
}

inline void
on_alloc(const Kokkos_Profiling_SpaceHandle, const char * label, const void * const p, const uint64_t n)
{
  // reported: the allocation with its header, and the size without it
  ctl().live[(char *)p + sizeof(Kokkos::Impl::SharedAllocationHeader)] = { label, (size_t)n };
}
inline void
on_free(const Kokkos_Profiling_SpaceHandle, const char *, const void * const p, const uint64_t)
{
  ctl().live.erase((char *)p + sizeof(Kokkos::Impl::SharedAllocationHeader));
}
inline void
start(int mode, int order, unsigned seed)
{
  Ctl & c = ctl();
  c.mode = mode;
  c.order = order;
  c.seed = seed;
  c.loops.clear();
  c.reds.clear();
  c.nloop = 0;
  Kokkos::Tools::Experimental::set_allocate_data_callback(on_alloc);
  Kokkos::Tools::Experimental::set_deallocate_data_callback(on_free);
}

template <class T, class V>
inline void
note_add(T * p, V v, int sign)
{
  Ctl & c = ctl();
  if (c.rec)
    c.adds.push_back({ (void *)p, sign * (double)v });
}

inline std::vector<long>
permutation(long n)
{
  Ctl &             c = ctl();
  std::vector<long> o(n);
  for (long i = 0; i < n; ++i)
    o[i] = i;
  if (c.order == 1)
    std::reverse(o.begin(), o.end());
  else if (c.order == 2)
  {
    std::mt19937 g(c.seed * 7919u + c.nloop);
    std::shuffle(o.begin(), o.end(), g);
  }
  else if (c.order == 3)
  {
    long              s = 3 + c.seed % 5, k = 0;
    std::vector<long> q;
    for (long r = 0; r < s; ++r)
      for (k = s - 1 - r; k < n; k += s)
        q.push_back(k);
    o = q;
  }
  return o;
}

inline std::string
nice(const char * t)
{
  int    st = 0;
  char * d = abi::__cxa_demangle(t, 0, 0, &st);
  std::string s = d ? d : t;
  free(d);
  std::string r;
  int         depth = 0;
  // drop namespaces, keep the first level of template arguments that are numbers
  size_t a = s.find('<');
  std::string head = s.substr(0, a), tail = a == std::string::npos ? "" : s.substr(a);
  size_t      q = head.rfind("::");
  if (q != std::string::npos)
    head = head.substr(q + 2);
  for (char ch : tail)
    if (isalnum((unsigned char)ch) || ch == ',' || ch == '<' || ch == '>' || ch == '_')
      r += ch;
  (void)depth;
  if (r.size() > 60)
    r = r.substr(0, 60);
  return head + r;
}

inline void
snapshot(std::vector<Reg> & R, bool post)
{
  for (auto & r : R)
  {
    auto & b = post ? r.post : r.pre;
    b.assign(r.p, r.p + r.n);
  }
}
inline void
restore(std::vector<Reg> & R, bool post)
{
  for (auto & r : R)
    memcpy(r.p, (post ? r.post : r.pre).data(), r.n);
}

// words of the tracked memory that differ from the reference copy
template <class Fn>
inline void
differences(std::vector<Reg> & R, bool post, Fn fn)
{
  for (size_t g = 0; g < R.size(); ++g)
  {
    const char * b = (post ? R[g].post : R[g].pre).data();
    const char * p = R[g].p;
    size_t       n = R[g].n, o = 0;
    while (o < n)
    {
      size_t m = std::min<size_t>(4096, n - o);
      if (memcmp(p + o, b + o, m))
        for (size_t w = o; w + 8 <= o + m; w += 8)
          if (memcmp(p + w, b + w, 8))
          {
            uint64_t v;
            memcpy(&v, p + w, 8);
            fn((int)g, w, v);
          }
      o += m;
    }
  }
}

template <class Call>
inline void
race(const std::string & name, long n, Call call, void * fobj, size_t fsz)
{
  Ctl &            c = ctl();
  Loop &           L = c.loops[name];
  std::vector<Reg> R, C;
  for (auto & x : c.live)
    R.push_back({ x.second.first, x.first, x.second.second & ~size_t(7), {}, {} });
  R.push_back({ "functor", (char *)fobj, fsz & ~size_t(7), {}, {} });
  {
    char * a = (char *)(((uintptr_t)&__data_start + 7) & ~uintptr_t(7));
    R.push_back({ "globals", a, size_t(&_end - a) & ~size_t(7), {}, {} });
  }
  snapshot(R, false);
  for (long i = 0; i < n; ++i)
    call(i);
  // regions the loop changes
  std::vector<char> touched(R.size(), 0);
  for (size_t g = 0; g < R.size(); ++g)
    touched[g] = memcmp(R[g].p, R[g].pre.data(), R[g].n) != 0;
  snapshot(R, true);
  restore(R, false);
  for (size_t g = 0; g < R.size(); ++g)
    if (touched[g] || R[g].name == "functor" || R[g].name == "globals")
      C.push_back(R[g]);
  std::vector<std::vector<W>>                                            Ws(n);
  std::vector<std::vector<std::pair<void *, double>>>                    As(n);
  std::unordered_map<uint64_t, std::vector<Shared::By>>                  who;
  auto key = [](int reg, size_t off) { return ((uint64_t)reg << 40) | off; };
  auto atomic_here = [&](char * p) {
    for (auto & a : c.adds)
      if ((char *)a.first == p)
        return true;
    return false;
  };
  for (long i = 0; i < n; ++i)
  {
    c.adds.clear();
    c.rec = true;
    call(i);
    c.rec = false;
    differences(C, false, [&](int g, size_t o, uint64_t v) {
      if (!atomic_here(C[g].p + o))
      {
        Ws[i].push_back({ g, o, v });
        who[key(g, o)].push_back({ i, 'w', v });
      }
      memcpy(C[g].p + o, C[g].pre.data() + o, 8);
    });
    As[i] = c.adds;
    std::set<std::pair<int, size_t>> once;
    for (auto & a : c.adds)
      for (size_t g = 0; g < C.size(); ++g)
        if ((char *)a.first >= C[g].p && (char *)a.first < C[g].p + C[g].n)
        {
          size_t o = (char *)a.first - C[g].p;
          if (once.insert({ (int)g, o }).second)
            who[key(g, o)].push_back({ i, 'a', 0 });
        }
    L.writes += Ws[i].size();
    L.adds += As[i].size();
  }
  for (auto & w : who)
    if (w.second.size() > 1)
    {
      bool alla = true, same = true;
      for (auto & b : w.second)
      {
        alla &= b.k == 'a';
        same &= b.k == 'w' && b.v == w.second[0].v;
      }
      bool ok = alla || same;
      if (ok ? L.nok++ < 2 : L.nbad++ < 4)
        L.shared.push_back({ C[w.first >> 40].name, (w.first & ((1ull << 40) - 1)) / 8, w.second });
    }
  restore(R, true);
  for (auto & r : C)
    r.post.assign(r.p, r.p + r.n);
  for (long i = 0; i < n; ++i)
  {
    std::map<std::pair<int, size_t>, uint64_t> own;
    for (auto & w : Ws[i])
    {
      memcpy(C[w.reg].p + w.off, C[w.reg].pre.data() + w.off, 8);
      own[{ w.reg, w.off }] = w.val;
    }
    for (auto & a : As[i]) // added to by this iteration only: as if it had not run
      for (size_t g = 0; g < C.size(); ++g)
        if ((char *)a.first >= C[g].p && (char *)a.first < C[g].p + C[g].n)
        {
          size_t o = (char *)a.first - C[g].p;
          if (who[key(g, o)].size() == 1)
            memcpy(C[g].p + o, C[g].pre.data() + o, 8);
        }
    c.adds.clear();
    c.rec = true;
    call(i);
    c.rec = false;
    long bad = -1, badoff = 0;
    for (auto & w : Ws[i])
    {
      uint64_t v;
      memcpy(&v, C[w.reg].p + w.off, 8);
      if (v != w.val)
      {
        bad = w.reg;
        badoff = w.off;
      }
    }
    differences(C, true, [&](int g, size_t o, uint64_t v) {
      if (!atomic_here(C[g].p + o) && !own.count({ g, o }))
      {
        bad = g;
        badoff = o;
      }
      memcpy(C[g].p + o, C[g].post.data() + o, 8);
    });
    if (c.adds.size() != As[i].size())
      bad = 0;
    else
      for (size_t k = 0; k < c.adds.size(); ++k)
        if (c.adds[k].first != As[i][k].first || memcmp(&c.adds[k].second, &As[i][k].second, 8))
        {
          bad = -2;
        }
    if (bad != -1 && L.dep.size() < 5)
      L.dep.push_back({ i, { bad >= 0 ? C[bad].name : "atomic", badoff / 8 } });
  }
  restore(R, true);
  L.runs++;
  L.n = std::max(L.n, n);
}

template <class Call>
inline void
run_for(const std::string & name, long n, Call call, void * fobj, size_t fsz)
{
  Ctl & c = ctl();
  c.nloop++;
  if (c.mode == 1)
    for (long i : permutation(n))
      call(i);
  else
    race(name, n, call, fobj, fsz);
}

template <class F>
struct Box // the functor in memory of its own, so that its bytes can be watched
{
  char * m;
  F *    f;
  size_t n;
  Box(const F & g)
  {
    n = (sizeof(F) + 7) & ~size_t(7);
    m = (char *)calloc(1, n + 64);
    f = new ((void *)(((uintptr_t)m + 63) & ~uintptr_t(63))) F(g);
  }
  ~Box()
  {
    f->~F();
    free(m);
  }
};

// ---- policies
template <class P>
struct Pol // RangePolicy
{
  long b, e;
  Pol(const P & p)
    : b(p.begin())
    , e(p.end())
  {}
  long size() const { return e > b ? e - b : 0; }
  template <class F, class... A>
  void operator()(const F & f, long i, A &... a) const
  {
    f((int)(b + i), a...);
  }
};
template <class... X>
struct Pol<Kokkos::MDRangePolicy<X...>>
{
  using P = Kokkos::MDRangePolicy<X...>;
  static constexpr int R = P::rank;
  long lo[R], ext[R];
  Pol(const P & p)
  {
    for (int r = 0; r < R; ++r)
    {
      lo[r] = p.m_lower[r];
      ext[r] = p.m_upper[r] > p.m_lower[r] ? p.m_upper[r] - p.m_lower[r] : 0;
    }
  }
  long size() const
  {
    long n = 1;
    for (int r = 0; r < R; ++r)
      n *= ext[r];
    return n;
  }
  template <class F, class... A>
  void operator()(const F & f, long i, A &... a) const
  {
    if constexpr (R == 2)
      f((int)(lo[0] + i % ext[0]), (int)(lo[1] + i / ext[0]), a...);
    else
      f((int)(lo[0] + i % ext[0]), (int)(lo[1] + (i / ext[0]) % ext[1]), (int)(lo[2] + i / (ext[0] * ext[1])), a...);
  }
};

template <class P, class F>
inline void
do_for(const P & policy, const F & f)
{
  Pol<P> pol(policy);
  Box<F> b(f);
  run_for(nice(typeid(F).name()), pol.size(), [&](long i) { pol(*b.f, i); }, b.f, b.n);
}

// a reduction seen as: identity, contribution of an iteration, join
template <class P, class F, class T, class Init, class Join>
inline T
do_reduce(const P & policy, const F & f, T, Init init, Join join)
{
  Ctl &  c = ctl();
  Pol<P> pol(policy);
  Box<F> b(f);
  long   n = pol.size();
  c.nloop++;
  if (c.mode == 1)
  {
    auto o = permutation(n);
    T    part[3];
    for (auto & x : part)
      init(x);
    for (long k = 0; k < n; ++k)
      pol(*b.f, o[k], part[c.order == 0 ? 0 : (k * 3 / std::max(n, 1L)) % 3]);
    int s = c.order == 1 ? 2 : 0;
    T   r;
    init(r);
    for (int k = 0; k < 3; ++k)
      join(r, part[(s + k) % 3]);
    return r;
  }
  Red R;
  R.name = nice(typeid(F).name());
  R.n = n;
  std::vector<Reg> G;
  for (auto & x : c.live)
    G.push_back({ x.second.first, x.first, x.second.second & ~size_t(7), {}, {} });
  G.push_back({ "functor", (char *)b.f, b.n & ~size_t(7), {}, {} });
  snapshot(G, false);
  T r;
  init(r);
  std::vector<T> v(n);
  for (long i = 0; i < n; ++i)
  {
    init(v[i]);
    pol(*b.f, i, v[i]);
    join(r, v[i]);
    R.contrib.push_back((double)v[i]);
  }
  T a0, mid = r, big = r;
  init(a0);
  mid = r / 2;
  big = r * 2 + 1;
  for (long i = 0; i < n; ++i)
    for (T a : { a0, mid, big })
    {
      T x = a, y = a;
      pol(*b.f, i, x);
      join(y, v[i]);
      if (memcmp(&x, &y, sizeof(T)) && !(x == y))
        R.notfold++;
    }
  differences(G, false, [&](int, size_t, uint64_t) { R.writes++; });
  R.result = (double)r;
  c.reds.push_back(R);
  return r;
}

inline void
report(FILE * o, const char * cid, int rank)
{
  Ctl & c = ctl();
  int   mode = c.mode;
  c.mode = 0;
  for (auto & x : c.loops)
  {
    Loop & L = x.second;
    fprintf(o,
            "{\"ev\":\"loop\",\"rank\":%d,\"id\":\"%s\",\"loop\":\"%s\",\"runs\":%ld,\"n\":%ld,\"writes\":%ld,\"adds\":%ld,\"shared\":[",
            rank, cid, x.first.c_str(), L.runs, L.n, L.writes, L.adds);
    for (size_t s = 0; s < L.shared.size(); ++s)
    {
      auto & S = L.shared[s];
      fprintf(o, "%s{\"reg\":\"%s\",\"off\":%zu,\"by\":[", s ? "," : "", S.reg.c_str(), S.off);
      std::vector<uint64_t> vals;
      for (size_t k = 0; k < S.by.size() && k < 8; ++k)
      {
        size_t v = std::find(vals.begin(), vals.end(), S.by[k].v) - vals.begin();
        if (v == vals.size())
          vals.push_back(S.by[k].v);
        fprintf(o, "%s{\"it\":%ld,\"k\":\"%c\",\"v\":%zu}", k ? "," : "", S.by[k].it, S.by[k].k, v);
      }
      fprintf(o, "]}");
    }
    fprintf(o, "],\"dep\":[");
    for (size_t s = 0; s < L.dep.size(); ++s)
      fprintf(o, "%s{\"it\":%ld,\"reg\":\"%s\",\"off\":%zu}", s ? "," : "", L.dep[s].first, L.dep[s].second.first.c_str(),
              L.dep[s].second.second);
    fprintf(o, "]}\n");
  }
  for (auto & r : c.reds)
  {
    // order-preserving integers
    std::vector<double> all = r.contrib;
    all.push_back(r.result);
    std::sort(all.begin(), all.end());
    all.erase(std::unique(all.begin(), all.end()), all.end());
    auto rk = [&](double v) { return long(std::lower_bound(all.begin(), all.end(), v) - all.begin()); };
    fprintf(o, "{\"ev\":\"reduce\",\"rank\":%d,\"id\":\"%s\",\"loop\":\"%s\",\"n\":%ld,\"notfold\":%ld,\"writes\":%ld,\"result\":%ld,\"contrib\":[",
            rank, cid, r.name.c_str(), r.n, r.notfold, r.writes, rk(r.result));
    for (size_t i = 0; i < r.contrib.size(); ++i)
      fprintf(o, "%s%ld", i ? "," : "", rk(r.contrib[i]));
    fprintf(o, "]}\n");
  }
  fflush(o);
  c.loops.clear();
  c.reds.clear();
  c.mode = mode;
}
} // namespace vts

namespace Kokkos
{
// ---- parallel_for
template <class P, class F>
inline void
vt_for3(const std::string & s, const P & p, const F & f)
{
  if constexpr (std::is_integral<P>::value)
    vt_for3(s, RangePolicy<>(0, p), f);
  else if (vts::ctl().mode == 0)
    parallel_for(s, p, f);
  else
    vts::do_for(p, f);
}
template <class P, class F>
inline void
vt_parallel_for(const char * s, const P & p, const F & f)
{
  vt_for3(s, p, f);
}
template <class P, class F>
inline void
vt_parallel_for(const std::string & s, const P & p, const F & f)
{
  vt_for3(s, p, f);
}
template <class P, class F>
inline void
vt_parallel_for(const P & p, const F & f)
{
  vt_for3("loop", p, f);
}
// ---- parallel_reduce
template <class P, class F, class R>
inline void
vt_reduce4(const std::string & s, const P & p, const F & f, R && r)
{
  using RR = typename std::decay<R>::type;
  if constexpr (std::is_integral<P>::value)
    vt_reduce4(s, RangePolicy<>(0, p), f, r);
  else if (vts::ctl().mode == 0)
    parallel_reduce(s, p, f, r);
  else if constexpr (std::is_arithmetic<RR>::value)
    r = vts::do_reduce(p, f, RR(), [&](RR & x) { f.init(x); }, [&](RR & x, const RR & y) { f.join(x, y); });
  else
  {
    using T = typename RR::value_type;
    T v = vts::do_reduce(p, f, T(), [&](T & x) { r.init(x); }, [&](T & x, const T & y) { r.join(x, y); });
    r.reference() = v;
  }
}
template <class P, class F, class R>
inline void
vt_parallel_reduce(const char * s, const P & p, const F & f, R && r)
{
  vt_reduce4(s, p, f, r);
}
template <class P, class F, class R>
inline void
vt_parallel_reduce(const std::string & s, const P & p, const F & f, R && r)
{
  vt_reduce4(s, p, f, r);
}
template <class P, class F, class R>
inline void
vt_parallel_reduce(const P & p, const F & f, R && r)
{
  vt_reduce4("reduce", p, f, r);
}
// ---- atomics
template <class T, class V>
inline void
vt_atomic_add(T * p, V v)
{
  vts::note_add((void *)p, v, 1);
  atomic_add(p, (T)v);
}
template <class T, class V>
inline void
vt_atomic_sub(T * p, V v)
{
  vts::note_add((void *)p, v, -1);
  atomic_sub(p, (T)v);
}
} // namespace Kokkos
#define parallel_for vt_parallel_for
#define parallel_reduce vt_parallel_reduce
#define atomic_add vt_atomic_add
#define atomic_sub vt_atomic_sub
#endif
