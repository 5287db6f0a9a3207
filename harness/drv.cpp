// Trace recorder / replayer for the finite-volume and spectral-difference
// solvers of ppkMHD.  Reads a script of commands, drives the real solver
// objects through their public interface, writes one JSON line per event
// (per rank) and the cell arrays into a per rank binary file.
//
//   drv SCRIPT OUTPREFIX
//
// macros: USE_MPI (flavour), VT_SDM (list of X(dim,N) to link), VT_MUSCL
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

#include "shared/kokkos_shared.h"
#include "shared/real_type.h"
#include "shared/HydroParams.h"
#include "shared/SolverBase.h"
#include "utils/config/ConfigMap.h"
#ifndef VT_SDM
#  include "muscl/SolverHydroMuscl.h"
#  include "muscl/SolverMHDMuscl.h"
#  include "shared/SolverFactory.h"
#else
#  include "sdm/SolverHydroSDM.h"
#  include "sdm/SDM_Interpolate_Functors.h"
#endif
#ifdef USE_HDF5
#  include "utils/io/IO_HDF5.h"
#endif
#ifdef USE_MPI
#  include "utils/mpiUtils/GlobalMpiSession.h"
#  include <mpi.h>
#endif

using namespace ppkMHD;
#ifndef VT_SDM
using namespace ppkMHD::muscl;
#endif

static int   g_rank = 0, g_size = 1;
static FILE *g_ev = nullptr, *g_bin = nullptr;
static long  g_off = 0;

static void
barrier()
{
#ifdef USE_MPI
  MPI_Barrier(MPI_COMM_WORLD);
#endif
}

static std::string
num(double x)
{
  char b[64];
  if (std::isnan(x))
    return "\"nan\"";
  if (std::isinf(x))
    return x > 0 ? "\"inf\"" : "\"-inf\"";
  snprintf(b, sizeof b, "%.17g", x);
  return b;
}

static std::string
esc(const std::string & s)
{
  std::string o = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += c;
    }
    else if (c < 32)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else
      o += c;
  }
  return o + "\"";
}

// ------------------------------------------------------------- adapters
struct Ad
{
  SolverBase * s = nullptr;
  virtual ~Ad() {}
  virtual void               dims(int d[4]) = 0; // isize jsize ksize nv
  virtual double &           at(int buf, int i, int j, int k, int v) = 0;
  virtual int                newest() = 0;
  virtual void               bc(int buf) = 0;
  virtual void               sync(int from) = 0;   // copy buffer to all others
  virtual double             dtlocal() = 0;
  virtual bool               grav(int i, int j, int k, double g[3], bool write) { return false; }
  virtual bool               extra(const std::string &, std::istringstream &) { return false; }
  virtual double             ext(const std::string &, int i, int j, int k, int v) { return 0; }
};

template <class S, int dim>
struct AdM : Ad
{
  S * p;
  AdM(S * q)
    : p(q)
  {
    s = q;
  }
  auto &
  arr(int b)
  {
#ifdef VT_SDM
    return p->U;
#else
    return b == 0 ? p->U : p->U2;
#endif
  }
  void
  dims(int d[4])
  {
    d[0] = p->U.extent(0);
    d[1] = p->U.extent(1);
    if constexpr (dim == 2)
    {
      d[2] = 1;
      d[3] = p->U.extent(2);
    }
    else
    {
      d[2] = p->U.extent(2);
      d[3] = p->U.extent(3);
    }
  }
  double &
  at(int b, int i, int j, int k, int v)
  {
    if constexpr (dim == 2)
      return arr(b)(i, j, v);
    else
      return arr(b)(i, j, k, v);
  }
  int
  newest()
  {
    return p->m_iteration % 2 == 0 ? 0 : 1;
  }
  void
  bc(int b)
  {
    p->make_boundaries(arr(b));
  }
  void
  sync(int from)
  {
    Kokkos::deep_copy(arr(1 - from), arr(from));
  }
  double
  dtlocal()
  {
    return p->compute_dt_local();
  }
#ifndef VT_SDM
  bool
  grav(int i, int j, int k, double g[3], bool write)
  {
    if constexpr (std::is_same<S, SolverHydroMuscl<2>>::value)
    {
      if (p->gravity.extent(0) == 0)
        return false;
      for (int d = 0; d < 2; ++d)
        if (write)
          p->gravity(i, j, d) = g[d];
        else
          g[d] = p->gravity(i, j, d);
      return true;
    }
    if constexpr (std::is_same<S, SolverHydroMuscl<3>>::value)
    {
      if (p->gravity.extent(0) == 0)
        return false;
      for (int d = 0; d < 3; ++d)
        if (write)
          p->gravity(i, j, k, d) = g[d];
        else
          g[d] = p->gravity(i, j, k, d);
      return true;
    }
    return false;
  }
#endif
};

#ifdef VT_SDM
namespace ppkMHD
{
namespace sdm
{
#  define X(d, n) extern template class SolverHydroSDM<d, n>;
VT_SDM
} // namespace sdm
} // namespace ppkMHD
template <int dim, int N>
struct AdS : AdM<sdm::SolverHydroSDM<dim, N>, dim>
{
  using S = sdm::SolverHydroSDM<dim, N>;
  using B = AdM<S, dim>;
  AdS(S * q)
    : B(q)
  {}
  double &
  at(int, int i, int j, int k, int v)
  {
    if constexpr (dim == 2)
      return B::p->U(i, j, v);
    else
      return B::p->U(i, j, k, v);
  }
  int
  newest()
  {
    return 0;
  }
  void
  bc(int)
  {
    B::p->make_boundaries(B::p->U);
  }
  void
  sync(int)
  {}
  bool
  extra(const std::string & c, std::istringstream & is)
  {
    if (c == "limit")
      B::p->apply_limiting(B::p->U);
    else if (c == "positivity")
      B::p->apply_positivity_preserving(B::p->U);
    else if (c == "prestep")
      B::p->apply_pre_step_computation(B::p->U);
    else if (c == "timeint")
    {
      double dt;
      is >> dt;
      B::p->time_integration(dt);
    }
    else if (c == "fdiv")
    {
      double dt;
      is >> dt;
      B::p->compute_fluxes_divergence(B::p->U, B::p->Uaux, dt);
    }
    else
      return false;
    return true;
  }
  double
  ext(const std::string & n, int i, int j, int k, int v)
  {
    auto & A = (n == "Uaux") ? B::p->Uaux : B::p->Uaverage;
    if constexpr (dim == 2)
      return A(i, j, v);
    else
      return A(i, j, k, v);
  }
};
#endif

static Ad *
adapt(SolverBase * s)
{
#ifndef VT_SDM
  if (auto * p = dynamic_cast<SolverHydroMuscl<2> *>(s))
    return new AdM<SolverHydroMuscl<2>, 2>(p);
  if (auto * p = dynamic_cast<SolverHydroMuscl<3> *>(s))
    return new AdM<SolverHydroMuscl<3>, 3>(p);
  if (auto * p = dynamic_cast<SolverMHDMuscl<2> *>(s))
    return new AdM<SolverMHDMuscl<2>, 2>(p);
  if (auto * p = dynamic_cast<SolverMHDMuscl<3> *>(s))
    return new AdM<SolverMHDMuscl<3>, 3>(p);
#else
#  undef X
#  define X(d, n)                                                      \
    if (auto * p = dynamic_cast<sdm::SolverHydroSDM<d, n> *>(s))       \
      return new AdS<d, n>(p);
  VT_SDM
#endif
  return nullptr;
}

static SolverBase *
make(const std::string & name, int dim, int N, HydroParams & P, ConfigMap & C)
{
#ifndef VT_SDM
  return SolverFactory::Instance().create(name, P, C);
#else
  SolverBase * s = nullptr;
#  undef X
#  define X(d, n)                                     \
    if (dim == d && N == n)                           \
      s = sdm::SolverHydroSDM<d, n>::create(P, C);
  VT_SDM
  if (s)
    s->init_io();
  return s;
#endif
}

// ------------------------------------------------------------- state
static ConfigMap *   C = nullptr;
static HydroParams * P = nullptr;
static Ad *          A = nullptr;
static int           g_sdmN = 0;

static void
origin(int o[3])
{
  o[0] = o[1] = o[2] = 0;
#ifdef USE_MPI
  o[0] = P->myMpiPos[0] * P->nx;
  o[1] = P->myMpiPos[1] * P->ny;
  o[2] = P->dimType == TWO_D ? 0 : P->myMpiPos[2] * P->nz;
#endif
}

static int
solver_dim()
{
  return P->dimType == TWO_D ? 2 : 3;
}

static void
emit_params(const char * ev)
{
  std::ostringstream o;
  auto &             p = *P;
  o << "{\"ev\":" << esc(ev) << ",\"rank\":" << g_rank << ",\"dim\":" << solver_dim()
    << ",\"nx\":" << p.nx << ",\"ny\":" << p.ny << ",\"nz\":" << p.nz << ",\"gw\":" << p.ghostWidth
    << ",\"nbvar\":" << p.nbvar << ",\"mhd\":" << (p.mhdEnabled ? 1 : 0)
    << ",\"isize\":" << p.isize << ",\"jsize\":" << p.jsize << ",\"ksize\":" << p.ksize
    << ",\"imin\":" << p.imin << ",\"imax\":" << p.imax << ",\"jmin\":" << p.jmin
    << ",\"jmax\":" << p.jmax << ",\"kmin\":" << p.kmin << ",\"kmax\":" << p.kmax
    << ",\"dx\":" << num(p.dx) << ",\"dy\":" << num(p.dy) << ",\"dz\":" << num(p.dz)
    << ",\"xmin\":" << num(p.xmin) << ",\"xmax\":" << num(p.xmax) << ",\"ymin\":" << num(p.ymin)
    << ",\"ymax\":" << num(p.ymax) << ",\"zmin\":" << num(p.zmin) << ",\"zmax\":" << num(p.zmax)
    << ",\"bc\":[" << (int)p.boundary_type_xmin << "," << (int)p.boundary_type_xmax << ","
    << (int)p.boundary_type_ymin << "," << (int)p.boundary_type_ymax << ","
    << (int)p.boundary_type_zmin << "," << (int)p.boundary_type_zmax << "]"
    << ",\"nstepmax\":" << p.nStepmax << ",\"tend\":" << num(p.tEnd)
    << ",\"noutput\":" << p.nOutput << ",\"nlog\":" << p.nlog
    << ",\"enable_output\":" << (p.enableOutput ? 1 : 0)
    << ",\"gamma0\":" << num(p.settings.gamma0) << ",\"gamma6\":" << num(p.settings.gamma6)
    << ",\"cfl\":" << num(p.settings.cfl) << ",\"slope_type\":" << num(p.settings.slope_type)
    << ",\"iorder\":" << p.settings.iorder << ",\"smallr\":" << num(p.settings.smallr)
    << ",\"smallc\":" << num(p.settings.smallc) << ",\"smallp\":" << num(p.settings.smallp)
    << ",\"smallpp\":" << num(p.settings.smallpp) << ",\"cIso\":" << num(p.settings.cIso)
    << ",\"cp\":" << num(p.settings.cp) << ",\"mu\":" << num(p.settings.mu)
    << ",\"kappa\":" << num(p.settings.kappa) << ",\"niter\":" << p.niter_riemann
    << ",\"riemann\":" << p.riemannSolverType << ",\"impl\":" << p.implementationVersion;
#ifdef USE_MPI
  o << ",\"mx\":" << p.mx << ",\"my\":" << p.my << ",\"mz\":" << p.mz << ",\"myrank\":" << p.myRank
    << ",\"nprocs\":" << p.nProcs << ",\"nneigh\":" << p.nNeighbors << ",\"pos\":["
    << p.myMpiPos[0] << "," << p.myMpiPos[1] << "," << p.myMpiPos[2] << "],\"nrank\":[";
  for (int i = 0; i < 6; ++i)
    o << (i ? "," : "") << p.neighborsRank[i];
  o << "],\"nbc\":[";
  for (int i = 0; i < 6; ++i)
    o << (i ? "," : "") << (int)p.neighborsBC[i];
  o << "]";
#endif
  o << "}\n";
  fputs(o.str().c_str(), g_ev);
  fflush(g_ev);
}

static void
emit_state(const char * ev)
{
  SolverBase * s = A->s;
  fprintf(g_ev,
          "{\"ev\":\"%s\",\"rank\":%d,\"it\":%d,\"t\":%s,\"dt\":%s,\"saved\":%d,\"fin\":%d,\"tend\":%s,\"cfl\":%s}\n",
          ev, g_rank, s->m_iteration, num(s->m_t).c_str(), num(s->m_dt).c_str(), s->m_times_saved,
          s->finished() ? 1 : 0, num(s->m_tEnd).c_str(), num(s->m_cfl).c_str());
  fflush(g_ev);
}

// dump a buffer: full local array with ghosts, order k,j,i,v (v fastest)
static void
dump(const std::string & tag, int buf, const std::string & extname = "", int nvext = 0)
{
  int d[4];
  A->dims(d);
  int nv = nvext ? nvext : d[3];
  std::vector<double> w;
  w.reserve((size_t)d[0] * d[1] * d[2] * nv);
  for (int k = 0; k < d[2]; ++k)
    for (int j = 0; j < d[1]; ++j)
      for (int i = 0; i < d[0]; ++i)
        for (int v = 0; v < nv; ++v)
          w.push_back(extname.empty() ? A->at(buf, i, j, k, v) : A->ext(extname, i, j, k, v));
  fwrite(w.data(), sizeof(double), w.size(), g_bin);
  fflush(g_bin);
  int o[3];
  origin(o);
  fprintf(g_ev,
          "{\"ev\":\"dump\",\"tag\":%s,\"rank\":%d,\"off\":%ld,\"shape\":[%d,%d,%d,%d],\"gw\":%d,"
          "\"org\":[%d,%d,%d],\"it\":%d,\"t\":%s,\"dt\":%s}\n",
          esc(tag).c_str(), g_rank, g_off, d[2], d[1], d[0], nv, P->ghostWidth, o[0], o[1], o[2],
          A->s->m_iteration, num(A->s->m_t).c_str(), num(A->s->m_dt).c_str());
  fflush(g_ev);
  g_off += w.size();
}

// bit pattern of the newest state (interior cells) and of the clock
static void
hash(const std::string & tag)
{
  int d[4];
  A->dims(d);
  int      g = P->ghostWidth, g2 = d[2] > 1 ? g : 0, b = A->newest();
  uint64_t h = 1469598103934665603ull;
  for (int k = g2; k < d[2] - g2; ++k)
    for (int j = g; j < d[1] - g; ++j)
      for (int i = g; i < d[0] - g; ++i)
        for (int v = 0; v < d[3]; ++v)
        {
          double   x = A->at(b, i, j, k, v) + 0.0;
          uint64_t u;
          memcpy(&u, &x, 8);
          for (int s = 0; s < 64; s += 8)
            h = (h ^ ((u >> s) & 255)) * 1099511628211ull;
        }
  double   t = A->s->m_t, dt = A->s->m_dt;
  uint64_t ut, ud;
  memcpy(&ut, &t, 8);
  memcpy(&ud, &dt, 8);
  fprintf(g_ev, "{\"ev\":\"hash\",\"tag\":%s,\"rank\":%d,\"it\":%d,\"t\":\"%016lx\",\"dt\":\"%016lx\",\"h\":\"%016lx\"}\n", esc(tag).c_str(),
          g_rank, A->s->m_iteration, (unsigned long)ut, (unsigned long)ud, (unsigned long)h);
  fflush(g_ev);
}

static std::vector<double>
readraw(const std::string & f)
{
  std::ifstream in(f, std::ios::binary);
  if (!in)
  {
    fprintf(stderr, "drv: cannot read %s\n", f.c_str());
    exit(3);
  }
  in.seekg(0, std::ios::end);
  std::vector<double> w(in.tellg() / sizeof(double));
  in.seekg(0);
  in.read((char *)w.data(), w.size() * sizeof(double));
  return w;
}

// set interior from a global array [gnz][gny][gnx][nv]; ghosts get `fill`
static void
setglobal(const std::string & f, double fill, bool grav)
{
  std::vector<double> w = readraw(f);
  int                 d[4], o[3];
  A->dims(d);
  origin(o);
  int gw = P->ghostWidth, dim = solver_dim();
  int gx = P->nx, gy = P->ny, gz = P->nz;
  auto gper = [&](int a) {
    return (a == 0 ? P->boundary_type_xmin : a == 1 ? P->boundary_type_ymin : P->boundary_type_zmin) == BC_PERIODIC;
  };
#ifdef USE_MPI
  gx *= P->mx;
  gy *= P->my;
  if (dim == 3)
    gz *= P->mz;
#endif
  if (dim == 2)
    gz = 1;
  int nv = grav ? dim : d[3];
  if (w.size() != (size_t)gx * gy * gz * nv)
  {
    fprintf(stderr, "drv: size mismatch %zu vs %d*%d*%d*%d\n", w.size(), gx, gy, gz, nv);
    exit(3);
  }
  int buf = A->newest();
  for (int k = 0; k < d[2]; ++k)
    for (int j = 0; j < d[1]; ++j)
      for (int i = 0; i < d[0]; ++i)
      {
        int  I = i - gw + o[0], J = j - gw + o[1], K = dim == 3 ? k - gw + o[2] : 0;
        bool in = i >= gw && i < d[0] - gw && j >= gw && j < d[1] - gw &&
                  (dim == 2 || (k >= gw && k < d[2] - gw));
        if (grav)
        {
          // gravity: ghosts take the periodic or the clamped value
          auto wrap = [](int x, int n, bool per) { return per ? (x % n + n) % n : std::min(std::max(x, 0), n - 1); };
          int  I2 = wrap(I, gx, gper(0)), J2 = wrap(J, gy, gper(1)), K2 = wrap(K, gz, gper(2));
          double g[3] = { 0, 0, 0 };
          for (int v = 0; v < nv; ++v)
            g[v] = w[(((size_t)K2 * gy + J2) * gx + I2) * nv + v];
          A->grav(i, j, k, g, true);
        }
        else
          for (int v = 0; v < nv; ++v)
            A->at(buf, i, j, k, v) = in ? w[(((size_t)K * gy + J) * gx + I) * nv + v] : fill;
      }
}

static void
drop()
{
  if (A)
  {
    delete A->s;
    delete A;
    A = nullptr;
  }
  delete P;
  P = nullptr;
  delete C;
  C = nullptr;
}

static int
run(const char * script)
{
  std::ifstream in(script);
  std::string   line;
  while (std::getline(in, line))
  {
    std::istringstream is(line);
    std::string        c;
    is >> c;
    if (c.empty() || c[0] == '#')
      continue;
    if (c == "case")
    {
      drop();
      std::string id;
      is >> id;
      barrier();
      fprintf(g_ev, "{\"ev\":\"case\",\"id\":%s,\"rank\":%d,\"np\":%d}\n", esc(id).c_str(), g_rank, g_size);
      fflush(g_ev);
    }
    else if (c == "ini")
    {
      std::string f;
      is >> f;
      C = new ConfigMap(broadcast_parameters(f));
    }
    else if (c == "params")
    {
      P = new HydroParams();
      P->setup(*C);
      emit_params("params");
    }
    else if (c == "new")
    {
      int dim = 2, N = 0;
      is >> dim >> N;
      g_sdmN = N;
      if (!P)
      {
        P = new HydroParams();
        P->setup(*C);
      }
      SolverBase * s = make(C->getString("run", "solver_name", "Unknown"), dim, N, *P, *C);
      A = s ? adapt(s) : nullptr;
      if (!A)
      {
        fprintf(stderr, "drv: no solver\n");
        exit(3);
      }
      emit_state("new");
    }
#ifdef VT_SCHED
    else if (c == "sched")
    {
      int mode, order;
      unsigned seed;
      is >> mode >> order >> seed;
      vts::start(mode, order, seed);
    }
    else if (c == "schedreport")
    {
      std::string id;
      is >> id;
      vts::report(g_ev, id.c_str(), g_rank);
    }
#endif
    else if (c == "hash")
    {
      std::string tag;
      is >> tag;
      hash(tag);
    }
    else if (c == "set" || c == "setnb" || c == "gravity")
    {
      std::string f;
      double      fill = 0;
      is >> f >> fill;
      setglobal(f, fill, c == "gravity");
      if (c == "set")
      {
        A->bc(A->newest());
        A->sync(A->newest());
        A->s->compute_dt();
      }
      if (c == "setnb")
        A->sync(A->newest());
    }
    else if (c == "setghost" || c == "setother") // overwrite the ghosts of the newest buffer / the whole other one
    {
      std::vector<double> f;
      double              x;
      while (is >> x)
        f.push_back(x);
      bool gh = c == "setghost";
      int  d[4], gw = P->ghostWidth, b = gh ? A->newest() : 1 - A->newest();
      A->dims(d);
      for (int k = 0; k < d[2]; ++k)
        for (int j = 0; j < d[1]; ++j)
          for (int i = 0; i < d[0]; ++i)
            if (!gh || i < gw || i >= d[0] - gw || j < gw || j >= d[1] - gw ||
                (solver_dim() == 3 && (k < gw || k >= d[2] - gw)))
              for (int v = 0; v < d[3]; ++v)
                A->at(b, i, j, k, v) = f[v * f.size() / d[3]];
    }
    else if (c == "vars") // override clock: t tend
    {
      double t, te;
      is >> t >> te;
      A->s->m_t = t;
      A->s->m_tEnd = te;
    }
    else if (c == "bc")
      A->bc(A->newest());
    else if (c == "dt")
    {
      double l = A->dtlocal();
      A->s->compute_dt();
      fprintf(g_ev, "{\"ev\":\"dt\",\"rank\":%d,\"local\":%s,\"dt\":%s,\"t\":%s,\"tend\":%s,\"it\":%d}\n", g_rank,
              num(l).c_str(), num(A->s->m_dt).c_str(), num(A->s->m_t).c_str(),
              num(A->s->m_tEnd).c_str(), A->s->m_iteration);
      fflush(g_ev);
    }
    else if (c == "step")
    {
      int         n = 1, every = 0;
      std::string tag = "s";
      is >> n >> every >> tag;
      for (int i = 0; i < n; ++i)
      {
        A->s->next_iteration();
        emit_state("step");
        if (every > 0 && (i + 1) % every == 0)
          dump(tag + std::to_string(A->s->m_iteration), A->newest());
      }
    }
    else if (c == "run") // like main's loop
    {
      int         every = 0, max = 1000000;
      std::string tag = "s";
      is >> every >> max >> tag;
      int n = 0;
      emit_state("begin");
      while (!A->s->finished() && n < max)
      {
        A->s->next_iteration();
        ++n;
        emit_state("step");
        if (every > 0 && n % every == 0)
          dump(tag + std::to_string(A->s->m_iteration), A->newest());
      }
      emit_state("end");
    }
    else if (c == "dump")
    {
      std::string tag;
      is >> tag;
      dump(tag, A->newest());
    }
    else if (c == "dumpext")
    {
      std::string tag, nm;
      int         nv;
      is >> tag >> nm >> nv;
      dump(tag, 0, nm, nv);
    }
    else if (c == "dumpgrav")
    {
      std::string tag;
      is >> tag;
      int d[4];
      A->dims(d);
      int                 dim = solver_dim();
      std::vector<double> w;
      for (int k = 0; k < d[2]; ++k)
        for (int j = 0; j < d[1]; ++j)
          for (int i = 0; i < d[0]; ++i)
          {
            double g[3] = { 0, 0, 0 };
            A->grav(i, j, k, g, false);
            for (int v = 0; v < dim; ++v)
              w.push_back(g[v]);
          }
      fwrite(w.data(), sizeof(double), w.size(), g_bin);
      fflush(g_bin);
      int o[3];
      origin(o);
      fprintf(g_ev,
              "{\"ev\":\"dump\",\"tag\":%s,\"rank\":%d,\"off\":%ld,\"shape\":[%d,%d,%d,%d],\"gw\":%d,"
              "\"org\":[%d,%d,%d],\"it\":%d,\"t\":0,\"dt\":0}\n",
              esc(tag).c_str(), g_rank, g_off, d[2], d[1], d[0], dim, P->ghostWidth, o[0], o[1], o[2],
              A->s->m_iteration);
      fflush(g_ev);
      g_off += w.size();
    }
    else if (c == "state")
      emit_state("state");
    else if (c == "save")
    {
      A->s->save_solution();
      emit_state("saved");
    }
    else if (c == "should")
    {
      fprintf(g_ev, "{\"ev\":\"should\",\"rank\":%d,\"v\":%d}\n", g_rank, A->s->should_save_solution() ? 1 : 0);
      fflush(g_ev);
    }
    else if (c == "get") // get type section key default
    {
      std::string ty, se, ke, de;
      is >> ty >> se >> ke;
      std::getline(is, de);
      if (!de.empty())
        de.erase(0, 1);
      std::string v;
      if (ty == "string")
        v = esc(C->getString(se, ke, de));
      else if (ty == "int")
        v = std::to_string(C->getInteger(se, ke, atol(de.c_str())));
      else if (ty == "float")
        v = num(C->getFloat(se, ke, (float)atof(de.c_str())));
      else if (ty == "bool")
        v = C->getBool(se, ke, de == "1") ? "1" : "0";
      fprintf(g_ev, "{\"ev\":\"get\",\"rank\":%d,\"type\":%s,\"sec\":%s,\"key\":%s,\"v\":%s}\n", g_rank,
              esc(ty).c_str(), esc(se).c_str(), esc(ke).c_str(), v.c_str());
      fflush(g_ev);
    }
    else if (c == "gets") // answers to the queries of a file, one a line: type sec key default, separated by 0x1f
    {
      std::string f, how, q;
      is >> f >> how;
      std::ifstream fi(f);
      std::string   o;
      while (std::getline(fi, q))
      {
        std::string        ty, se, ke, de;
        std::istringstream ls(q);
        std::getline(ls, ty, '\x1f');
        std::getline(ls, se, '\x1f');
        std::getline(ls, ke, '\x1f');
        std::getline(ls, de, '\x1f');
        std::string v;
        if (ty == "string")
          v = esc(C->getString(se, ke, de));
        else if (ty == "int")
          v = std::to_string(C->getInteger(se, ke, atol(de.c_str())));
        else if (ty == "float")
          v = num(C->getFloat(se, ke, (float)atof(de.c_str())));
        else
          v = C->getBool(se, ke, de == "1") ? "1" : "0";
        o += (o.empty() ? "" : ",") + v;
      }
      fprintf(g_ev, "{\"ev\":\"gets\",\"rank\":%d,\"how\":\"%s\",\"err\":%d,\"a\":[%s]}\n", g_rank, how.c_str(), C->ParseError(), o.c_str());
      fflush(g_ev);
    }
    else if (c == "iniread") // file constructor and buffer constructor, error code
    {
      std::string f;
      is >> f;
      delete C;
      C = new ConfigMap(f);
      fprintf(g_ev, "{\"ev\":\"parse\",\"rank\":%d,\"how\":\"file\",\"err\":%d}\n", g_rank, C->ParseError());
      fflush(g_ev);
    }
    else if (c == "inibuf")
    {
      std::string f;
      is >> f;
      delete C;
      std::ifstream      fi(f, std::ios::binary);
      std::ostringstream ss;
      ss << fi.rdbuf();
      std::string s = ss.str();
      // no terminating zero: what follows the document must not be read
      const char * after = "9\n[s]\nafter=1\n";
      char *       b = (char *)malloc(s.size() + strlen(after) + 1);
      memcpy(b, s.data(), s.size());
      strcpy(b + s.size(), after);
      C = new ConfigMap(b, (int)s.size());
      free(b);
      fprintf(g_ev, "{\"ev\":\"parse\",\"rank\":%d,\"how\":\"buffer\",\"err\":%d}\n", g_rank, C->ParseError());
      fflush(g_ev);
    }
    else if (c == "inibcast")
    {
      std::string f;
      is >> f;
      delete C;
      C = new ConfigMap(broadcast_parameters(f));
      fprintf(g_ev, "{\"ev\":\"parse\",\"rank\":%d,\"how\":\"bcast\",\"err\":%d}\n", g_rank, C->ParseError());
      fflush(g_ev);
    }
    else if (A && A->extra(c, is))
    {
    }
    else
    {
      fprintf(stderr, "drv: bad command %s\n", line.c_str());
      exit(3);
    }
  }
  drop();
  return 0;
}

int
main(int argc, char * argv[])
{
#ifdef USE_MPI
  hydroSimu::GlobalMpiSession mpiSession(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &g_rank);
  MPI_Comm_size(MPI_COMM_WORLD, &g_size);
#endif
  Kokkos::initialize(argc, argv);
  {
    if (argc < 3)
      return 3;
    std::string o = std::string(argv[2]) + ".r" + std::to_string(g_rank);
    g_ev = fopen((o + ".ndjson").c_str(), "w");
    g_bin = fopen((o + ".bin").c_str(), "wb");
    if (!g_ev || !g_bin)
      return 3;
    run(argv[1]);
    fprintf(g_ev, "{\"ev\":\"done\",\"rank\":%d}\n", g_rank);
    fclose(g_ev);
    fclose(g_bin);
  }
  Kokkos::finalize();
  return 0;
}
