// VT-FLAVOUR: serial
// Calls the Riemann solvers of the tree for planted states.
//   t_riemann SCRIPT OUT
// script lines:  ini FILE | h2 l[4] r[4] | h3 l[5] r[5] | m l[8] r[8] | ex|ey|ez rt[8] lt[8] rb[8] lb[8]
// numbers are hexadecimal floats; each call appends one line of hexadecimal floats to OUT
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include "shared/kokkos_shared.h"
#include "shared/real_type.h"
#include "shared/HydroParams.h"
#include "shared/HydroState.h"
#include "shared/RiemannSolvers.h"
#include "shared/RiemannSolvers_MHD.h"
#include "utils/config/ConfigMap.h"

using namespace ppkMHD;

static double
num(std::istringstream & s)
{
  std::string t;
  s >> t;
  return strtod(t.c_str(), nullptr);
}

template <class S, int n>
static S
state(std::istringstream & s)
{
  S q;
  for (int i = 0; i < n; ++i)
    q[i] = num(s);
  return q;
}

template <class S, int n>
static void
out(FILE * f, const S & q)
{
  for (int i = 0; i < n; ++i)
    fprintf(f, "%a ", (double)q[i]);
  fprintf(f, "\n");
}

int
main(int argc, char ** argv)
{
  Kokkos::initialize(argc, argv);
  {
    std::ifstream in(argv[1]);
    FILE *        f = fopen(argv[2], "w");
    HydroParams   params;
    std::string   line, cmd;
    while (std::getline(in, line))
    {
      std::istringstream s(line);
      s >> cmd;
      if (cmd == "ini")
      {
        std::string p;
        s >> p;
        ConfigMap config(p);
        params = HydroParams();
        params.setup(config);
      }
      else if (cmd == "h2")
      {
        HydroState2d l = state<HydroState2d, 4>(s), r = state<HydroState2d, 4>(s), g, x;
        for (int i = 0; i < 4; ++i)
          x[i] = g[i] = 0;
        riemann_hydro(l, r, g, x, params);
        out<HydroState2d, 4>(f, x);
      }
      else if (cmd == "h3")
      {
        HydroState3d l = state<HydroState3d, 5>(s), r = state<HydroState3d, 5>(s), g, x;
        for (int i = 0; i < 5; ++i)
          x[i] = g[i] = 0;
        riemann_hydro(l, r, g, x, params);
        out<HydroState3d, 5>(f, x);
      }
      else if (cmd == "m")
      {
        MHDState l = state<MHDState, 8>(s), r = state<MHDState, 8>(s), x;
        for (int i = 0; i < 8; ++i)
          x[i] = 0;
        riemann_mhd(l, r, x, params);
        out<MHDState, 8>(f, x);
      }
      else if (cmd[0] == 'e')
      {
        MHDState q[4];
        const int at[4] = { IRT, ILT, IRB, ILB };
        for (int i = 0; i < 4; ++i)
          q[at[i]] = state<MHDState, 8>(s);
        double e = cmd == "ex"   ? compute_emf<EMFX>(q, params)
                   : cmd == "ey" ? compute_emf<EMFY>(q, params)
                                 : compute_emf<EMFZ>(q, params);
        fprintf(f, "%a\n", e);
      }
      fflush(f);
    }
    fclose(f);
  }
  Kokkos::finalize();
  return 0;
}
