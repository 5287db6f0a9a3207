// explicit instantiation of one spectral-difference solver
#include "shared/kokkos_shared.h"
#include "shared/real_type.h"
#include "sdm/SolverHydroSDM.h"
namespace ppkMHD
{
namespace sdm
{
template class SolverHydroSDM<VD, VN>;
}
} // namespace ppkMHD
