// compiled once per scheme with -DMC_FN=<name> -DMC_PROBLEM=<class>
#include <memory>
#include <mpi.h>
#include <omp.h>
#include <stdexcept>
#include "general_definitions.hpp"
#include "simulation/ompi/simulation_ompi_base.hpp"
#include "simulation/ompi/simulation_ompi.hpp"
#include "probe.h"
namespace sim {}
using namespace sim;
extern "C" void MC_FN(const std::string& input) {
    int provided;
    MPI_Init_thread(nullptr, nullptr, MPI_THREAD_MULTIPLE, &provided);
#ifdef MC_PETSC
    PetscInitialize(nullptr, nullptr, (char*)nullptr, nullptr);
#endif
    {
        std::unique_ptr<OMPISimulationBase> s = std::make_unique<OMPISimulation<Probe<MC_PROBLEM>>>(input);
        s->Run();
        report_norm(*s);
        MPI_Barrier(MPI_COMM_WORLD);
        s->Finalize();
    }
#ifdef MC_PETSC
    PetscFinalize();
#endif
    MPI_Finalize();
}
