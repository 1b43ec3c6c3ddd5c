// compiled once per scheme with -DMC_FN=<name> -DMC_PROBLEM=<class>
#include <memory>
#include <stdexcept>
#include "simulation/serial/simulation_base.hpp"
#include "simulation/serial/simulation.hpp"
#include "probe.h"
namespace sim {}
using namespace sim;
extern "C" void MC_FN(const std::string& input) {
    std::unique_ptr<Serial::SimulationBase> s = std::make_unique<Serial::Simulation<Probe<MC_PROBLEM>>>(input);
    s->Run();
    report_norm(*s);
    s->Finalize();
}
