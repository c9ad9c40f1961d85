// the program run_simulation, its main() renamed
#include <csignal>
#include <memory>
#include "core/VioManager.h"
#include "sim/Simulator.h"
#include "utils/colors.h"
#include "utils/dataset_reader.h"
#include "utils/print.h"
#include "utils/sensor_data.h"
#define main vp_run_simulation_main
#include "run_simulation.cpp"
