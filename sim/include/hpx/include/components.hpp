#pragma once
#include <hpx/sim_hpx.hpp>
