#include <hpx/hpx.hpp>
#include <hpx/include/async.hpp>
#include "variants/index_iterator.hpp"
#include "iter.inc"
SIM_SCENARIO(iterv) {
  drv::capture_on();
  auto w = drv::cluster(1, 5, 0);
  switch (sim_choose(SIM_K_CFG, 8)) { case 0: case 1: iterate_run<1>(w); break; case 2: case 3: iterate_run<2>(w); break; case 4: iterate_run<4>(w); break; default: iterate_run<3>(w); }
}
