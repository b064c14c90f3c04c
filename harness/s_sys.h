// Shared by the sequential harnesses that run sensors and generators.
#pragma once
#include <seq.h>
#include <usml/beampatterns/beampatterns.h>
#include <usml/biverbs/biverbs.h>
#include <usml/eigenrays/eigenrays.h>
#include <usml/eigenverbs/eigenverbs.h>
#include <usml/ocean/ocean.h>
#include <usml/platforms/platforms.h>
#include <usml/rvbts/rvbts.h>
#include <usml/sensors/sensors.h>
#include <usml/threads/threads.h>
#include <usml/transmit/transmit.h>
#include <usml/wavegen/wavegen.h>

#include <cmath>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <unistd.h>
#include <vector>

using namespace usml::sensors;
using namespace usml::ocean;
using namespace usml::threads;

inline void quiet() { std::cout.setstate(std::ios::failbit); }
inline void idle() {
    for (int i = 0; thread_task::num_active() != 0; ++i) {
        usleep(50);
        seq::check(i < 400000, "background tasks do not finish");
    }
}
