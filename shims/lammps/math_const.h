#pragma once
#include "lmp_sim.h"
