#pragma once
#include "kk_sim.h"
