#pragma once
#include "ksim_blas.hpp"
