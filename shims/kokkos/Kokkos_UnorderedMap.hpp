#pragma once
#include "Kokkos_Core.hpp"
namespace Kokkos { template <class K, class V, class... D> struct UnorderedMap {}; }
