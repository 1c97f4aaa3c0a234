#include <cblas.h>
