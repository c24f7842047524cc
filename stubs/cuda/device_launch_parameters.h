#include "verif_cuda.h"
