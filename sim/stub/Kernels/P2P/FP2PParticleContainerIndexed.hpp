#include "fg_fmm_stub.hpp"
