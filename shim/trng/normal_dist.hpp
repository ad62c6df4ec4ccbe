#include "vf_trng.hpp"
