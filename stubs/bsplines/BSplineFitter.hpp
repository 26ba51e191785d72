#include <verif_splines.hpp>
