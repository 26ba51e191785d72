#include <verif_vision.hpp>
