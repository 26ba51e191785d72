#include <verif_expressions.hpp>
