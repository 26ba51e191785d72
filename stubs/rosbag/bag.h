#include <verif_ros.hpp>
