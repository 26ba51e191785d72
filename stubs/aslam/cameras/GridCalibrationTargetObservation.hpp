#include <verif_camera.hpp>
