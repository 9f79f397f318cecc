#include <base/Eigen.hpp>
