#include <boost/geometry/geometry.hpp>
