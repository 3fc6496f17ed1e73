// Own translation unit: every public header, and the class templates a user instantiates.
#include <algorithm>
#include <cassert>
#include <cmath>
#include <fstream>
#include <span>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <Eigen/Dense>
#include "libnurbs/libnurbs.hpp"
#include "libnurbs/Algorithm/DegreeAlgo.hpp"
#include "libnurbs/Algorithm/KnotRemoval.hpp"
#include "libnurbs/Core/BoundingBox.hpp"
#include "libnurbs/Utils/Serialization.hpp"
template class libnurbs::Grid<libnurbs::Vec4>;
template class libnurbs::Grid<libnurbs::Vec3>;
bool nv_use_approx(const libnurbs::Vec3& a, const libnurbs::Vec3& b) { return libnurbs::Approx(a, b, 1e-6); }
