#pragma once
#include "../Time.hpp"
#include "../Eigen.hpp"
#include <vector>
namespace base { namespace samples { struct Pointcloud { Time time; std::vector<Vector3d> points; std::vector<Vector4d> colors; }; }}
