#pragma once
#include "../Time.hpp"
#include <vector>
namespace base { namespace samples { struct DistanceImage { Time time; uint16_t width, height; float scale_x, scale_y, center_x, center_y; std::vector<float> data; DistanceImage(); void setSize(double,double); }; }}
