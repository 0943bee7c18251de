#pragma once
#include "../Eigen.hpp"
#include "../Time.hpp"
#include "../Float.hpp"
#include <vector>
namespace base { namespace samples {
enum LASER_RANGE_ERRORS { TOO_FAR=1, TOO_NEAR=2, MEASUREMENT_ERROR=3, OTHER_RANGE_ERRORS=4, MAX_RANGE_ERROR=5, END_LASER_RANGE_ERRORS=6 };
struct LaserScan {
    typedef uint32_t uint32_t_;
    Time time; double start_angle; double angular_resolution; double speed;
    std::vector< ::uint32_t > ranges; ::uint32_t minRange, maxRange; std::vector<float> remission;
    LaserScan();
    bool isValidBeam(unsigned int i) const;
    bool getPointFromScanBeam(const unsigned int i, Eigen::Vector3d& p) const;
    std::vector<Eigen::Vector3d> convertScanToPointCloud(Eigen::Affine3d const& t) const;
    template<typename T> void convertScanToPointCloud(std::vector<T>& out, Eigen::Affine3d const& t = Eigen::Affine3d::Identity(), bool skip=true) const { (void)out; (void)t; (void)skip; }
};
}}
