#pragma once
#include "Eigen.hpp"
namespace base {
struct Pose {
    Position position; Orientation orientation;
    Pose();
    Pose(Position const&, Orientation const&);
    explicit Pose(Eigen::Affine3d const&);
    explicit Pose(Vector6d const&);
    void fromTransform(Eigen::Affine3d const&);
    Eigen::Affine3d toTransform() const;
    Vector6d toVector6d() const;
    double getYaw() const;
};
struct Pose2D { Position2D position; double orientation; Pose2D(); Pose2D(Position2D const&, double); };
}
