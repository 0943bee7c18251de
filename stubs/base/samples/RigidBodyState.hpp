#pragma once
#include "../Pose.hpp"
#include "../Time.hpp"
#include "../Float.hpp"
#include <string>
namespace base { namespace samples {
struct RigidBodyState {
    Time time; std::string sourceFrame, targetFrame;
    Position position; Matrix3d cov_position;
    Orientation orientation; Matrix3d cov_orientation;
    Vector3d velocity; Matrix3d cov_velocity;
    Vector3d angular_velocity; Matrix3d cov_angular_velocity;
    RigidBodyState(bool doInvalidation = true);
    void setTransform(Eigen::Affine3d const&);
    void setPose(Pose const&);
    Pose getPose() const;
    Eigen::Affine3d getTransform() const;
    void initUnknown(); void invalidate();
    template<int OptionsT> operator Eigen::Transform<double,3,Eigen::Affine,OptionsT>() const { return Eigen::Transform<double,3,Eigen::Affine,OptionsT>(); }
};
}}
