#pragma once
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
namespace numeric {
template<class Scalar> class PlaneFitting { public:
    typedef Eigen::Matrix<Scalar,3,1> Vector3; typedef Eigen::Matrix<Scalar,3,3> Matrix3;
    Scalar x,y,z,xx,yy,xy,xz,yz,zz,n;
    struct Result { Vector3 getCoeffs() const; Matrix3 getCovariance() const; Scalar getResiduals() const; };
    PlaneFitting(); PlaneFitting(const Vector3& p, Scalar weight=1); void scale(Scalar); void clear(); void update(const Vector3& p, Scalar weight=1); void update(const PlaneFitting<Scalar>& o); 
    Vector3 getCoeffs() const; Matrix3 getCovariance() const; Scalar getResiduals() const; Scalar getNormalizedResiduals() const; Result solve() const; Vector3 getNormal() const; Vector3 getMean() const;
};
}
