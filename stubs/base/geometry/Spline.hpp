#pragma once
#include "../Eigen.hpp"
#include <vector>
namespace base { namespace geometry {
template<int DIM> struct Spline {
    typedef Eigen::Matrix<double,DIM,1,Eigen::DontAlign> vector_t;
    double getStartParam() const; double getEndParam() const; vector_t getPoint(double) const;
    vector_t getStartPoint() const; vector_t getEndPoint() const;
    double getUnitParameter(double=0) const; double getGeometricResolution() const;
    std::pair<double,double> findOneClosestPoint(vector_t const&,double=0) const; double getCurveLength() const;
    double advance(double,double,double) const; bool isEmpty() const; void clear(); void interpolate(std::vector<vector_t> const&);
    std::vector<vector_t> sample(double max_min_dist, std::vector<double>* parameters=0, int max_depth=-1) const;
    std::vector<vector_t> getPoints(std::vector<double> const&) const;
};
typedef Spline<3> Spline3;
}}
