#pragma once
#include <Eigen/Core>
namespace numeric {
template<class T> struct StatsVar { typedef T type; };
template<class S,int N,int O,int MR,int MC> struct StatsVar< Eigen::Matrix<S,N,1,O,MR,MC> > { typedef Eigen::Matrix<S,N,N> type; };
template<class T> class Stats { public: Stats(); void update(T const&, double=1); T mean() const; typename StatsVar<T>::type var() const; T stdev() const; T min() const; T max() const; double n() const; double sumWeights() const; };
}
