// Explicit instantiations, so that every member of the header-only templates
// is type-checked and dumped (an implicit instantiation only yields the used ones).
#include <vector>
#include <cmath>
#include <stdint.h>
#include <map>
#include <list>
#include <iostream>
#include <envire/core/Holder.hpp>
#include <envire/core/EventSource.hpp>
#include <envire/core/SerializationFactory.hpp>
#include <envire/maps/MLSConfiguration.hpp>
#include <envire/tools/BoxLookUpTable.hpp>
#include <envire/tools/ExpectationMaximization.hpp>
#include <envire/tools/GaussianMixture.hpp>
#include <envire/tools/ListGrid.hpp>
#include <envire/tools/Numeric.hpp>
#include <envire/tools/RadialLookUpTable.hpp>
namespace vdrv { struct Payload { int v; Payload() : v(0) {} Payload(int i) : v(i) {} bool operator<(const Payload& o) const { return v < o.v; } }; }
template class envire::ListGrid<vdrv::Payload>;
template class envire::Holder<vdrv::Payload>;
template struct envire::Gaussian<double,2>;
template struct envire::Gaussian<double,3>;
template class envire::GaussianMixture<double,2>;
typedef envire::GaussianMixture<double,2> VGMM;
template class envire::KMeans<VGMM>;
template class envire::GaussianMixtureSampling<VGMM>;
template class envire::ExpectationMaximization<VGMM>;
template double sq<double>(double);
template void kalman_update<double>(double&, double&, double, double);
