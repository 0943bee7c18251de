// Explicit instantiations, so that every member of the header-only templates
// is type-checked and dumped (an implicit instantiation only yields the used ones).
#include <vector>
#include <cmath>
#include <stdint.h>
#include <map>
#include <list>
#include <iostream>
#include <envire/Core.hpp>
#include <envire/core/Holder.hpp>
#include <envire/core/EventSource.hpp>
#include <envire/core/SerializationFactory.hpp>
#include <envire/maps/MLSConfiguration.hpp>
#include <envire/maps/MLSGrid.hpp>
#include <envire/maps/MLSMap.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/maps/TraversabilityGrid.hpp>
#include <envire/maps/MapSegment.hpp>
#include <envire/tools/BoxLookUpTable.hpp>
#include <envire/tools/ExpectationMaximization.hpp>
#include <envire/tools/GaussianMixture.hpp>
#include <envire/tools/ListGrid.hpp>
#include <envire/tools/Numeric.hpp>
#include <envire/tools/RadialLookUpTable.hpp>
#include <envire/operators/ClassGridProjection.hpp>
#include <envire/operators/Fold.hpp>
#include <envire/operators/ObjectGrowing.hpp>
template class envire::FoldOperator<double>;
template class envire::ObjectGrowing<uint8_t>;
template class envire::GrowthPolicy<uint8_t>;
template class envire::ClassGridProjection<uint8_t,uint8_t>;
