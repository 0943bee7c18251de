"""The properties, in words."""

TESTS = 'The two runnable tests only exercise the mixture estimation on one sampled data set'


def fill(prop):
    prop('T01', 'Box distance table answers with the distance of the queried cell',
         'For every box size, resolution and margin, a lookup inside the covered area returns the largest distance to the box among the sample '
         'points of the cell that contains the query, and a lookup outside the covered area, or before any computation, raises an error instead '
         'of reading outside the table. Recomputing with parameters that differ in resolution or box size, or with a larger margin, always '
         'replaces the table.',
         ['inputs', 'histories'], 'all box sizes, resolutions, margins and query points, and all sequences of recomputations',
         TESTS + '; the table is never queried by them, let alone at the borders of cells or after a parameter change.',
         ['src/tools/BoxLookUpTable.cpp', 'src/tools/BoxLookUpTable.hpp'],
         [('parameter comparison before recomputation, table dimensions and centre derived from the parameters', 'BoxLookUpTable::recompute'),
          ('write index and read index use the same cell mapping and stay inside the allocation', 'BoxLookUpTable::computeDistances, getDistanceToBox')],
         [('distanceTable', 'row major distances, width x height entries', 'src/tools/BoxLookUpTable.hpp')], ['getDistanceToBox return value'],
         note='The numerical accuracy of the sampled distances (the step of a tenth of a cell) is taken from the code, not bounded.')
    prop('T02', 'Radial table answers with distance and angle of the queried offset',
         'For every radius and resolution, the distance and angle returned for a cell offset inside the radius are those of that offset scaled by '
         'the resolution, and the value is read from inside the table. Changing the resolution or the radius always replaces both tables.',
         ['inputs', 'histories'], 'all radii, resolutions and offsets inside the radius, and all sequences of recomputations',
         TESTS + '; no test queries this table.',
         ['src/tools/RadialLookUpTable.cpp', 'src/tools/RadialLookUpTable.hpp'],
         [('both tables recomputed from the same half width', 'RadialLookUpTable::recompute, computeDistances, computeAngles'),
          ('lookup shifts the offset by the half width used for filling', 'RadialLookUpTable::getDistance, getAngle')],
         [('distanceTable, angleTable', 'row major, one entry per offset', 'src/tools/RadialLookUpTable.hpp')], ['getDistance and getAngle return values'])
    prop('L01', 'Lists of a list grid stay linked through every edit',
         'After any sequence of inserting at the head or tail of a cell, erasing through an iterator and shifting the grid, iterating over a cell '
         'visits exactly the elements inserted there and not erased, in order. Erasing removes exactly the element the iterator designates and '
         'returns its successor, and shifting moves every element to the displaced cell or discards it when the cell leaves the grid.',
         ['histories', 'inputs'], 'all sequences of insertions, erasures and shifts with all cell indices and payload types',
         TESTS + '; the list grid is only used by map classes that are not part of the runnable tests.',
         ['src/tools/ListGrid.hpp'],
         [('forward link and back link maintained together', 'ListGrid::insertHead, insertTail, erase'),
          ('cell heads relocated with their back links', 'ListGrid::move')],
         [('next, pthis', 'successor link and address of the link that points to the item', 'src/tools/ListGrid.hpp Item')], ['iteration from beginCell to endCell'])
    prop('L02', 'A list grid owns its elements exclusively',
         'Copying or assigning a list grid produces independent elements in the same cells and the same order, and neither grid can later observe '
         'or free storage of the other. Clearing, resizing and destroying a grid releases all of its elements exactly once and leaves every cell '
         'empty.',
         ['histories', 'programs'], 'all programs that copy, assign, clear, resize and destroy list grids',
         TESTS + '; memory ownership across copies needs histories of several grids that no test builds.',
         ['src/tools/ListGrid.hpp'],
         [('pool created in every constructor, replaced on clear, deleted once', 'ListGrid constructors, clear, destructor'),
          ('element wise copy into own pool', 'ListGrid::operator=')],
         [('mem_pool', 'owner of all items of the grid', 'src/tools/ListGrid.hpp')], ['iteration over both grids after a copy'])
    MIX = 'The runnable test fits one well separated, unweighted data set and compares loosely'
    prop('N01', 'Mixture density and statistics follow their definition',
         'For every mean, covariance, dimension, weight and point, a Gaussian evaluates to the normalised multivariate normal density, a mixture '
         'evaluates to the weighted sum over all of its components, accumulated statistics yield the weighted mean and covariance of everything '
         'inserted, and normalising a mixture makes its weights sum to one while keeping their proportions.',
         ['inputs'], 'all dimensions, means, covariances, weights, points and numbers of components',
         MIX + ', so the value of the density, unequal weights and odd dimensions are not settled.',
         ['src/tools/GaussianMixture.hpp'],
         [('normalised density', 'Gaussian::eval'), ('sum over components', 'GaussianMixture::eval'), ('weights divided by their sum', 'GaussianMixture::normalize'),
          ('weighted first and second moments', 'Gaussian::Stats::insert, Stats::update')],
         [('params', 'components of the mixture with weight', 'src/tools/GaussianMixture.hpp')], ['eval return value', 'weights after normalize'],
         note='Values are over the reals: rounding and overflow are not bounded.')
    prop('N02', 'An expectation maximisation step re-estimates from the responsibilities',
         'For every set of samples with or without weights and every mixture, a step sets the weight, mean and covariance of every component to '
         'the responsibility weighted estimates of the samples, removes exactly the components with negligible or undefined mass, and reports '
         'the average log likelihood before the step. Running stops at the iteration limit or when the likelihood change falls to the given '
         'bound, initialising builds a normalised mixture of all clusters of the given samples, and a drawn sample comes from the component '
         'selected by its weight.',
         ['inputs', 'histories'], 'all samples, weights, mixtures, iteration limits, and any number of steps',
         MIX + '; weighted samples, removal of several components and early termination never occur in it.',
         ['src/tools/ExpectationMaximization.hpp'],
         [('expectation and maximisation', 'ExpectationMaximization::step'), ('termination', 'ExpectationMaximization::run'),
          ('initial clusters', 'ExpectationMaximization::initialize'), ('component selection', 'GaussianMixtureSampling::sample')],
         [('gamma', 'responsibility of component j for sample i', 'ExpectationMaximization::step')], ['gmm.params after step', 'step return value'],
         note='Convergence quality of the estimation is not claimed, only the single step and the loop control.')
    prop('N03', 'Clustering assigns every sample to its nearest class mean',
         'For every set of samples and weights, the class means are the weighted means of exactly the samples currently assigned to the class, '
         'classes without samples take no part in the assignment, every sample is assigned to the nearest class, clustering goes on until no '
         'sample changes its class, and the reported clusters are the weighted statistics of the non-empty classes.',
         ['inputs', 'histories'], 'all samples, weights and numbers of classes, and any number of iterations',
         MIX + '; weighted samples and classes that run empty are not exercised.',
         ['src/tools/ExpectationMaximization.hpp'],
         [('means recomputed from scratch', 'KMeans::calcMeans'), ('assignment and switch count', 'KMeans::associateSamples'), ('loop until stable', 'KMeans::run'),
          ('clusters', 'KMeans::getClusters')],
         [('index', 'class of each sample', 'src/tools/ExpectationMaximization.hpp')], ['getClusters return value'],
         note='Termination of the clustering loop is a runtime quantity and not claimed; the nearest neighbour search of the external kd-tree is trusted.')
    prop('N04', 'Scalar fusion weighs estimates by their variance',
         'For all means and standard deviations, fusing a measurement into a state gives the average of both means weighted by the inverse of '
         'their variances and the deviation that belongs to it. An exact state is not moved by a noisy measurement, an exact measurement replaces '
         'a noisy state, and two exact values are averaged without producing a value that is not a number.',
         ['inputs'], 'all means and deviations including zero ones',
         TESTS + '; fusion is used by the map update code which the tests do not run.',
         ['src/tools/Numeric.hpp'], [('gain, mean and variance update', 'kalman_update')], [], ['updated mean and variance'])
    W = ('abstract interpretation of the member functions into path summaries, decided by exhaustive enumeration of equality patterns of the pointers '
         'and container memberships the summaries compare (small abstract worlds)')
    CORE = 'No runnable test touches the environment, and a history of several operations is needed for two links or handlers to interact'
    prop('C01', 'Every change of a relation is made and announced exactly once',
         'In every history, linking or unlinking frame nodes, maps, layers and operators changes exactly the relation the request names. A '
         'change of the frame tree, of a map placement or of a layer link is announced once, with its type, operation and operands in parent, child or map, '
         'node order, replacing a link announces the removal of the old one first, and a request that changes nothing announces nothing. The '
         'queries for parents, children, maps, inputs, outputs and generators report exactly the stored relations.',
         ['histories', 'inputs'], 'all sequences of link, unlink and query requests on all items, attached or not',
         CORE + ', which is where duplicate and replaced links show.',
         ['src/core/Environment.cpp', 'src/core/Environment.hpp', 'src/core/FrameNode.cpp'],
         [('link and unlink with announcement', 'Environment::addChild, removeChild, setFrameNode, detachFrameNode, addInput, addOutput, removeInput, removeOutput'),
          ('queries', 'Environment::getParent, getParents, getChildren, getMaps, getInputs, getOutputs, getGenerator, getLayersGeneratedFrom')],
         [('frameNodeTree, layerTree, cartesianMapGraph, operatorGraphInput, operatorGraphOutput', 'the relations', 'src/core/Environment.hpp')],
         ['events received by a registered handler', 'results of the queries'], technique=W,
         note='A request is analysed from any state of the relations; handlers that change the environment while they are being notified are not modelled.')
    prop('C02', 'A detached item leaves no link behind',
         'Whenever an item is detached, every link in which it takes part on either side is taken away first, then its removal is announced, it '
         'disappears from the item table and no longer refers to the environment, and the caller receives it alive. A deep detach also detaches '
         'the children and the maps of a frame node in the same way, and destroying an environment detaches all of its items.',
         ['histories', 'inputs'], 'all states of all relations at the time of the detachment',
         CORE + '; a dangling link is only noticed when it is followed later.',
         ['src/core/Environment.cpp'],
         [('collection of the links of an item, on both sides', 'findMapItem, Environment::detachItem'), ('destruction', 'Environment::~Environment')],
         [('items', 'attached items by identifier', 'src/core/Environment.hpp')], ['queries after the detachment', 'announced events'], technique=W)
    prop('C03', 'Items are attached once, under an identifier of their own',
         'An item is entered into the environment under its identifier only if that identifier is free, otherwise the call throws and nothing '
         'changes. An item without an identifier, or with one that ends in a slash, always gets a free one below the prefix, relative identifiers '
         'are placed below the environment prefix, and an item that belongs to another environment is taken out of there first without being '
         'freed. The identifier of an attached item never changes, and an item lives exactly as long as it is referenced.',
         ['histories', 'inputs'], 'all items, identifiers, prefixes and states of the item table',
         CORE + '; identifier collisions need particular earlier attachments.',
         ['src/core/Environment.cpp', 'src/core/Environment.hpp'],
         [('identifier generation and duplicate check', 'Environment::attachItem'), ('identifier is frozen while attached', 'EnvironmentItem::setUniqueId'),
          ('reference counting', 'intrusive_ptr_add_ref, intrusive_ptr_release')],
         [('items, last_id, envPrefix', 'item table, last number used, prefix', 'src/core/Environment.hpp')], ['getUniqueId, getItem, exceptions'], technique=W,
         note='Identifiers are enumerated by shape (empty, relative, absolute, with and without trailing slash), not by content.')
    prop('C04', 'A handler sees the whole environment when it joins and when it leaves',
         'A handler that is registered is told about every item, the root node, every link of the frame tree below the root, every map placement and '
         'every layer link, items before the relations they appear in, and afterwards receives every event exactly once unless its filter '
         'rejects it. A handler that is removed is told the removal of all of that in reverse dependency order and is never called again.',
         ['histories', 'inputs'], 'all environments and all points of a history at which a handler joins or leaves',
         CORE + '; joining late is what distinguishes a faithful replay from an incomplete one.',
         ['src/core/Environment.cpp', 'src/core/EventSource.cpp', 'src/core/EventHandler.cpp'],
         [('replay', 'Environment::addEventHandler, publishChilds'), ('withdrawal', 'Environment::removeEventHandler, detachChilds'),
          ('dispatch to all handlers', 'EventSource::handle, addEventHandler, removeEventHandler'), ('filter', 'EventHandler::receive')],
         [('handlers', 'registered handlers', 'src/core/EventSource.hpp')], ['events received by the handler'], technique=W,
         note='Frame nodes that are not connected to the root node are outside the statement: their links are not replayed.')
    S = 'evaluation of path summaries of the syntax tree over all abstract inputs up to the point where elements can interact'
    prop('C05', 'An event applied to another environment performs the operation it describes',
         'Every event type and operation reaches the callback that belongs to it with its operands in order, combinations without a meaning raise '
         'an error, and applying an event to an environment performs exactly the named operation on the items with the identifiers of the event: '
         'content is overwritten in place and announced when the item is known, added when it is not, links are added or removed between the two '
         'items whatever else is related to them, and nothing happens when an item is missing. Applying a binary event has the same effect as '
         'applying the event it was made from.',
         ['inputs', 'histories'], 'all events, and all environments they are applied to',
         CORE + '; no test replays events into a second environment.',
         ['src/core/EventHandler.cpp', 'src/core/Event.cpp', 'src/core/Serialization.cpp'],
         [('callback per type and operation', 'EventDispatcher::dispatch'), ('operation on the target environment', 'Event::apply'),
          ('binary events', 'BinarySerialization::applyEvent, applyEvents')],
         [('id_a, id_b', 'identifiers of the operands', 'src/core/Event.hpp')], ['operations performed on the target environment'], technique=S,
         note='That a replayed history reproduces the relations also rests on C01 to C03 for both environments.')
    prop('C06', 'Queued and serialised events keep the net effect of the history',
         'A queue that is flushed delivers, in order, one event for everything that happened unless a later event for the same operands repeats, '
         'reverts or supersedes it; events carry identifiers and, with content, the item or its copy, never a dangling item. Whatever is queued '
         'or delivered as binary events is delivered once, complete with the content of added and modified items and with context where requested. '
         'The queue is only touched with its mutex held, and the mutex is never taken twice by one thread.',
         ['histories', 'schedules'], 'all sequences of events, points of flushing and interleavings of producer and consumer',
         CORE + '; merging matters only for particular sequences and locking only for particular interleavings.',
         ['src/core/Event.cpp', 'src/core/EventHandler.cpp', 'src/core/Serialization.cpp', 'src/core/Environment.cpp'],
         [('merge table', 'Event::merge'), ('identifiers and copy', 'Event::ref'), ('queue', 'EventQueue::handle, flush'),
          ('binary events', 'SynchronizationEventHandler, SynchronizationEventQueue, Environment::pullEvents')],
         [('msgQueue', 'pending events, guarded by queueMutex', 'src/core/EventHandler.hpp'), ('msg_buffer', 'binary events not yet handed over', 'src/core/Serialization.hpp')],
         ['events passed to process', 'binary events handed over'], technique=S + '; lock scopes of the guard objects for the mutex')
    prop('C07', 'Relative transforms follow the frame tree',
         'For two frames with a common root, the relative transform takes coordinates of the first frame up to the root, each link applied after the '
         'links below it, and down to the second frame; frames of different trees are an error. The transform of the root itself plays no part, and '
         'the variants with uncertainty and for maps agree with it. A frame node that gets a new transform stores it as given and announces the change exactly once, '
         'after storing it.',
         ['inputs', 'histories'], 'all shapes of frame trees and all pairs of frames, all transforms',
         CORE + '; a wrong order of factors does not show with pure translations.',
         ['src/core/Environment.cpp', 'src/core/FrameNode.cpp'],
         [('walk to the root and combination', 'relativeFrameNodeRoot, relativeTransform'), ('root of a frame', 'FrameNode::getRoot, isRoot'), ('store and announce', 'FrameNode::setTransform')],
         [('frame', 'transform of a node into its parent', 'src/core/FrameNode.hpp')], ['results of relativeTransform', 'update events'],
         technique='evaluation of path summaries of the syntax tree in the free group over the transforms of the nodes',
         note='Trees of up to four nodes (five in the thorough run); every constellation of two chains with at most three links occurs among them.')
    prop('C08', 'Uncertainty is propagated to first order by the published rules',
         'Composing, inverting and undoing compositions of transforms, and transforming points, yield the transform they are defined by together with '
         'the covariance obtained from the covariances of the operands by the Jacobians of Pennec and Thirion as implemented to the stated order of '
         'approximation; inverse compositions recover the covariance such that composing again gives back the original one. A result carries '
         'uncertainty exactly if an operand does, a transform without uncertainty has a zero covariance, and body states exchange the orientation '
         'and position blocks unchanged.',
         ['inputs'], 'all transforms, points and covariances',
         'No test of the core library compares a covariance with anything; signs and factors of a Jacobian only show for correlated covariances and general rotations.',
         ['src/core/Transform.cpp', 'src/core/Transform.hpp'],
         [('Jacobians', 'dq_by_dr, dr_by_dq, dr2r1_by_r1, dr2r1_by_r2, drx_by_dr'), ('composition and inverses', 'TransformWithUncertainty::operator*, compositionInv, preCompositionInv, inverse'),
          ('flag', 'hasUncertainty, setCovariance')],
         [('cov', 'covariance of rotation and translation', 'src/core/Transform.hpp')], ['getCovariance, hasUncertainty of the results'],
         technique='comparison of the extracted matrix expressions with the published ones in matrices over truncated power series (generic axes, symbolic angle) and at rational large rotations',
         note='Floating point rounding and the error of the approximations themselves are outside the statement.')
    prop('S01', 'What an item saves is what the item loaded from it holds',
         'For every item class that can be created from a document: loading the document an item was saved to yields an item in which each saved '
         'member has the value it had, whatever the values, including those that decide whether something is saved at all. The document holds the keys '
         'of the scene format, each fed from a member of its own; nothing is read unconditionally that is not saved; binary content goes to streams '
         'that are read back under the same names by the matching reader, after everything that reader needs has been restored. Saving changes nothing.',
         ['inputs', 'histories'], 'all item classes and all values of their members, saved to files or to binary events',
         'No test saves and loads anything; a key that is dropped, mistyped or restored into the wrong member shows only for values that differ from the defaults.',
         ['src/core/Environment.cpp', 'src/core/Layer.cpp', 'src/core/FrameNode.cpp', 'src/core/Serialization.hpp', 'src/maps/GridBase.cpp', 'src/maps/Grid.hpp', 'src/maps/MLSGrid.cpp',
          'src/maps/Pointcloud.cpp', 'src/maps/TriMesh.cpp', 'src/maps/LaserScan.cpp', 'src/maps/TraversabilityGrid.cpp', 'src/operators/SimpleTraversability.cpp', 'src/operators/ScanMeshing.cpp'],
         [('creation from a document', 'createItem'), ('per class', 'serialize and unserialize of each item class'), ('binary content', 'writeMap/readMap, writeGridData/readGridData, writePly/readPly, writeScan/readScan: names and order')],
         [('document', 'keys and streams of one item', 'src/core/Serialization.hpp')], ['members of the loaded item'],
         technique='evaluation of the path summaries of serialize on a symbolic item, and of the constructor and unserialize on the document that results',
         note='The byte layout inside the binary streams is not part of this property; numbers are taken to survive their textual form.')
    prop('S02', 'A scene that is written and read again is the same scene',
         'Writing an environment to a scene file and reading that file gives an environment with the same items, each created once with its class and identifier, '
         'and the same links in each of the five relations (frame tree, layer tree, operator inputs and outputs, maps of frames), including several links that share an end. '
         'The file has the published structure: objects with their class, before links with their type and the identifiers of their ends. The item "/0" is the root again and the root made '
         'for the new environment is gone; identifiers given out later are above every loaded number. File, document, emitter and parser are released exactly once.',
         ['inputs', 'histories'], 'all environments: any items, any links, any identifiers',
         'No test writes or reads a scene; a lost, swapped or merged link shows only for particular combinations of links, a colliding identifier only after further items are added.',
         ['src/core/Serialization.cpp', 'src/core/Environment.hpp'],
         [('writing', 'FileSerialization::writeToFile'), ('reading', 'FileSerialization::readFromFile, getMap')],
         [('scene document', 'objects and links', 'src/core/Serialization.cpp')], ['items, relations, root and last_id of the environment that is read'],
         technique='evaluation of the path summaries of the writing and the reading function on environments and documents, libyaml being given by a model of documents',
         note='What each item saves of itself is property S01; the textual layer below the document is libyaml\'s.')
    prop('S03', 'A value written under a key is the value read from that key',
         'For every type the serialization object can write (texts, truth values, integers and floating point numbers of all sizes, transformations, covariance matrices) reading a key gives '
         'exactly the value that was written under it, and leaves the other keys of the object as they are, also keys that begin with one another. Reading a key that is not there reports failure (or throws) '
         'and does not change the variable; hasKey is true for exactly the keys that are there, of the current object only. The functions around libyaml find, add and return exactly the nodes they are asked for.',
         ['inputs'], 'all types, values and keys',
         'No test serializes a value; rounding, transposition, truncation and confusion of keys show only for particular values and keys.',
         ['src/core/Serialization.cpp', 'src/core/Serialization.hpp'],
         [('values', 'Serialization::write, read, hasKey'), ('document', 'YAMLSerializationImpl::findNodeInMap, getScalar, getScalarInMap, addScalar, addNodeToMap, addToSequence')],
         [('document', 'mapping of the current object', 'src/core/Serialization.cpp')], ['values read, result of read and hasKey'],
         technique='evaluation of the path summaries of write and read one after the other on a model of documents, for boundary values of each type and matrices with distinct elements',
         note='lexical_cast is taken to keep all digits of a number (as boost does) and to refuse texts that are no value of the type.')
    GR = 'No test of the repository that runs here uses a grid'
    prop('M01', 'Grid indexes and coordinates describe the same cells',
         'For all cell counts, scales and offsets: a point lies in the cell floor((p - offset) / scale); toGrid succeeds exactly for the points of cells of the grid, yields that cell (and the position within it) and '
         'writes nothing otherwise; fromGrid yields the centre of the cell. All overloads, the finer grids used for rectangles and the variants for other frames agree with this, the latter '
         'after converting the point by toMap or fromMap. The extents of a grid cover its cells and nothing else, contains() is true for exactly the indexes of its cells, and constructors of all grid classes keep count, scale and offset '
         'apart. Positions are equal if both indexes are, and strictly ordered.',
         ['inputs'], 'all grids (cell counts, scales, offsets) and all points and indexes',
         GR + '; off-by-one errors and swapped axes show only at borders of non-square grids with unequal scales and offsets.',
         ['src/maps/GridBase.cpp', 'src/maps/GridBase.hpp', 'src/maps/Grid.hpp', 'src/maps/Grids.hpp', 'src/maps/MLSGrid.cpp'],
         [('conversion', 'GridBase::toGrid, toGridTimesX, fromGrid'), ('extents', 'getExtents, getCellExtents, contains, getSizeX, getCenterPoint'), ('construction', 'constructors of the grid classes')],
         [('geometry', 'cell counts, scales and offsets of a grid', 'src/maps/GridBase.hpp')], ['indexes, coordinates and extents returned'],
         technique='evaluation of the path summaries of the conversions in exact arithmetic on grids, at and around every border of their cells',
         note='Real arithmetic: rounding of floating point coordinates next to a border is outside the statement. The rasterisation of rectangles is not part of it.')
    prop('M02', 'The cells of a band are stored and found in their place',
         'For all grids: reading or writing the cell (x, y) of a band accesses exactly that cell of exactly that band, of which every band has as many rows and columns as the grid; a band that is asked for is created with that size, '
         'asking a const grid for a missing one is an error, positions outside are an error. The no-data value of a band is the last one set for it, copying a band copies cells and no-data value to the band named as target (by default the one of the same name) and to no other; '
         'getMinMaxValues gives the smallest and the largest cell. The normal of an elevation grid follows from the difference of the existing neighbours, the elevation between cell centres from cell and normal. '
         'A traversability class is found under the number it was set or registered for, others keep theirs, unknown numbers are an error; probabilities come back with a resolution of 1/255 and saturate. '
         'Statistics give number, smallest distance and highest class of exactly the measurements added. A copied or assigned traversability grid refers to its own cells.',
         ['inputs', 'histories'], 'all grids, cell types, bands, indexes, positions and cell contents',
         GR + '; swapped indexes show only on grids that are not square, the border cases only at the border, stale references only after a copy.',
         ['src/maps/Grid.hpp', 'src/maps/ElevationGrid.cpp', 'src/maps/ElevationGrid.hpp', 'src/maps/TraversabilityGrid.cpp', 'src/maps/TraversabilityGrid.hpp'],
         [('cells', 'Grid<T>::getFromRaster, get, getGridData'), ('bands', 'Grid<T>::copyBandFrom, setNoData, getNoData, getMinMaxValues'), ('elevation', 'ElevationGrid::get, getNormal, getElevation'),
          ('traversability', 'TraversabilityGrid::setTraversability, getTraversability, setProbability, registerNewTraversabilityClass, operator=; TraversabilityClass; TraversabilityStatistic')],
         [('bands', 'cells of the named bands', 'src/maps/Grid.hpp'), ('classes', 'table of traversability classes', 'src/maps/TraversabilityGrid.hpp')], ['cells, classes, statistics returned; cells written'],
         technique='evaluation of the path summaries on a grid of unequal sides for every cell, band state and table size; the pointers kept to bands are followed through all member functions',
         note='The walk over the cells of a rectangle is not part of it, nor are the transfers to image files and streams.')
    prop('M03', 'The cells of a line form a connected chain along the line',
         'For any two cells: the cells fetched for the line between them begin with the first and end with the last, each is a neighbour of the one before, there are as many as the larger index difference plus one, none is '
         'further than half a cell from the straight line, and afterwards no cell is reported any more. Setting the line by cells, vectors, numbers or constructor, setting it again at any moment, and fetching the cells one by one '
         'or all at once gives the same.',
         ['inputs', 'histories'], 'all pairs of cells and all sequences of set and fetch',
         GR + ', let alone a line; each octant, the diagonals and the degenerate line take a path of their own.',
         ['src/tools/BresenhamLine.cpp'],
         [('step', 'Bresenham::getNextPoint'), ('start', 'Bresenham::init and constructors'), ('all cells', 'Bresenham::getLine, lineBresenham')],
         [('state', 'current cell, error term', 'src/tools/BresenhamLine.hpp')], ['cells reported'],
         technique='evaluation of the path summaries (transition relation of the line object) on all lines of up to six cells in each direction',
         note='Lines with up to 6 cells difference along each axis (all 169 slopes and directions among them).')
